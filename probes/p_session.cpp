#include "probe.h"
#include <chrono>
#include <memory>
#include <stdexcept>
#include <system_error>
#include <type_traits>
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "ConnectionManager.h"
#include "DiscoveryManager.h"
#include "IdentityObject.h"
#include "sockets/TCPSocket.h"
#include "sockets/UDPSocket.h"
#include "sockets/UDPBoundSocket.h"

namespace probe {
using namespace eipScanner;
using namespace eipScanner::eip;
using std::chrono::milliseconds;

template <class F> void caught(F f) {
	try {
		f();
		eip_mark("fine");
	} catch (const std::system_error& e) {
		eip_out("error", e.code().value());
		eip_mark("failed");
	} catch (const std::runtime_error&) {
		eip_mark("refused");
	}
}
EncapsPacket request(uint32_t handle) {
	EncapsPacket p;
	p.setCommand(static_cast<EncapsCommands>(eip_u16("command")));
	p.setSessionHandle(handle);
	p.setData(eip_bytes("data", 65535));
	return p;
}
void reply_out(const EncapsPacket& p) {
	eip_out("command", static_cast<uint16_t>(p.getCommand()));
	eip_out("length", p.getLength());
	eip_out("handle", p.getSessionHandle());
	eip_out("status", static_cast<uint32_t>(p.getStatusCode()));
	eip_out("body", p.getData());
}
void exchange(SessionInfo& s) {
	eip_mark("exchange");
	caught([&] { reply_out(s.sendAndReceive(request(s.getSessionHandle()))); });
	eip_mark("exchanged");
}
void sess_open() {
	caught([] {
		SessionInfo s("10.0.0.1", 44818, milliseconds(eip_u16("ms")));
		eip_mark("open");
		eip_out("session", s.getSessionHandle());
		eip_out("host", s.getRemoteEndPoint().getHost());
		eip_out("port", s.getRemoteEndPoint().getPort());
	});
	eip_mark("over");
}
void sess_default() {
	caught([] {
		SessionInfo s("10.0.0.1", 44818);
		eip_mark("open");
		eip_out("session", s.getSessionHandle());
	});
	eip_mark("over");
}
void sess_exchange() {
	SessionInfo s("10.0.0.1", 44818, milliseconds(500));
	eip_mark("open");
	eip_out("session", s.getSessionHandle());
	exchange(s);
	eip_mark("close");
}
void sess_exchange2() {
	SessionInfo s("10.0.0.1", 44818, milliseconds(500));
	eip_mark("open");
	eip_out("session", s.getSessionHandle());
	exchange(s);
	exchange(s);
	eip_mark("close");
}
void sess_unwind() {
	try {
		auto s = std::make_shared<SessionInfo>("10.0.0.1", 44818, milliseconds(500));
		eip_mark("open");
		eip_out("session", s->getSessionHandle());
		throw std::invalid_argument("x");
	} catch (const std::invalid_argument&) {
		eip_mark("unwound");
	} catch (const std::runtime_error&) {
		eip_mark("refused");
	}
}
void sess_shared() {
	auto s = std::make_shared<SessionInfo>("10.0.0.1", 44818, milliseconds(500));
	eip_mark("open");
	auto t = s;
	s.reset();
	eip_out("session", t->getSessionHandle());
	eip_mark("close");
}
// two sessions do not disturb each other
void sess_two() {
	SessionInfo a("10.0.0.1", 44818, milliseconds(500));
	eip_out("session", a.getSessionHandle());
	{
		SessionInfo b("10.0.0.2", 44818, milliseconds(500));
		eip_out("session", b.getSessionHandle());
	}
	exchange(a);
	eip_mark("close");
}
// a whole explicit request over a session
void sess_request() {
	auto s = std::make_shared<SessionInfo>("10.0.0.1", 44818, milliseconds(500));
	eip_mark("open");
	eip_mark("exchange");
	caught([&] {
		auto r = MessageRouter().sendRequest(s, 0x0E, cip::EPath(1, 1, 7));
		eip_out("general", static_cast<uint8_t>(r.getGeneralStatusCode()));
		eip_out("answer", r.getData());
	});
	eip_mark("close");
}
void sess_identity() {
	auto s = std::make_shared<SessionInfo>("10.0.0.1", 44818, milliseconds(500));
	eip_mark("exchange");
	caught([&] {
		IdentityObject o(1, s);
		eip_out("vendor", o.getVendorId());
	});
	eip_mark("close");
}

// ---- copying and moving
template <class T> void traits(const char*) {
	eip_out("copyable", std::is_copy_constructible<T>::value);
	eip_out("assignable", std::is_copy_assignable<T>::value);
	eip_out("movable", std::is_move_constructible<T>::value);
	eip_out("moveassignable", std::is_move_assignable<T>::value);
}
template <class T, class... A> void move_construct(A... a) {
	if constexpr (std::is_move_constructible<T>::value) {
		T x(a...);
		T y(std::move(x));
		eip_mark("moved");
	}
}
template <class T, class... A> void move_assign(A... a) {
	if constexpr (std::is_move_assignable<T>::value) {
		T x(a...);
		T y(a...);
		y = std::move(x);
		eip_mark("moved");
	}
}
template <class T, class... A> void copy_construct(A... a) {
	if constexpr (std::is_copy_constructible<T>::value) {
		T x(a...);
		T y(x);
		eip_mark("copied");
	}
}
using sockets::EndPoint;
void traits_udp() { traits<sockets::UDPSocket>(""); }
void traits_bound() { traits<sockets::UDPBoundSocket>(""); }
void traits_tcp() { traits<sockets::TCPSocket>(""); }
void traits_session() { traits<SessionInfo>(""); }
void traits_manager() { traits<ConnectionManager>(""); }
void move_udp() { move_construct<sockets::UDPSocket>(EndPoint("10.0.0.1", 1)); }
void move_bound() { move_construct<sockets::UDPBoundSocket>(EndPoint("10.0.0.1", 1)); }
void move_tcp() { move_construct<sockets::TCPSocket>(EndPoint("10.0.0.1", 1)); }
void move_session() { move_construct<SessionInfo>("10.0.0.1", 44818); }
void assign_udp() { move_assign<sockets::UDPSocket>(EndPoint("10.0.0.1", 1)); }
void assign_bound() { move_assign<sockets::UDPBoundSocket>(EndPoint("10.0.0.1", 1)); }
void assign_tcp() { move_assign<sockets::TCPSocket>(EndPoint("10.0.0.1", 1)); }
void assign_session() { move_assign<SessionInfo>("10.0.0.1", 44818); }
}
