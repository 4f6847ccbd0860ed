#include "probe.h"
#include <chrono>
#include <memory>
#include <stdexcept>
#include <system_error>
#include "sockets/TCPSocket.h"
#include "sockets/UDPSocket.h"
#include "sockets/UDPBoundSocket.h"
#include "DiscoveryManager.h"

namespace probe {
using namespace eipScanner;
using namespace eipScanner::sockets;
using std::chrono::milliseconds;

// ---- waiting
template <int N> void wait_on() {
	std::vector<BaseSocket::SPtr> set;
	for (int i = 0; i < N; i++) {
		auto s = std::make_shared<UDPBoundSocket>(EndPoint("0.0.0.0", 2222 + i));
		s->setBeginReceiveHandler([i](BaseSocket& s) {
			eip_hook("ready", i, s.getSocketFd());
		});
		set.push_back(s);
	}
	eip_mark("wait");
	try {
		BaseSocket::select(set, milliseconds(eip_i32("ms")));
		eip_mark("returned");
	} catch (const std::system_error& e) {
		eip_out("error", e.code().value());
	}
}
void wait0() { wait_on<0>(); }
void wait1() { wait_on<1>(); }
void wait2() { wait_on<2>(); }
void wait3() { wait_on<3>(); }
void wait4() { wait_on<4>(); }
// sockets of all kinds, one without a listener
void wait_kinds() {
	std::vector<BaseSocket::SPtr> set{std::make_shared<UDPSocket>(EndPoint("10.0.0.1", 44818)), std::make_shared<TCPSocket>(EndPoint("10.0.0.1", 44818)),
		std::make_shared<UDPBoundSocket>("0.0.0.0", 2222)};
	for (int i : {0, 2})
		set[i]->setBeginReceiveHandler([i](BaseSocket& s) { eip_hook("ready", i, s.getSocketFd()); });
	eip_mark("wait");
	BaseSocket::select(set, milliseconds(eip_i32("ms")));
	eip_mark("returned");
}
// listeners that call back
void wait_replace() {
	auto a = std::make_shared<UDPBoundSocket>(EndPoint("0.0.0.0", 2222));
	auto note = std::make_shared<std::vector<int>>(3, 7);
	a->setBeginReceiveHandler([note](BaseSocket& s) {
		s.setBeginReceiveHandler([note](BaseSocket&) { eip_hook("ready", 1, (*note)[2]); });
		eip_hook("ready", 0, (*note)[1]);
	});
	eip_mark("wait");
	note.reset();
	BaseSocket::select({a}, milliseconds(eip_i32("ms")));
	eip_mark("returned");
}
void wait_remove() {
	auto a = std::make_shared<UDPBoundSocket>(EndPoint("0.0.0.0", 2222));
	a->setBeginReceiveHandler([](BaseSocket& s) {
		s.setBeginReceiveHandler(nullptr);
		eip_hook("ready", 0, s.getSocketFd());
	});
	BaseSocket::select({a}, milliseconds(eip_i32("ms")));
	eip_mark("returned");
}
void wait_drop() {
	std::vector<BaseSocket::SPtr> set;
	for (int i = 0; i < 2; i++) {
		set.push_back(std::make_shared<UDPBoundSocket>(EndPoint("0.0.0.0", 2222 + i)));
		set[i]->setBeginReceiveHandler([&set, i](BaseSocket& s) {
			set.clear();
			eip_hook("ready", i, s.getSocketFd());
		});
	}
	BaseSocket::select(set, milliseconds(eip_i32("ms")));
	eip_mark("returned");
}
void wait_nested() {
	std::vector<BaseSocket::SPtr> set;
	auto depth = std::make_shared<int>(0);
	for (int i = 0; i < 2; i++) {
		set.push_back(std::make_shared<UDPBoundSocket>(EndPoint("0.0.0.0", 2222 + i)));
		set[i]->setBeginReceiveHandler([&set, i, depth](BaseSocket& s) {
			eip_hook("ready", i, s.getSocketFd());
			if (++*depth < 2)
				BaseSocket::select(set, milliseconds(0));
			set[i]->setBeginReceiveHandler([i](BaseSocket& s) { eip_hook("ready", i, s.getSocketFd()); });
		});
	}
	BaseSocket::select(set, milliseconds(eip_i32("ms")));
	eip_mark("returned");
}

// ---- one operation each
template <class F> void guarded(F f) {
	try {
		f();
		eip_mark("fine");
	} catch (const std::system_error& e) {
		eip_out("error", e.code().value());
	}
}
void udp_open() { guarded([] { UDPSocket s(EndPoint("10.0.0.1", 44818)); eip_mark("made"); }); }
void udp_open_host() { guarded([] { UDPSocket s("10.0.0.1", 44818); eip_mark("made"); }); }
void bound_open() { guarded([] { UDPBoundSocket s(EndPoint("10.0.0.1", 2222)); eip_mark("made"); }); }
void bound_open_host() { guarded([] { UDPBoundSocket s("10.0.0.1", 2222); eip_mark("made"); }); }
void tcp_open() { guarded([] { TCPSocket s(EndPoint("10.0.0.1", 44818)); eip_mark("made"); }); }
void tcp_open_host() { guarded([] { TCPSocket s("10.0.0.1", 44818); eip_mark("made"); }); }
void tcp_open_timeout() { guarded([] { TCPSocket s(EndPoint("10.0.0.1", 44818), milliseconds(eip_i32("ms"))); eip_mark("made"); }); }
template <class S, class F> void use(F f) {
	S s(EndPoint("10.0.0.1", 44818));
	eip_mark("made");
	guarded([&] { f(s); });
	eip_mark("used");
}
template <class S> void send_() { use<S>([](S& s) { s.Send(eip_bytes("data")); }); }
template <class S> void send_fix() { use<S>([](S& s) { s.Send(eip_bytes_n("data", 40)); }); }
template <class S> void receive_() { use<S>([](S& s) { eip_out("got", s.Receive(eip_u16("size"))); }); }
template <class S> void timeout_() {
	use<S>([](S& s) {
		s.setRecvTimeout(milliseconds(eip_i32("ms")));
		eip_out("timeout", s.getRecvTimeout().count());
	});
}
void udp_send() { send_<UDPSocket>(); }
void tcp_send() { send_<TCPSocket>(); }
void udp_receive() { receive_<UDPSocket>(); }
void tcp_receive() { receive_<TCPSocket>(); }
void udp_timeout() { timeout_<UDPSocket>(); }
void tcp_timeout() { timeout_<TCPSocket>(); }
void udp_receive_from() {
	use<UDPSocket>([](UDPSocket& s) {
		EndPoint from("", 0);
		eip_out("got", s.ReceiveFrom(eip_u16("size"), from));
		eip_out("family", from.getAddr().sin_family);
		eip_out("nport", from.getAddr().sin_port);
		eip_out("naddr", from.getAddr().sin_addr.s_addr);
	});
}
void discover_faults() {
	guarded([] {
		DiscoveryManager m("10.255.255.255", 44818, milliseconds(100));
		eip_out("n", m.discover().size());
	});
}
}
