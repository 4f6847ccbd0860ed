#include "support.h"
#include <array>
#include <chrono>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <unordered_map>
#include <netinet/in.h>
#define private public
#define protected public
#include "ConnectionManager.h"
#include "DiscoveryManager.h"
#include "FileObject.h"
#include "IOConnection.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "SessionInfo.h"
#include "cip/CipRevision.h"
#include "cip/CipString.h"
#include "cip/EPath.h"
#include "cip/MessageRouterRequest.h"
#include "cip/MessageRouterResponse.h"
#include "cip/connectionManager/ConnectionParameters.h"
#include "cip/connectionManager/ForwardCloseRequest.h"
#include "cip/connectionManager/ForwardOpenRequest.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
#include "cip/connectionManager/LargeForwardOpenRequest.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
#include "eip/CommonPacket.h"
#include "eip/CommonPacketItem.h"
#include "eip/EncapsPacket.h"
#include "fileObject/FileObjectEmptyState.h"
#include "fileObject/FileObjectLoadedState.h"
#include "fileObject/FileObjectNonExistentState.h"
#include "fileObject/FileObjectState.h"
#include "fileObject/FileObjectUploadInProgressState.h"
#include "sockets/EndPoint.h"
#include "sockets/TCPSocket.h"
#include "sockets/UDPBoundSocket.h"
#include "sockets/UDPSocket.h"
#include "utils/Buffer.h"
#include "utils/Logger.h"
#include "vendor/ra/powerFlex525/DPIFaultCode.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include "vendor/ra/powerFlex525/DPIFaultParameter.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouterRequest.h"

// Each class constructed once with each of its constructors; the check looks at every scalar the object owns.
namespace probe {
using namespace eipScanner;
using namespace eipScanner::cip;
using namespace eipScanner::cip::connectionManager;
using namespace eipScanner::eip;
using namespace eipScanner::utils;
using namespace eipScanner::fileObject;
using namespace eipScanner::vendor::ra::powerFlex525;

// default-initialised, whether or not the constructor is private
template <class T> void plain() {
	if constexpr (requires { T(); }) {
		T o;
		eip_hook("inspect", o);
	}
}
template <class T, class... A> void with(A... a) {
	if constexpr (requires { T(a...); }) {
		T o(a...);
		eip_hook("inspect", o);
	}
}
std::vector<uint8_t> bytes() { return eip_bytes("data"); }

void ctor_values() {
	eip_mark("CipRevision()");
	plain<CipRevision>();
	eip_mark("CipRevision(major, minor)");
	with<CipRevision>(eip_u8("major"), eip_u8("minor"));
	eip_mark("CipShortString()");
	plain<CipShortString>();
	eip_mark("CipString()");
	plain<CipString>();
	eip_mark("CipShortString(string)");
	with<CipShortString>(std::string("text"));
	eip_mark("CipString(string)");
	with<CipString>(std::string("text"));
	eip_mark("CipShortString(bytes)");
	with<CipShortString>(eip_bytes_n("text", 5));
	eip_mark("CipString(bytes)");
	with<CipString>(eip_bytes_n("text", 5));
	eip_mark("EPath()");
	plain<EPath>();
	eip_mark("EPath(class)");
	with<EPath>(eip_u16("class"));
	eip_mark("EPath(class, object)");
	with<EPath>(eip_u16("class"), eip_u16("object"));
	eip_mark("EPath(class, object, attribute)");
	with<EPath>(eip_u16("class"), eip_u16("object"), eip_u16("attribute"));
	eip_mark("Yaskawa_EPath()");
	plain<Yaskawa_EPath>();
	eip_mark("Yaskawa_EPath(class)");
	with<Yaskawa_EPath>(eip_u8("class"));
	eip_mark("Yaskawa_EPath(class, object)");
	with<Yaskawa_EPath>(eip_u8("class"), eip_u8("object"));
	eip_mark("Yaskawa_EPath(class, object, attribute)");
	with<Yaskawa_EPath>(eip_u8("class"), eip_u8("object"), eip_u8("attribute"));
	eip_mark("Buffer()");
	plain<Buffer>();
	eip_mark("Buffer(capacity)");
	with<Buffer>(size_t(24));
	eip_mark("Buffer(data)");
	with<Buffer>(bytes());
	eip_mark("NetworkConnectionParametersBuilder()");
	plain<NetworkConnectionParametersBuilder>();
	eip_mark("NetworkConnectionParametersBuilder(value)");
	with<NetworkConnectionParametersBuilder>(eip_u32("value"));
	eip_mark("NetworkConnectionParametersBuilder(value, large)");
	with<NetworkConnectionParametersBuilder>(eip_u32("value"), eip_bool("large"));
	eip_mark("EndPoint(host, port)");
	with<sockets::EndPoint>(std::string("10.1.2.3"), 2222);
	eip_mark("EndPoint(address)");
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_port = eip_u16("port");
	a.sin_addr.s_addr = eip_u32("address");
	sockets::EndPoint e(a);
	eip_hook("inspect", e);
}
void ctor_messages() {
	eip_mark("CommonPacketItem()");
	plain<CommonPacketItem>();
	eip_mark("CommonPacketItem(type, data)");
	with<CommonPacketItem>(CommonPacketItemIds::CONNECTED_TRANSPORT_PACKET, bytes());
	eip_mark("CommonPacket()");
	plain<CommonPacket>();
	eip_mark("EncapsPacket()");
	plain<EncapsPacket>();
	eip_mark("MessageRouterResponse()");
	plain<MessageRouterResponse>();
	eip_mark("MessageRouterRequest(service, path, data)");
	with<MessageRouterRequest>(eip_u8("service"), EPath(1, 2, 3), bytes());
	eip_mark("MessageRouterRequest(service, path, data, narrow)");
	with<MessageRouterRequest>(eip_u8("service"), EPath(1, 2, 3), bytes(), true);
	eip_mark("Yaskawa_MessageRouterRequest(service, path, data)");
	with<Yaskawa_MessageRouterRequest>(eip_u8("service"), Yaskawa_EPath(1, 2, 3), bytes());
	eip_mark("ConnectionParameters");
	plain<ConnectionParameters>();
	eip_mark("ForwardOpenRequest(parameters)");
	with<ForwardOpenRequest>(ConnectionParameters());
	eip_mark("LargeForwardOpenRequest(parameters)");
	with<LargeForwardOpenRequest>(ConnectionParameters());
	eip_mark("ForwardCloseRequest()");
	plain<ForwardCloseRequest>();
	eip_mark("ForwardOpenResponse()");
	plain<ForwardOpenResponse>();
}
void ctor_services() {
	eip_mark("BaseObject(class, instance)");
	with<BaseObject>(eip_u16("class"), eip_u16("instance"));
	eip_mark("MessageRouter()");
	plain<MessageRouter>();
	eip_mark("MessageRouter(narrow)");
	with<MessageRouter>(true);
	eip_mark("Yaskawa_MessageRouter()");
	plain<Yaskawa_MessageRouter>();
	eip_mark("ConnectionManager()");
	plain<ConnectionManager>();
	eip_mark("ConnectionManager(router)");
	ConnectionManager m(std::make_shared<FakeRouter>());
	eip_hook("inspect", m);
	eip_mark("IOConnection()");
	plain<IOConnection>();
	eip_mark("DiscoveryManager(address, port, timeout)");
	DiscoveryManager d("10.1.2.255", 44818, std::chrono::milliseconds(100));
	eip_hook("inspect", d);
	eip_mark("IdentityObject(instance)");
	with<IdentityObject>(CipUint(1));
	eip_mark("ParameterObject(instance, full, size)");
	ParameterObject p(eip_u16("id"), eip_bool("full"), 4);
	eip_hook("inspect", p);
	eip_mark("DPIFaultManager()");
	plain<DPIFaultManager>();
	eip_mark("DPIFaultManager(clear, reset, details)");
	with<DPIFaultManager>(true, false, true);
	eip_mark("DPIFaultCode(code)");
	with<DPIFaultCode>(eip_int("code"));
	eip_mark("DPIFaultParameter()");
	plain<DPIFaultParameter>();
}
void ctor_logger() {
	eip_mark("Logger(level)");
	Logger l(LogLevel::INFO);
	eip_hook("inspect", l);
}
void ctor_identity() {
	eip_mark("IdentityObject(instance, session, router)");
	IdentityObject o(1, std::make_shared<FakeSession>(), std::make_shared<FakeRouter>());
	eip_hook("inspect", o);
}
void ctor_parameter() {
	eip_mark("ParameterObject(instance, full, session, router)");
	ParameterObject o(eip_u16("id"), eip_choose(2) == 1, std::make_shared<FakeSession>(), std::make_shared<FakeRouter>());
	eip_hook("inspect", o);
}
void ctor_file() {
	eip_mark("FileObject(instance, session, router)");
	FileObject o(eip_u16("id"), std::make_shared<FakeSession>(), std::make_shared<FakeRouter>());
	eip_hook("inspect", o);
}
void ctor_file_states() {
	auto si = std::make_shared<FakeSession>();
	auto r = std::make_shared<FakeRouter>();
	FileObject o(eip_u16("id"), si, r);
	eip_mark("FileObjectNonExistentState(owner, id, router)");
	FileObjectNonExistentState n(o, 5, r);
	eip_hook("inspect", n);
	eip_mark("FileObjectEmptyState(owner, id, router)");
	FileObjectEmptyState e(o, 5, r);
	eip_hook("inspect", e);
	eip_mark("FileObjectLoadedState(owner, id, router)");
	FileObjectLoadedState l(o, 5, r);
	eip_hook("inspect", l);
	eip_mark("FileObjectUploadInProgressState(owner, id, router, size, transfer size, handler)");
	FileObjectUploadInProgressState u(o, 5, r, eip_u32("size"), eip_u8("transfer"), [](GeneralStatusCodes, const std::vector<uint8_t>&) {});
	eip_hook("inspect", u);
}
void ctor_fault() {
	eip_mark("DPIFaultParameter(session, router, number, details)");
	DPIFaultParameter o(std::make_shared<FakeSession>(), std::make_shared<FakeRouter>(), 1 + eip_choose(10), eip_choose(2) == 1);
	eip_hook("inspect", o);
}
void ctor_fault_object() {
	eip_mark("DPIFaultObject(instance, session, router)");
	DPIFaultObject o(eip_u16("id"), std::make_shared<FakeSession>(), std::make_shared<FakeRouter>());
	eip_hook("inspect", o);
}
void ctor_udp() {
	eip_mark("UDPSocket(host, port)");
	sockets::UDPSocket s("10.1.2.3", 2222);
	eip_hook("inspect", s);
	eip_mark("UDPSocket(end point)");
	sockets::UDPSocket t(sockets::EndPoint("10.1.2.3", 2222));
	eip_hook("inspect", t);
}
void ctor_bound() {
	eip_mark("UDPBoundSocket(host, port)");
	sockets::UDPBoundSocket s("10.1.2.3", 2222);
	eip_hook("inspect", s);
	eip_mark("UDPBoundSocket(end point)");
	sockets::UDPBoundSocket t(sockets::EndPoint("10.1.2.3", 2222));
	eip_hook("inspect", t);
}
void ctor_tcp() {
	eip_mark("TCPSocket(host, port)");
	sockets::TCPSocket s("10.1.2.3", 44818);
	eip_hook("inspect", s);
	eip_mark("TCPSocket(end point)");
	sockets::TCPSocket u(sockets::EndPoint("10.1.2.3", 44818));
	eip_hook("inspect", u);
	eip_mark("TCPSocket(end point, timeout)");
	sockets::TCPSocket t(sockets::EndPoint("10.1.2.3", 44818), std::chrono::milliseconds(1000));
	eip_hook("inspect", t);
}
void ctor_session() {
	eip_mark("SessionInfo(host, port, timeout)");
	SessionInfo s("10.1.2.3", 44818, std::chrono::milliseconds(1000));
	eip_hook("inspect", s);
	eip_mark("SessionInfo(host, port)");
	SessionInfo t("10.1.2.4", 44818);
	eip_hook("inspect", t);
}
}
