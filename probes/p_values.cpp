// value classes: end points, network connection parameters
#include "probe.h"
#include "sockets/EndPoint.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
#include "cip/connectionManager/NetworkConnectionParams.h"

namespace probe {
using namespace eipScanner;
using sockets::EndPoint;

void ep_fields(const EndPoint& e) {
	eip_out("host", e.getHost());
	eip_out("port", e.getPort());
	eip_out("family", e.getAddr().sin_family);
	eip_out("nport", e.getAddr().sin_port);
	eip_out("naddr", e.getAddr().sin_addr.s_addr);
	eip_out("text", e.toString());
}
EndPoint ep_make(const char* which) {
	return EndPoint(eip_string("h"), eip_u16("p"));
}
void ep_host() { EndPoint e(eip_string("h"), eip_u16("p")); ep_fields(e); }
void ep_literal() { EndPoint e("192.168.7.250", eip_u16("p")); ep_fields(e); EndPoint b("255.255.255.255", 44818); ep_fields(b); }
void ep_addr() {
	sockaddr_in a{};
	a.sin_family = eip_u16("family");
	a.sin_port = eip_u16("port");
	a.sin_addr.s_addr = eip_u32("addr");
	EndPoint e(a);
	ep_fields(e);
	EndPoint c(e);
	eip_out("copyEqual", c == e);
	ep_fields(c);
}
void ep_order() {
	std::string h = eip_string("h1"), k = eip_string("h2");
	eip_hook("order", h, k);
	EndPoint x(h, eip_u16("p1")), y(k, eip_u16("p2"));
	eip_out("lt", x < y);
	eip_out("gt", y < x);
	eip_out("eq", x == y);
	eip_out("ne", x != y);
	eip_out("self", x < x);
	eip_out("selfeq", x == x);
}
void ep_same_host() {
	std::string h = eip_string("h1");
	EndPoint x(h, eip_u16("p1")), y(h, eip_u16("p2"));
	eip_out("lt", x < y);
	eip_out("gt", y < x);
	eip_out("eq", x == y);
	eip_out("ne", x != y);
	eip_out("self", x < x);
	eip_out("selfeq", x == x);
}
void ep_addr_eq() {
	sockaddr_in a{}, b{};
	a.sin_family = b.sin_family = eip_u16("family");
	a.sin_port = eip_u16("p1");
	b.sin_port = eip_u16("p2");
	a.sin_addr.s_addr = eip_u32("a1");
	b.sin_addr.s_addr = eip_choose(2) ? eip_u32("a1") : eip_u32("a2");
	EndPoint x(a), y(b);
	eip_out("eq", x == y);
	eip_out("ne", x != y);
}

using P = cip::connectionManager::NetworkConnectionParametersBuilder;
void ncp_out(P& p) {
	eip_out("value", p.build());
	eip_out("owner", static_cast<int>(p.getRedundantOwner()));
	eip_out("ctype", static_cast<int>(p.getConnectionType()));
	eip_out("priority", static_cast<int>(p.getPriority()));
	eip_out("stype", static_cast<int>(p.getType()));
	eip_out("size", p.getConnectionSize());
}
void ncp_get() {
	bool l = eip_choose(2);
	eip_out("large", l);
	P p(eip_u32("raw"), l);
	ncp_out(p);
}
void ncp_default() {
	P a;
	ncp_out(a);
	P b(eip_u32("raw"));
	ncp_out(b);
}
void ncp_set() {
	bool l = eip_choose(2);
	eip_out("large", l);
	P p(eip_u32("raw"), l);
	int s = eip_choose(5);
	eip_out("setter", s);
	P* r = nullptr;
	if (s == 0) {
		int v = eip_choose(2);
		eip_out("arg", v);
		r = &p.setRedundantOwner(static_cast<P::RedundantOwner>(v));
	} else if (s == 1) {
		int v = eip_choose(4);
		eip_out("arg", v);
		r = &p.setConnectionType(static_cast<P::ConnectionType>(v));
	} else if (s == 2) {
		int v = eip_choose(4);
		eip_out("arg", v);
		r = &p.setPriority(static_cast<P::Priority>(v));
	} else if (s == 3) {
		int v = eip_choose(2);
		eip_out("arg", v);
		r = &p.setType(static_cast<P::Type>(v));
	} else {
		uint16_t v = eip_u16("size");
		eip_out("arg", v);
		r = &p.setConnectionSize(v);
	}
	eip_out("chained", r == &p);
	ncp_out(p);
}
void ncp_enums() {
	using E = P;
	eip_out("enum", static_cast<int>(E::EXCLUSIVE));
	eip_out("enum", static_cast<int>(E::REDUNDANT));
	eip_out("enum", static_cast<int>(E::NULL_TYPE));
	eip_out("enum", static_cast<int>(E::MULTICAST));
	eip_out("enum", static_cast<int>(E::P2P));
	eip_out("enum", static_cast<int>(E::RESERVED));
	eip_out("enum", static_cast<int>(E::LOW_PRIORITY));
	eip_out("enum", static_cast<int>(E::HIGH_PRIORITY));
	eip_out("enum", static_cast<int>(E::SCHEDULED));
	eip_out("enum", static_cast<int>(E::URGENT));
	eip_out("enum", static_cast<int>(E::FIXED));
	eip_out("enum", static_cast<int>(E::VARIABLE));
	namespace N = cip::connectionManager;
	eip_out("const", static_cast<int>(N::REDUNDANT));
	eip_out("const", static_cast<int>(N::OWNED));
	eip_out("const", static_cast<int>(N::MULTICAST));
	eip_out("const", static_cast<int>(N::P2P));
	eip_out("const", static_cast<int>(N::LOW_PRIORITY));
	eip_out("const", static_cast<int>(N::HIGH_PRIORITY));
	eip_out("const", static_cast<int>(N::SCHEDULED_PRIORITY));
	eip_out("const", static_cast<int>(N::URGENT));
	eip_out("const", static_cast<int>(N::FIXED));
	eip_out("const", static_cast<int>(N::VARIABLE));
	eip_out("const", static_cast<int>(N::CLASS0));
	eip_out("const", static_cast<int>(N::CLASS1));
	eip_out("const", static_cast<int>(N::CLASS2));
	eip_out("const", static_cast<int>(N::CLASS3));
	eip_out("const", static_cast<int>(N::TRIG_CYCLIC));
	eip_out("const", static_cast<int>(N::TRIG_CHANGE));
	eip_out("const", static_cast<int>(N::TRIG_APP));
	eip_out("const", static_cast<int>(N::TRANSP_SERVER));
}
}
