#include "support.h"
#include "IdentityObject.h"
#include "DiscoveryManager.h"

namespace probe {
using namespace eipScanner;
using namespace eipScanner::cip;

void id_out(const IdentityObject& o) {
	eip_out("vendor", o.getVendorId());
	eip_out("device", o.getDeviceType());
	eip_out("product", o.getProductCode());
	eip_out("major", o.getRevision().getMajorRevision());
	eip_out("minor", o.getRevision().getMinorRevision());
	eip_out("status", o.getStatus());
	eip_out("serial", o.getSerialNumber());
	eip_out("name", o.getProductName());
}
void id_read() {
	auto si = std::make_shared<FakeSession>();
	IdentityObject o(eip_u16("id"), si, std::make_shared<FakeRouter>());
	id_out(o);
	eip_out("instance", o.getInstanceId());
	eip_out("class", o.getClassId());
}
void id_local() {
	IdentityObject o(eip_u16("id"));
	id_out(o);
	o.setVendorId(eip_u16("vendor"));
	o.setDeviceType(eip_u16("device"));
	o.setProductCode(eip_u16("product"));
	o.setRevision(CipRevision(eip_u8("major"), eip_u8("minor")));
	o.setStatus(eip_u16("status"));
	o.setSerialNumber(eip_u32("serial"));
	o.setProductName(eip_string("name", 255));
	id_out(o);
	IdentityObject copy(o);
	id_out(copy);
}
void discover_with(long ms) {
	DiscoveryManager m("192.168.1.255", 44818, std::chrono::milliseconds(ms));
	auto devices = m.discover();
	eip_mark("done");
	eip_out("n", devices.size());
	for (auto& d : devices) {
		id_out(d.identityObject);
		eip_out("host", d.socketAddress.getHost());
		eip_out("port", d.socketAddress.getPort());
		eip_out("text", d.socketAddress.toString());
	}
}
void disc() { discover_with(1500); }
void disc_short() { discover_with(eip_choose(2) ? 250 : 3000); }
void disc_twice() {
	DiscoveryManager m("10.255.255.255", 2222, std::chrono::milliseconds(7));
	for (int i = 0; i < 2; ++i) {
		auto devices = m.discover();
		eip_out("n", devices.size());
		for (auto& d : devices)
			id_out(d.identityObject);
	}
}
}
