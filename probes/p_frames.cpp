#include "probe.h"
#include "utils/Buffer.h"
#include "eip/EncapsPacket.h"
#include "eip/EncapsPacketFactory.h"
#include "eip/CommonPacket.h"
#include "eip/CommonPacketItem.h"
#include "eip/CommonPacketItemFactory.h"

namespace probe {
using namespace eipScanner;
using namespace eipScanner::eip;

void frame_out(const EncapsPacket& p) {
	eip_out("command", static_cast<uint16_t>(p.getCommand()));
	eip_out("length", p.getLength());
	eip_out("handle", p.getSessionHandle());
	eip_out("status", static_cast<uint32_t>(p.getStatusCode()));
	eip_out("body", p.getData());
	eip_out("packed", p.pack());
}
void frame_fields(EncapsPacket& p) {
	p.setCommand(static_cast<EncapsCommands>(eip_u16("command")));
	p.setSessionHandle(eip_u32("handle"));
	p.setStatusCode(static_cast<EncapsStatusCodes>(eip_u32("status")));
}
void frame_encode() {
	EncapsPacket p;
	frame_fields(p);
	p.setData(eip_bytes("data", 65535));
	frame_out(p);
}
// a second setData replaces the first
void frame_reset() {
	EncapsPacket p;
	p.setData(eip_bytes("old", 65535));
	frame_fields(p);
	p.setData(eip_bytes("data", 65535));
	frame_out(p);
}
void frame_long() {
	EncapsPacket p;
	p.setData(eip_bytes("data"));
	eip_out("packed", p.pack());
}
void frame_empty() {
	EncapsPacket p;
	frame_out(p);
}
// any byte sequence offered as a frame, to a fresh packet and to one in use
void frame_decode() {
	EncapsPacket p;
	p.expand(eip_bytes("msg"));
	frame_out(p);
}
void frame_redecode() {
	EncapsPacket p;
	frame_fields(p);
	p.setData(eip_bytes("old", 65535));
	p.expand(eip_bytes("msg"));
	frame_out(p);
}
void frame_length() {
	eip_out("length", EncapsPacket::getLengthFromHeader(eip_bytes("msg")));
}
void frame_equal() {
	EncapsPacket p, q;
	frame_fields(p);
	p.setData(eip_bytes("data", 65535));
	q = p;
	eip_out("same", p == q);
	eip_out("differ", p != q);
	if (eip_choose(4) == 0) q.setCommand(static_cast<EncapsCommands>(eip_u16("command2")));
	else if (eip_choose(3) == 0) q.setSessionHandle(eip_u32("handle2"));
	else if (eip_choose(2) == 0) q.setStatusCode(static_cast<EncapsStatusCodes>(eip_u32("status2")));
	else q.setData(eip_bytes_n("data2", 3));
	eip_out("same2", p == q);
	eip_out("differ2", p != q);
}
// two decoded frames of which one part differs
std::vector<uint8_t> frame_of(int part) {
	eipScanner::utils::Buffer b;
	b << (part == 0 ? eip_u16("command2") : eip_u16("command")) << static_cast<uint16_t>(3)
	  << (part == 1 ? eip_u32("handle2") : eip_u32("handle")) << (part == 2 ? eip_u32("status2") : eip_u32("status"))
	  << (part == 3 ? eip_u64("context2") : eip_u64("context")) << (part == 4 ? eip_u32("options2") : eip_u32("options"))
	  << eip_u8("x") << (part == 5 ? eip_u8("y2") : eip_u8("y")) << eip_u8("z");
	return b.data();
}
void frame_compare() {
	int part = eip_choose(7);
	EncapsPacket p, q;
	p.expand(frame_of(-1));
	q.expand(frame_of(part));
	eip_out("part", part);
	eip_out("eq", p == q);
	eip_out("ne", p != q);
	eip_out("qe", q == p);
}
void fac_register() { frame_out(EncapsPacketFactory().createRegisterSessionPacket()); }
void fac_unregister() { frame_out(EncapsPacketFactory().createUnRegisterSessionPacket(eip_u32("handle"))); }
void fac_rrdata() { frame_out(EncapsPacketFactory().createSendRRDataPacket(eip_u32("handle"), eip_u16("timeout"), eip_bytes("data", 65529))); }
void fac_rrdata_long() { frame_out(EncapsPacketFactory().createSendRRDataPacket(eip_u32("handle"), eip_u16("timeout"), eip_bytes("data"))); }
void fac_identity() { frame_out(EncapsPacketFactory().createListIdentityPacket()); }

// ---- common packets
void items_out(CommonPacket& c) {
	eip_out("count", c.getItems().size());
	for (auto& i : c.getItems()) {
		eip_out("type", static_cast<uint16_t>(i.getTypeId()));
		eip_out("length", i.getLength());
		eip_out("data", i.getData());
	}
}
void cp_pack() {
	CommonPacket c;
	int n = eip_choose(4);
	if (n > 0) c << CommonPacketItem(static_cast<CommonPacketItemIds>(eip_u16("t0")), eip_bytes("d0", 65535));
	if (n > 1) c << CommonPacketItem(static_cast<CommonPacketItemIds>(eip_u16("t1")), eip_bytes("d1", 65535));
	if (n > 2) c << CommonPacketItem(static_cast<CommonPacketItemIds>(eip_u16("t2")), eip_bytes("d2", 65535));
	eip_out("n", n);
	eip_out("packed", c.pack());
	eip_out("packed", c.pack());
	items_out(c);
}
void cp_default() {
	CommonPacketItem i;
	eip_out("type", static_cast<uint16_t>(i.getTypeId()));
	eip_out("length", i.getLength());
	eip_out("data", i.getData());
	eip_out("packed", i.pack());
}
void item_long() {
	CommonPacketItem i(CommonPacketItemIds::UNCONNECTED_MESSAGE, eip_bytes("data"));
	eip_out("packed", i.pack());
}
void item_equal() {
	CommonPacketItem a(static_cast<CommonPacketItemIds>(eip_u16("t0")), eip_bytes_n("d0", 3));
	CommonPacketItem b(static_cast<CommonPacketItemIds>(eip_u16("t0")), eip_bytes_n("d0", 3));
	CommonPacketItem c(static_cast<CommonPacketItemIds>(eip_u16("t1")), eip_bytes_n("d0", 3));
	CommonPacketItem d(static_cast<CommonPacketItemIds>(eip_u16("t0")), eip_bytes_n("d0", 2));
	CommonPacketItem e(static_cast<CommonPacketItemIds>(eip_u16("t0")), {eip_u8("x"), eip_u8("y"), eip_u8("z")});
	CommonPacketItem g(static_cast<CommonPacketItemIds>(eip_u16("t0")), {eip_u8("x"), eip_u8("y2"), eip_u8("z")});
	eip_out("data", e == g);
	eip_out("ndata", e != g);
	eip_out("same", a == b);
	eip_out("type", a == c);
	eip_out("size", a == d);
	eip_out("nsame", a != b);
	eip_out("ntype", a != c);
}
void fac_items() {
	CommonPacketItemFactory f;
	eip_out("null", f.createNullAddressItem().pack());
	eip_out("unconnected", f.createUnconnectedDataItem(eip_bytes("u", 65535)).pack());
	eip_out("connected", f.createConnectedDataItem(eip_bytes("c", 65535)).pack());
	eip_out("sequence", f.createSequenceAddressItem(eip_u32("id"), eip_u32("seq")).pack());
}
// a packet announcing n items followed by arbitrary bytes, decoded into a packet that may hold other items
void cp_expand() {
	CommonPacket c;
	if (eip_choose(2)) {
		c << CommonPacketItem(static_cast<CommonPacketItemIds>(eip_u16("t0")), eip_bytes("d0", 65535));
		c << CommonPacketItem();
	}
	int n = eip_choose(5);
	std::vector<uint8_t> m{static_cast<uint8_t>(n), 0};
	auto rest = eip_bytes("msg");
	m.insert(m.end(), rest.begin(), rest.end());
	eip_out("n", n);
	c.expand(m);
	items_out(c);
}
// announcing an arbitrary number of items in an arbitrary message
void cp_expand_any() {
	CommonPacket c;
	c.expand(eip_bytes("msg"));
	eip_out("count", c.getItems().size());
}
}
