#include "support.h"
#include "cip/MessageRouterResponse.h"
#include "cip/MessageRouterRequest.h"
#include "eip/CommonPacketItem.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouterRequest.h"

namespace probe {
using namespace eipScanner;
using namespace eipScanner::cip;
using eip::CommonPacketItem;
using eip::CommonPacketItemIds;

EPath rpath(int depth) {
	if (depth == 0) return EPath();
	if (depth == 1) return EPath(eip_u16("c"));
	if (depth == 2) return EPath(eip_u16("c"), eip_u16("o"));
	return EPath(eip_u16("c"), eip_u16("o"), eip_u16("a"));
}
Yaskawa_EPath rypath(int depth) {
	if (depth == 0) return Yaskawa_EPath();
	if (depth == 1) return Yaskawa_EPath(eip_u8("c"));
	if (depth == 2) return Yaskawa_EPath(eip_u8("c"), eip_u8("o"));
	return Yaskawa_EPath(eip_u8("c"), eip_u8("o"), eip_u8("a"));
}
void reply_out(const MessageRouterResponse& r) {
	eip_out("service", static_cast<uint8_t>(r.getServiceCode()));
	eip_out("status", static_cast<uint8_t>(r.getGeneralStatusCode()));
	eip_out("additional", r.getAdditionalStatus());
	eip_out("data", r.getData());
	eip_out("items", r.getAdditionalPacketItems().size());
	for (auto& i : r.getAdditionalPacketItems()) {
		eip_out("itemType", static_cast<uint16_t>(i.getTypeId()));
		eip_out("itemData", i.getData());
		eip_out("itemLength", i.getLength());
	}
}
template <class R, class P> void request(const R& router, const P& path) {
	auto si = std::make_shared<FakeSession>();
	int o = eip_choose(5);
	uint8_t service = eip_u8("service");
	auto data = eip_bytes("data", 40000);
	eip_out("overload", o);
	MessageRouterResponse r;
	if (o == 0) {
		r = router.sendRequest(si, service, path);
	} else if (o == 1) {
		r = router.sendRequest(si, service, path, data);
	} else {
		std::vector<CommonPacketItem> items;
		if (o > 2) items.push_back(CommonPacketItem(static_cast<CommonPacketItemIds>(eip_u16("t0")), eip_bytes("d0", 1000)));
		if (o > 3) items.push_back(CommonPacketItem(static_cast<CommonPacketItemIds>(eip_u16("t1")), eip_bytes("d1", 1000)));
		r = router.sendRequest(si, service, path, data, items);
	}
	eip_out("status", static_cast<uint8_t>(r.getGeneralStatusCode()));
}
void req_default() { int d = eip_choose(4); eip_out("depth", d); request(MessageRouter(), rpath(d)); }
void req_wide() { int d = eip_choose(4); eip_out("depth", d); request(MessageRouter(false), rpath(d)); }
void req_narrow() { int d = eip_choose(4); eip_out("depth", d); request(MessageRouter(MessageRouter::USE_8_BIT_PATH_SEGMENTS), rpath(d)); }
void req_yaskawa() { int d = eip_choose(4); eip_out("depth", d); request(Yaskawa_MessageRouter(), rypath(d)); }
// data that no frame can carry
template <class R, class P> void huge(const R& router, const P& path) {
	auto si = std::make_shared<FakeSession>();
	router.sendRequest(si, eip_u8("service"), path, eip_bytes("data", 200000));
}
void req_huge() { huge(MessageRouter(), rpath(2)); }
void req_huge_yaskawa() { huge(Yaskawa_MessageRouter(), rypath(2)); }
void req_twice() {
	auto si = std::make_shared<FakeSession>();
	MessageRouter m;
	m.sendRequest(si, eip_u8("service"), rpath(2), eip_bytes("data", 1000));
	m.sendRequest(si, eip_u8("service2"), rpath(1), eip_bytes("data2", 1000));
}
void mrr_pack() {
	bool narrow = eip_choose(2);
	eip_out("narrow", narrow);
	int d = eip_choose(4);
	eip_out("depth", d);
	eip_out("packed", MessageRouterRequest(eip_u8("service"), rpath(d), eip_bytes("data"), narrow).pack());
}
void mrr_pack_y() {
	int d = eip_choose(4);
	eip_out("depth", d);
	eip_out("packed", Yaskawa_MessageRouterRequest(eip_u8("service"), rypath(d), eip_bytes("data")).pack());
}
// ---- replies
template <class R, class P> void reply(const R& router, const P& path) {
	auto si = std::make_shared<FakeSession>();
	auto r = router.sendRequest(si, eip_u8("request"), path, eip_bytes("data", 1000));
	reply_out(r);
}
void rep_generic() { reply(MessageRouter(), rpath(1)); }
void rep_yaskawa() { reply(Yaskawa_MessageRouter(), rypath(1)); }
void rep_expand() {
	MessageRouterResponse r;
	r.expand(eip_bytes("msg"));
	reply_out(r);
}
void rep_expand_used() {
	MessageRouterResponse r;
	std::vector<uint8_t> old{0x8e, 0, 5, 1, 7, 7, 1, 2, 3};
	r.expand(old);
	r.expand(eip_bytes("msg"));
	reply_out(r);
}
void rep_setters() {
	MessageRouterResponse r;
	reply_out(r);
	r.setGeneralStatusCode(static_cast<GeneralStatusCodes>(eip_u8("st")));
	r.setData(eip_bytes("d"));
	reply_out(r);
}
}
