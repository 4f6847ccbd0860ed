#include "probe.h"
#include "cip/EPath.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"

namespace probe {
using namespace eipScanner;
using cip::EPath;
using cip::Yaskawa_EPath;

template <class P> void ids_out(const P& p) {
	eip_out("class", p.getClassId());
	eip_out("object", p.getObjectId());
	eip_out("attribute", p.getAttributeId());
}
EPath mk(int depth) {
	if (depth == 0) return EPath();
	if (depth == 1) return EPath(eip_u16("c"));
	if (depth == 2) return EPath(eip_u16("c"), eip_u16("o"));
	return EPath(eip_u16("c"), eip_u16("o"), eip_u16("a"));
}
Yaskawa_EPath mky(int depth) {
	if (depth == 0) return Yaskawa_EPath();
	if (depth == 1) return Yaskawa_EPath(eip_u8("c"));
	if (depth == 2) return Yaskawa_EPath(eip_u8("c"), eip_u8("o"));
	return Yaskawa_EPath(eip_u8("c"), eip_u8("o"), eip_u8("a"));
}
void path_fields() {
	int d = eip_choose(4);
	eip_out("depth", d);
	EPath p = mk(d);
	ids_out(p);
	eip_out("size16", p.getSizeInWords());
	eip_out("size16", p.getSizeInWords(false));
	eip_out("size8", p.getSizeInWords(true));
}
void path_pack16() {
	int d = eip_choose(4);
	eip_out("depth", d);
	auto b = mk(d).packPaddedPath();
	eip_out("packed", b);
	EPath q = mk(eip_choose(2) * 3);
	q.expandPaddedPath(b);
	ids_out(q);
	eip_out("same", q == mk(d));
	eip_out("again", q.packPaddedPath(false));
}
void path_pack8() {
	int d = eip_choose(4);
	eip_out("depth", d);
	auto b = mk(d).packPaddedPath(true);
	eip_out("packed", b);
	EPath q = mk(eip_choose(2) * 3);
	q.expandPaddedPath(b);
	ids_out(q);
	eip_out("same", q == mk(d));
	eip_out("again", q.packPaddedPath(true));
}
void ypath_fields() {
	int d = eip_choose(4);
	eip_out("depth", d);
	Yaskawa_EPath p = mky(d);
	ids_out(p);
	eip_out("size8", p.getSizeInWords());
}
void ypath_pack() {
	int d = eip_choose(4);
	eip_out("depth", d);
	auto b = mky(d).packPaddedPath();
	eip_out("packed", b);
	Yaskawa_EPath q = mky(eip_choose(2) * 3);
	q.expandPaddedPath(b);
	ids_out(q);
	eip_out("same", q == mky(d));
	eip_out("again", q.packPaddedPath());
}
void seg(std::vector<uint8_t>& m, int wide, uint8_t type, uint8_t narrowId, uint16_t wideId, uint8_t pad) {
	if (wide) {
		m.push_back(type + 1);
		m.push_back(pad);
		m.push_back(wideId & 0xff);
		m.push_back(wideId >> 8);
	} else {
		m.push_back(type);
		m.push_back(narrowId);
	}
}
// every mixture of segment formats
std::vector<uint8_t> segments(int depth) {
	std::vector<uint8_t> m;
	eip_out("depth", depth);
	if (depth > 0) { int w = eip_choose(2); eip_out("wide", w); seg(m, w, 0x20, eip_u8("c"), eip_u16("C"), eip_u8("p0")); }
	if (depth > 1) { int w = eip_choose(2); eip_out("wide", w); seg(m, w, 0x24, eip_u8("o"), eip_u16("O"), eip_u8("p1")); }
	if (depth > 2) { int w = eip_choose(2); eip_out("wide", w); seg(m, w, 0x30, eip_u8("a"), eip_u16("A"), eip_u8("p2")); }
	return m;
}
template <class P> void expand(P q, P r) {
	auto m = segments(eip_choose(4));
	if (eip_choose(2)) q = r;
	q.expandPaddedPath(m);
	ids_out(q);
	eip_out("packed", q.packPaddedPath());
}
void path_expand() { expand(mk(0), mk(3)); }
void ypath_expand() { expand(mky(0), mky(3)); }
template <class P> void truncated(P q) {
	auto m = segments(eip_choose(3));
	uint8_t t = 0x20;
	int k = eip_choose(3);
	if (k == 1) t = 0x24;
	if (k == 2) t = 0x30;
	int w = eip_choose(2);
	seg(m, w, t, 1, 2, 0);
	int cut = 1 + eip_choose(w ? 3 : 1);
	m.resize(m.size() - cut);
	q.expandPaddedPath(m);
	ids_out(q);
}
void path_truncated() { truncated(mk(3)); }
void ypath_truncated() { truncated(mky(3)); }
template <class P> void unknown(P q) {
	auto m = segments(eip_choose(4));
	uint8_t t = eip_u8("t");
	eip_assume(t != 0x20 && t != 0x21 && t != 0x24 && t != 0x25 && t != 0x30 && t != 0x31);
	m.push_back(t);
	auto rest = eip_bytes_n("tail", eip_choose(4));
	m.insert(m.end(), rest.begin(), rest.end());
	q.expandPaddedPath(m);
	ids_out(q);
}
void path_unknown() { unknown(mk(0)); }
void ypath_unknown() { unknown(mky(0)); }
// an instance without class, an attribute without instance
template <class P> void incomplete(P q) {
	std::vector<uint8_t> m;
	int k = eip_choose(4), w = eip_choose(2);
	eip_out("case", k);
	if (k == 0) seg(m, w, 0x24, eip_u8("o"), eip_u16("O"), 0);
	if (k == 1) seg(m, w, 0x30, eip_u8("a"), eip_u16("A"), 0);
	if (k == 2) { seg(m, w, 0x20, eip_u8("c"), eip_u16("C"), 0); seg(m, w, 0x30, eip_u8("a"), eip_u16("A"), 0); }
	if (k == 3) { seg(m, w, 0x24, eip_u8("o"), eip_u16("O"), 0); seg(m, w, 0x30, eip_u8("a"), eip_u16("A"), 0); }
	q.expandPaddedPath(m);
	ids_out(q);
}
void path_incomplete() { incomplete(mk(0)); }
void ypath_incomplete() { incomplete(mky(0)); }
// an incomplete path offered to a path object that held a complete one
void path_incomplete_used() { incomplete(mk(3)); }
void ypath_incomplete_used() { incomplete(mky(3)); }
template <class P> void anyBytes(P q) {
	q.expandPaddedPath(eip_bytes_n("msg", eip_choose(6)));
	ids_out(q);
}
void path_any() { anyBytes(mk(3)); }
void ypath_any() { anyBytes(mky(3)); }
void path_equal() {
	int d = eip_choose(4), e = eip_choose(4);
	eip_out("d", d);
	eip_out("e", e);
	EPath p = mk(d);
	EPath q;
	if (e == 1) q = EPath(eip_u16("c2"));
	if (e == 2) q = EPath(eip_u16("c2"), eip_u16("o2"));
	if (e == 3) q = EPath(eip_u16("c2"), eip_u16("o2"), eip_u16("a2"));
	eip_out("same", p == q);
}
void ypath_equal() {
	int d = eip_choose(4), e = eip_choose(4);
	eip_out("d", d);
	eip_out("e", e);
	Yaskawa_EPath p = mky(d);
	Yaskawa_EPath q;
	if (e == 1) q = Yaskawa_EPath(eip_u8("c2"));
	if (e == 2) q = Yaskawa_EPath(eip_u8("c2"), eip_u8("o2"));
	if (e == 3) q = Yaskawa_EPath(eip_u8("c2"), eip_u8("o2"), eip_u8("a2"));
	eip_out("same", p == q);
}
}
