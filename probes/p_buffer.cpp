#include "probe.h"
#include "utils/Buffer.h"
#include "cip/CipString.h"
#include "cip/CipRevision.h"
#include "sockets/EndPoint.h"

namespace probe {
using namespace eipScanner;
using utils::Buffer;

template <class T> void enc(const T& v) {
	Buffer b(eip_bytes("pre"));
	b << v;
	eip_out("data", b.data());
	eip_out("size", b.size());
}
// decode from bytes at an arbitrary position of a message; `got` stays what the decoder stored
template <class T> void decAt(T& v) {
	Buffer b;
	auto pre = eip_bytes("pre");
	b << pre << eip_bytes("msg");
	std::vector<uint8_t> p(pre.size());
	b >> p;
	b >> v;
	eip_out("pos", b.pos());
	eip_out("valid", b.isValid());
	eip_out("empty", b.empty());
	eip_out("got", v);
}

void enc_u8() { enc(eip_u8("x")); }
void enc_i8() { enc(eip_i8("x")); }
void enc_u16() { enc(eip_u16("x")); }
void enc_i16() { enc(eip_i16("x")); }
void enc_u32() { enc(eip_u32("x")); }
void enc_i32() { enc(eip_i32("x")); }
void enc_u64() { enc(eip_u64("x")); }
void enc_i64() { enc(eip_i64("x")); }
void enc_f32() { enc(eip_f32("x")); }
void enc_f64() { enc(eip_f64("x")); }
void enc_bytes() { enc(eip_bytes("x")); }
void enc_words() { enc(eip_words_n("x", 5)); }
void enc_words_any() { enc(eip_words("x")); }
void enc_rev() { enc(cip::CipRevision(eip_u8("major"), eip_u8("minor"))); }
void enc_sstr() { enc(cip::CipShortString(eip_bytes("x", 255))); }
void enc_str() { enc(cip::CipString(eip_bytes("x", 65535))); }
void enc_sstr_s() { enc(cip::CipShortString(eip_string("x", 255))); }
void enc_str_s() { enc(cip::CipString(eip_string("x", 65535))); }
void enc_sstr_long() { enc(cip::CipShortString(eip_bytes("x"))); }
void enc_str_long() { enc(cip::CipString(eip_bytes("x"))); }
void enc_sstr_s_long() { enc(cip::CipShortString(eip_string("x"))); }
void enc_str_s_long() { enc(cip::CipString(eip_string("x"))); }
void enc_ep() {
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_port = eip_u16("port");
	a.sin_addr.s_addr = eip_u32("addr");
	enc(sockets::EndPoint(a));
}

void dec_u8() { uint8_t v; decAt(v); }
void dec_i8() { int8_t v; decAt(v); }
void dec_u16() { uint16_t v; decAt(v); }
void dec_i16() { int16_t v; decAt(v); }
void dec_u32() { uint32_t v; decAt(v); }
void dec_i32() { int32_t v; decAt(v); }
void dec_u64() { uint64_t v; decAt(v); }
void dec_i64() { int64_t v; decAt(v); }
void dec_f32() { float v; decAt(v); }
void dec_f64() { double v; decAt(v); }
void dec_bytes() { std::vector<uint8_t> v(eip_u32("n")); decAt(v); }
void dec_words() { std::vector<uint16_t> v(3); decAt(v); }
void dec_rev() {
	cip::CipRevision v;
	decAt(v);
	eip_out("major", v.getMajorRevision());
	eip_out("minor", v.getMinorRevision());
}
void dec_sstr() {
	cip::CipShortString v("old");
	decAt(v);
	eip_out("len", v.getLength());
	eip_out("chars", v.getData());
	eip_out("std", v.toStdString());
}
void dec_str() {
	cip::CipString v("old");
	decAt(v);
	eip_out("len", v.getLength());
	eip_out("chars", v.getData());
	eip_out("std", v.toStdString());
}
void dec_ep() {
	sockets::EndPoint v("", 0);
	decAt(v);
	eip_out("port", v.getPort());
	eip_out("host", v.getHost());
	eip_out("a_port", v.getAddr().sin_port);
	eip_out("a_addr", v.getAddr().sin_addr.s_addr);
	eip_out("a_family", v.getAddr().sin_family);
}
// several values behind one another
void seq_mixed() {
	Buffer b;
	b << eip_u8("a") << eip_i16("b") << eip_bytes("c") << eip_u32("d") << eip_u64("e") << eip_f32("f");
	eip_out("data", b.data());
	uint8_t a; int16_t bb; uint32_t d; uint64_t e; float f;
	std::vector<uint8_t> c(eip_bytes("c").size());
	b >> a >> bb >> c >> d >> e >> f;
	eip_out("a", a); eip_out("b", bb); eip_out("c", c); eip_out("d", d); eip_out("e", e); eip_out("f", f);
	eip_out("valid", b.isValid());
	eip_out("empty", b.empty());
	uint8_t z;
	b >> z;
	eip_out("valid2", b.isValid());
	eip_out("after", b.data());
}
void capacity() {
	Buffer b(eip_u16("cap"));
	eip_out("size0", b.size());
	b << eip_u16("x");
	eip_out("data", b.data());
}
}
