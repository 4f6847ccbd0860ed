#include "support.h"
#include "FileObject.h"
#include "ParameterObject.h"
#include "fileObject/FileObjectState.h"
#include "utils/Buffer.h"
#include "cip/CipString.h"
#include "cip/CipRevision.h"
#include "sockets/EndPoint.h"

// operations whose state after a refused reply is looked at
namespace probe {
using namespace eipScanner;

void rp_state(FileObject& f) {
	eip_out("state", static_cast<uint8_t>(f.getState()->getStateCode()));
}
fileObject::EndUploadHandler rp_recorder() {
	return [](cip::GeneralStatusCodes status, const std::vector<uint8_t>& content) {
		eip_mark("handler");
		eip_out("status", static_cast<uint8_t>(status));
		eip_out("content", content);
	};
}
template <class F> void rp_guarded(F f) {
	try {
		f();
		eip_mark("accepted");
	} catch (const std::runtime_error&) {
		eip_mark("refused");
	}
}
void rp_resync() {
	auto si = std::make_shared<FakeSession>();
	FileObject f(eip_u16("id"), si, std::make_shared<FakeRouter>());
	rp_state(f);
	rp_guarded([&] { f.getState()->SyncState(si); });
	rp_state(f);
}
void rp_begin() {
	auto si = std::make_shared<FakeSession>();
	FileObject f(eip_u16("id"), si, std::make_shared<FakeRouter>());
	rp_state(f);
	rp_guarded([&] { f.beginUpload(si, rp_recorder()); });
	rp_state(f);
	rp_guarded([&] { eip_out("progress", f.handleTransfers(si)); });
}
void rp_upload() {
	auto si = std::make_shared<FakeSession>();
	FileObject f(eip_u16("id"), si, std::make_shared<FakeRouter>());
	f.beginUpload(si, rp_recorder());
	eip_mark("begun");
	for (int i = 0; i < 4; i++) {
		eip_mark("step");
		rp_guarded([&] { eip_out("progress", f.handleTransfers(si)); });
	}
}

// two reads of any kind behind one another from a buffer of any length, then what the buffer says about them
void rp_read(utils::Buffer& b, int kind) {
	switch (kind) {
		case 0: { uint8_t v; b >> v; break; }
		case 1: { uint16_t v; b >> v; break; }
		case 2: { uint32_t v; b >> v; break; }
		case 3: { uint64_t v; b >> v; break; }
		case 4: { std::vector<uint8_t> v(5); b >> v; break; }
		case 5: { std::vector<uint16_t> v(2); b >> v; break; }
		case 6: { cip::CipShortString v; b >> v; break; }
		case 7: { cip::CipRevision v; b >> v; break; }
		case 8: { sockets::EndPoint v("", 0); b >> v; break; }
		case 9: { cip::CipString v; b >> v; break; }
		case 10: { std::vector<uint8_t> v(0); b >> v; break; }
		case 11: { double v; b >> v; break; }
	}
}
template <int K> void reads() {
	utils::Buffer b(eip_bytes("msg"));
	rp_read(b, K);
	eip_out("valid1", b.isValid());
	eip_out("pos1", b.pos());
	int second = eip_choose(12);
	eip_out("second", second);
	rp_read(b, second);
	eip_out("valid2", b.isValid());
	uint8_t last;
	b >> last;
	eip_out("valid3", b.isValid());
	eip_out("last", last);
}
void rp_reads0() { reads<0>(); }
void rp_reads1() { reads<1>(); }
void rp_reads2() { reads<2>(); }
void rp_reads3() { reads<3>(); }
void rp_reads4() { reads<4>(); }
void rp_reads5() { reads<5>(); }
void rp_reads6() { reads<6>(); }
void rp_reads7() { reads<7>(); }
void rp_reads8() { reads<8>(); }
void rp_reads9() { reads<9>(); }
void rp_reads10() { reads<10>(); }
void rp_reads11() { reads<11>(); }
}
