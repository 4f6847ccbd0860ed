#include "support.h"
#include "FileObject.h"
#include "fileObject/FileObjectState.h"

namespace probe {
using namespace eipScanner;

fileObject::EndUploadHandler recorder() {
	return [](cip::GeneralStatusCodes status, const std::vector<uint8_t>& content) {
		eip_mark("handler");
		eip_out("status", static_cast<uint8_t>(status));
		eip_out("content", content);
	};
}
void file_out(FileObject& f) {
	eip_out("state", static_cast<uint8_t>(f.getState()->getStateCode()));
	eip_out("class", f.getClassId());
	eip_out("instance", f.getInstanceId());
}
void file_sync() {
	auto si = std::make_shared<FakeSession>();
	FileObject f(eip_u16("id"), si, std::make_shared<FakeRouter>());
	file_out(f);
}
void file_resync() {
	auto si = std::make_shared<FakeSession>();
	FileObject f(eip_u16("id"), si, std::make_shared<FakeRouter>());
	file_out(f);
	f.getState()->SyncState(si);
	file_out(f);
}
void file_idle() {
	auto si = std::make_shared<FakeSession>();
	FileObject f(eip_u16("id"), si, std::make_shared<FakeRouter>());
	file_out(f);
	eip_mark("step first");
	eip_out("progress", f.handleTransfers(si));
	file_out(f);
	eip_mark("begin");
	f.beginUpload(si, recorder());
	eip_mark("begun");
	file_out(f);
	eip_mark("step");
	eip_out("progress", f.handleTransfers(si));
	file_out(f);
	eip_mark("end");
}
void file_again() {
	auto si = std::make_shared<FakeSession>();
	FileObject f(eip_u16("id"), si, std::make_shared<FakeRouter>());
	f.beginUpload(si, recorder());
	file_out(f);
	eip_mark("begin");
	f.beginUpload(si, recorder());
	eip_mark("begun");
	file_out(f);
}
template <int N> void upload() {
	auto si = std::make_shared<FakeSession>();
	FileObject f(eip_u16("id"), si, std::make_shared<FakeRouter>());
	f.beginUpload(si, recorder());
	for (int i = 0; i < N; i++) {
		eip_mark("step");
		bool more = false;
		try {
			more = f.handleTransfers(si);
			eip_out("progress", more);
		} catch (const std::runtime_error&) {
			eip_mark("threw");
			eip_out("progress", 2);
		}
	}
}
void file_upload3() { upload<3>(); }
void file_upload5() { upload<5>(); }
void file_upload7() { upload<7>(); }
void file_upload300() { upload<300>(); }
// a second upload after the first is over, on the same object
void file_twice() {
	auto si = std::make_shared<FakeSession>();
	FileObject f(eip_u16("id"), si, std::make_shared<FakeRouter>());
	f.beginUpload(si, recorder());
	eip_out("progress", f.handleTransfers(si));
	f.getState()->SyncState(si);
	file_out(f);
	f.beginUpload(si, recorder());
	eip_out("progress", f.handleTransfers(si));
	eip_out("progress", f.handleTransfers(si));
}

// an end-of-upload handler that calls back
struct Inside {
	FileObject* f;
	SessionInfoIf::SPtr si;
	std::shared_ptr<std::vector<int>> note;
	int depth;
	fileObject::EndUploadHandler handler(int d) {
		auto n = std::make_shared<std::vector<int>>(3, 7);
		return [this, n, d](cip::GeneralStatusCodes status, const std::vector<uint8_t>& content) {
			eip_mark("handler");
			eip_out("status", static_cast<uint8_t>(status));
			if (d < 2)
				act(d);
			eip_out("size", content.size());
			eip_out("note", (*n)[1]);
		};
	}
	void act(int d) {
		try {
			switch (eip_choose(5)) {
				case 0:
					f->getState()->SyncState(si);
					break;
				case 1:
					f->getState()->SyncState(si);
					f->beginUpload(si, handler(d + 1));
					break;
				case 2:
					f->getState()->SyncState(si);
					f->beginUpload(si, handler(d + 1));
					f->handleTransfers(si);
					break;
				case 3:
					eip_out("inner", f->handleTransfers(si));
					break;
				case 4:
					f->beginUpload(si, handler(d + 1));
					break;
			}
		} catch (const std::runtime_error&) {
			eip_mark("inner threw");
		}
	}
};
void file_inside() {
	auto si = std::make_shared<FakeSession>();
	FileObject f(7, si, std::make_shared<FakeRouter>());
	Inside in{&f, si, nullptr, 0};
	try {
		f.beginUpload(si, in.handler(0));
		eip_mark("begun");
		eip_out("progress", f.handleTransfers(si));
		eip_mark("stepped");
		eip_out("progress", f.handleTransfers(si));
	} catch (const std::runtime_error&) {
		eip_mark("threw");
	}
	eip_out("state", static_cast<uint8_t>(f.getState()->getStateCode()));
}
}
