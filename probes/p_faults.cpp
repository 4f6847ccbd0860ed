#include "support.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include "vendor/ra/powerFlex525/DPIFaultCode.h"

namespace probe {
using namespace eipScanner;
using namespace eipScanner::vendor::ra::powerFlex525;

void fault_out(const DPIFaultParameter& f) {
	eip_mark("fault");
	auto& i = f.getFullInformation();
	eip_out("number", i.faultDetails.faultNumber);
	eip_out("code", i.faultDetails.faultCode);
	eip_out("volts", i.faultDetails.busVoltage);
	eip_out("current", i.faultDetails.current);
	eip_out("frequency", i.faultDetails.frequency);
	eip_out("ftype", i.faultDescription.faultType);
	eip_out("text", i.faultDescription.faultText);
	eip_out("description", i.faultDescription.faultDescription);
	eip_out("number2", f.getFaultDetails().faultNumber);
	eip_out("code2", f.getFaultDetails().faultCode);
}
void run_faults(bool clear, bool reset, bool details) {
	auto si = std::make_shared<FakeSession>();
	DPIFaultManager m(clear, reset, details);
	m.setNewFaultListener([](const DPIFaultParameter& f) { fault_out(f); });
	m.setTrippedDeviceListener([](bool) { eip_mark("tripped"); });
	m.handleFaultParameters(si, std::make_shared<FakeRouter>());
	eip_mark("handled");
}
void faults_plain() { run_faults(false, false, false); }
void faults_clear() { run_faults(true, false, false); }
void faults_reset() { run_faults(false, true, false); }
void faults_details() { run_faults(false, false, true); }
void faults_all() { run_faults(true, true, true); }
void faults_default() {
	auto si = std::make_shared<FakeSession>();
	DPIFaultManager m;
	m.setNewFaultListener([](const DPIFaultParameter& f) { fault_out(f); });
	m.handleFaultParameters(si, std::make_shared<FakeRouter>());
	eip_mark("handled");
}
void faults_no_listener() {
	auto si = std::make_shared<FakeSession>();
	DPIFaultManager m;
	m.handleFaultParameters(si, std::make_shared<FakeRouter>());
	eip_mark("handled");
}
void faults_twice() {
	auto si = std::make_shared<FakeSession>();
	DPIFaultManager m(true, false, false);
	m.setNewFaultListener([](const DPIFaultParameter& f) { fault_out(f); });
	auto r = std::make_shared<FakeRouter>();
	m.handleFaultParameters(si, r);
	eip_mark("handled");
	m.handleFaultParameters(si, r);
	eip_mark("handled");
}
void fault_command() {
	auto si = std::make_shared<FakeSession>();
	DPIFaultManager m;
	m.writeCommand(static_cast<DPIFaultManagerCommands>(eip_u8("cmd")), si, std::make_shared<FakeRouter>());
	eip_mark("sent");
}
void fault_text() {
	int code = eip_choose(256);
	eip_out("code", code);
	bool known = true;
	try {
		auto d = DPIFaultCode(code).getFaultDescription();
		eip_out("ftype", d.faultType);
		eip_out("text", d.faultText);
		eip_out("description", d.faultDescription);
	} catch (const std::runtime_error&) {
		known = false;
	}
	eip_out("known", known);
}
void fault_object() {
	auto si = std::make_shared<FakeSession>();
	DPIFaultObject o(eip_u16("id"), si, std::make_shared<FakeRouter>());
	auto& i = o.getFullInformation();
	eip_out("class", o.getClassId());
	eip_out("instance", o.getInstanceId());
	eip_out("code", i.faultCode);
	eip_out("port", i.dsiPort);
	eip_out("object", i.dsiDeviceObject);
	eip_out("text", i.faultText.toStdString());
	eip_out("timer", i.timerValue);
	eip_out("valid", i.isValidData);
	eip_out("real", i.isRealTime);
}

// a new-fault listener that calls back
void faults_inside() {
	auto si = std::make_shared<FakeSession>();
	auto r = std::make_shared<FakeRouter>();
	DPIFaultManager m(true, false, false);
	auto depth = std::make_shared<int>(0);
	auto note = std::make_shared<std::vector<int>>(3, 7);
	m.setNewFaultListener([&m, si, r, depth, note](const DPIFaultParameter& f) {
		eip_mark("listener");
		if (++*depth < 3) {
			try {
				switch (eip_choose(4)) {
					case 0:
						m.setNewFaultListener([](const DPIFaultParameter& f) { eip_mark("other"); });
						break;
					case 1:
						m.handleFaultParameters(si, r);
						break;
					case 2:
						m.writeCommand(static_cast<DPIFaultManagerCommands>(1), si, r);
						break;
					case 3:
						m.setNewFaultListener([depth, note](const DPIFaultParameter& f) { eip_out("code", f.getFaultDetails().faultCode); });
						m.handleFaultParameters(si, r);
						break;
				}
			} catch (const std::runtime_error&) {
				eip_mark("inner threw");
			}
		}
		eip_out("note", (*note)[1]);
		eip_out("code", f.getFaultDetails().faultCode);
	});
	note.reset();
	try {
		m.handleFaultParameters(si, r);
		eip_mark("handled");
	} catch (const std::runtime_error&) {
		eip_mark("threw");
	}
}
}
