#include "probe.h"
#include <stdexcept>
#include "cip/connectionManager/ForwardOpenRequest.h"
#include "cip/connectionManager/LargeForwardOpenRequest.h"
#include "cip/connectionManager/ForwardCloseRequest.h"
#include "cip/connectionManager/ForwardOpenResponse.h"

// the requests and replies of the connection manager object on their own
namespace probe {
using namespace eipScanner::cip::connectionManager;

static ConnectionParameters params() {
	ConnectionParameters p;
	p.priorityTimeTick = eip_u8("tick");
	p.timeoutTicks = eip_u8("ticks");
	p.o2tNetworkConnectionId = eip_u32("o2tId");
	p.t2oNetworkConnectionId = eip_u32("t2oId");
	p.connectionSerialNumber = eip_u16("serial");
	p.originatorVendorId = eip_u16("vendor");
	p.originatorSerialNumber = eip_u32("oserial");
	p.connectionTimeoutMultiplier = eip_u8("mult");
	p.o2tRPI = eip_u32("o2tRPI");
	p.o2tNetworkConnectionParams = eip_u32("o2tP");
	p.t2oRPI = eip_u32("t2oRPI");
	p.t2oNetworkConnectionParams = eip_u32("t2oP");
	p.transportTypeTrigger = eip_u8("trig");
	p.connectionPathSize = eip_u8("words");
	p.connectionPath = eip_bytes("path", 510);
	return p;
}
void open_request() {
	eip_assume(eip_u32("o2tP") <= 0xFFFF && eip_u32("t2oP") <= 0xFFFF);
	ForwardOpenRequest r(params());
	eip_out("data", r.pack());
}
void large_open_request() {
	LargeForwardOpenRequest r(params());
	eip_out("data", r.pack());
}
void close_request() {
	ForwardCloseRequest r;
	r.setConnectionPath(eip_bytes("path", 700));
	r.setConnectionSerialNumber(eip_u16("serial"));
	r.setOriginatorVendorId(eip_u16("vendor"));
	r.setOriginatorSerialNumber(eip_u32("oserial"));
	try {
		eip_out("data", r.pack());
	} catch (const std::runtime_error&) {
		eip_mark("refused");
	}
}
void open_response() {
	ForwardOpenResponse r;
	try {
		r.expand(eip_bytes("reply", 600));
		eip_out("ok0", r.getO2TNetworkConnectionId());
		eip_out("ok1", r.getT2ONetworkConnectionId());
		eip_out("ok2", r.getConnectionSerialNumber());
		eip_out("ok3", r.getOriginatorVendorId());
		eip_out("ok4", r.getOriginatorSerialNumber());
		eip_out("ok5", r.getO2TApi());
		eip_out("ok6", r.getT2OApi());
		eip_out("ok7", r.getApplicationReplaySize());
		eip_out("ok8", r.getApplicationReplay());
	} catch (const std::runtime_error&) {
		eip_mark("refused");
	}
}
}
