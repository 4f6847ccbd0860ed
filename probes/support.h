// Stand-ins for the library's own interfaces, driven by the check.
#pragma once
#include "probe.h"
#include "SessionInfoIf.h"
#include "MessageRouter.h"

namespace probe {
using namespace eipScanner;

// a session that hands each frame to the check and returns the data the check supplies
struct FakeSession : SessionInfoIf {
	std::string host;
	int port;
	FakeSession(const std::string& h = "10.1.2.3", int p = 44818) : host(h), port(p) {}
	eip::EncapsPacket sendAndReceive(const eip::EncapsPacket& packet) const override {
		std::vector<uint8_t> reply;
		eip_out("frame", packet.pack());
		eip_hook("exchange", reply);
		eip::EncapsPacket r;
		r.setCommand(packet.getCommand());
		r.setSessionHandle(packet.getSessionHandle());
		r.setData(reply);
		return r;
	}
	cip::CipUdint getSessionHandle() const override { return eip_u32("session"); }
	sockets::EndPoint getRemoteEndPoint() const override { return sockets::EndPoint(host, port); }
};

// a message router that hands each request to the check, which supplies status, data and socket-address items
struct FakeRouter : MessageRouter {
	cip::MessageRouterResponse sendRequest(SessionInfoIf::SPtr si, cip::CipUsint service, const cip::EPath& path,
			const std::vector<uint8_t>& data, const std::vector<eip::CommonPacketItem>& items) const override {
		for (auto& i : items)
			eip_hook("item", static_cast<uint16_t>(i.getTypeId()), i.getData());
		uint8_t status = 0;
		std::vector<uint8_t> reply;
		int nitems = 0;
		uint16_t t0 = 0, t1 = 0;
		std::vector<uint8_t> d0, d1;
		bool session = si != nullptr;
		auto p = path.packPaddedPath();
		eip_hook("request", session, service, p, data, status, reply, nitems, t0, d0, t1, d1);
		cip::MessageRouterResponse r;
		r.setGeneralStatusCode(static_cast<cip::GeneralStatusCodes>(status));
		r.setData(reply);
		std::vector<eip::CommonPacketItem> extra;
		if (nitems > 0) extra.push_back(eip::CommonPacketItem(static_cast<eip::CommonPacketItemIds>(t0), d0));
		if (nitems > 1) extra.push_back(eip::CommonPacketItem(static_cast<eip::CommonPacketItemIds>(t1), d1));
		r.setAdditionalPacketItems(extra);
		return r;
	}
	cip::MessageRouterResponse sendRequest(SessionInfoIf::SPtr si, cip::CipUsint service, const cip::EPath& path,
			const std::vector<uint8_t>& data) const override {
		return this->sendRequest(si, service, path, data, std::vector<eip::CommonPacketItem>());
	}
	cip::MessageRouterResponse sendRequest(SessionInfoIf::SPtr si, cip::CipUsint service, const cip::EPath& path) const override {
		return this->sendRequest(si, service, path, std::vector<uint8_t>(), std::vector<eip::CommonPacketItem>());
	}
};
}
