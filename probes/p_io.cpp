#include "support.h"
#include "ConnectionManager.h"

// I/O connections driven by a script of the check: "next" gives the next operation, the listeners report to the check
// and run the operations the check wants to run inside them.
namespace probe {
using namespace eipScanner;
using cip::connectionManager::ConnectionParameters;

struct Io {
	std::unique_ptr<ConnectionManager> managers[2];
	SessionInfoIf::SPtr si;
	IOConnection::WPtr conns[8];

	Io() : si(std::make_shared<FakeSession>()) {
		auto router = std::make_shared<FakeRouter>();
		managers[0].reset(new ConnectionManager(router));
		managers[1].reset(new ConnectionManager(router));
	}
	ConnectionParameters params(int i) {
		ConnectionParameters p;
		eip_hook("params", i, p.priorityTimeTick, p.timeoutTicks, p.o2tNetworkConnectionId, p.t2oNetworkConnectionId, p.connectionSerialNumber,
			p.originatorVendorId, p.originatorSerialNumber, p.connectionTimeoutMultiplier, p.o2tRPI, p.o2tNetworkConnectionParams, p.t2oRPI,
			p.t2oNetworkConnectionParams, p.transportTypeTrigger, p.connectionPathSize, p.o2tRealTimeFormat, p.t2oRealTimeFormat, p.connectionPath);
		return p;
	}
	void listen(int i) {
		auto c = conns[i].lock();
		if (!c)
			return;
		c->setReceiveDataListener([this, i](uint32_t header, uint16_t seq, const std::vector<uint8_t>& data) {
			eip_hook("received", i, header, seq, data);
			this->run();
		});
		c->setSendDataListener([this, i](std::vector<uint8_t>& data) {
			eip_hook("sending", i, data);
			this->run();
		});
		c->setCloseListener([this, i]() {
			eip_hook("closed", i);
			this->run();
		});
	}
	void step(int op, int a, int b) {
		switch (op) {
			case 1:
			case 2: {
				auto p = params(a);
				conns[a] = op == 1 ? managers[b]->forwardOpen(si, p, false) : managers[b]->largeForwardOpen(si, p);
				eip_hook("opened", a, conns[a].lock() != nullptr);
				listen(a);
				break;
			}
			case 3:
				managers[b]->forwardClose(si, conns[a]);
				break;
			case 4:
				managers[b]->handleConnections(std::chrono::milliseconds(a));
				break;
			case 5:
				if (auto c = conns[a].lock()) {
					std::vector<uint8_t> data;
					eip_hook("data", a, data);
					c->setDataToSend(data);
				}
				break;
			case 6:
				listen(a);
				break;
			case 7:
				managers[b].reset();
				return;
			case 8: {
				// without listeners
				auto p = params(a);
				conns[a] = managers[b]->forwardOpen(si, p, false);
				eip_hook("opened", a, conns[a].lock() != nullptr);
				break;
			}
			case 9:
				// hold the connection while handling it
				if (auto c = conns[a].lock())
					managers[b]->handleConnections(std::chrono::milliseconds(0));
				break;
			case 10:
				if (auto c = conns[a].lock())
					managers[b]->forwardClose(si, conns[a]);
				break;
			case 11:
				// closing twice while the caller still holds the connection
				if (auto c = conns[a].lock()) {
					managers[b]->forwardClose(si, conns[a]);
					managers[b]->forwardClose(si, conns[a]);
				}
				break;
			case 12:
				conns[a + 4] = conns[a];
				break;
			case 13:
				if (auto c = conns[a].lock()) {
					c->setReceiveDataListener([](uint32_t, uint16_t, const std::vector<uint8_t>&) {});
					c->setSendDataListener([](std::vector<uint8_t>&) {});
					c->setCloseListener([]() {});
				}
				break;
		}
	}
	void run() {
		for (;;) {
			int op = 0, a = 0, b = 0;
			eip_hook("next", op, a, b);
			if (op == 0)
				break;
			int outcome = 0;
			try {
				step(op, a, b);
			} catch (const std::system_error&) {
				outcome = 2;
			} catch (const std::runtime_error&) {
				outcome = 1;
			} catch (...) {
				outcome = 3;
			}
			bool h0 = managers[0] && managers[0]->hasOpenConnections(), h1 = managers[1] && managers[1]->hasOpenConnections();
			eip_hook("after", outcome, h0, h1, conns[0].expired(), conns[1].expired(), conns[2].expired());
		}
	}
};
void io() {
	Io io;
	io.run();
	eip_mark("leaving");
}
}
