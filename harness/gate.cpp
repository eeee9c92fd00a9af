// Gate under the explorer.
#include <lightspeed/base/sync/synchronize.h>
#include <lightspeed/mt/gate.h>
#include <lightspeed/mt/thread.h>
#include "vsworker.h"
using namespace LightSpeed;
// w wait, t wait 50ms, o open, c close, q opened?, A async, W await, C cancel, D delay, X wait and destroy the gate
static void run(Gate *g, const std::string &p) {
	Gate::Slot *s = 0;
	for (char c : p) switch (c) {
		case 'w': OPB("wait", "", g->wait(nil)); break;
		case 't': OPB("waitTm", vs::kv("dl", vs::nowMs() + 50), g->wait(Timeout(50))); break;
		case 'o': OPV("open", "", g->open()); break;
		case 'c': OPV("close", "", g->close()); break;
		case 'q': OPB("isopen", "", g->isOpened()); break;
		case 'A': s = new Gate::Slot; OPV("async", "", g->waitAsync(*s)); break;
		case 'W': OPV("await", "", SyncPt::wait(*s, nil)); delete s; break;
		case 'C': OPV("cancel", "", g->cancelWaitAsync(*s)); delete s; break;
		case 'D': vs::delay(100); break;
		case 'X': OPB("wait", "", g->wait(nil)); delete g; break;
	}
}
void vs::registerScenarios() {
	std::vector<Progs> ps = { {"w","o"}, {"w","w","o"}, {"w","oc"}, {"w","Doc"}, {"w","w","Doc"}, {"w","ococ"}, {"t","o"}, {"t","Do"}, {"t","Doc"}, {"t","t","oc"}, {"tq","w","oq"}, {"AW","o"}, {"AW","oc"}, {"AC","o"}, {"ACw","oc","o"}, {"AW","w","Doc"}, {"ww","o"}, {"wcw","oo"},
		{"qo","qc","q"}, {"AC","w","o"}, {"w","oc","oc"}, {"tt","DDo"}, {"w","t","AW","oc"}, {"ocw","Do"}, {"o","w","w","w"}, {"AC","AC","o"} };
	std::vector<Progs> xs = { {"X","o"}, {"qX","o"} };
	for (int op = 0; op < 2; op++) for (int d = 0; d < 3; d++) for (auto &p : d == 2 ? xs : ps) {
		if (d && (p.size() > 3 || op)) continue;
		vs::add(std::string(d == 2 ? "GateX" : op ? "GateOpen" : "Gate") + (d == 1 ? "D" : "") + join(p), "{\"n\":0}", [p, op, d]() {
			Gate *g = new Gate(op ? Gate::stateOpen : Gate::stateClose);
			vs::emitBlock(true);
			vs::evraw(std::string("\"e\":\"init\",\"open\":") + (op ? "true" : "false"));
			for (auto &x : p) { auto f = [g, x]() { run(g, x); }; vs::spawn(d == 1 ? workerD(f) : worker(f)); }
			vs::go();
			if (d != 2) delete g;
		});
	}
}
