// SyncPt and Notifier under the explorer.
#include <lightspeed/base/sync/synchronize.h>
#include <lightspeed/mt/syncPt.h>
#include <lightspeed/mt/thread.h>
#include <lightspeed/mt/notifier.h>
#include "vsworker.h"
using namespace LightSpeed;
// a add, r remove, s look, w wait, t wait 50ms, x reset, o notifyOne, n notifyAll, e empty?, D delay, k: wait 50ms, then remove, then look (the documented pattern)
struct ISt { virtual ~ISt() {} virtual void run(const std::string &p) = 0; };
struct St : ISt { SyncPt p; St(bool stack):p(stack ? SyncPt::stack : SyncPt::queue) {}
	void run(const std::string &pr) {
		SyncPt::Slot *s = new SyncPt::Slot; std::string x = vs::kv("s", vs::self());
		bool reg = false;
		for (char c : pr) { if (c == 'a') reg = true; if (c == 'w' || c == 'r') reg = false; switch (c) {
			case 'a': OPB("add", x, p.add(*s)); break;
			case 'r': OPB("remove", x, p.remove(*s)); break;
			case 's': OPB("sig", x, s->isSignaled()); break;
			case 'w': OPB("wait", x, SyncPt::wait(*s, nil)); break;
			case 't': OPB("waitTm", x + "," + vs::kv("dl", vs::nowMs() + 50), SyncPt::wait(*s, Timeout(50))); break;
			case 'x': OPB("reset", x, s->reset()); break;
			case 'o': OPB("one", "", p.notifyOne()); break;
			case 'n': OPB("all", "", p.notifyAll()); break;
			case 'e': OPB("empty", "", p.empty()); break;
			case 'D': vs::delay(100); break;
		} }
		if (!reg) delete s;
	} };
struct StT : ISt { SyncPtT<int> p; StT(bool stack):p(stack ? SyncPt::stack : SyncPt::queue) {}
	void run(const std::string &pr) {
		SyncPtT<int>::Slot *s = new SyncPtT<int>::Slot; s->value = 0; int v = vs::self() * 10; std::string x = vs::kv("s", vs::self());
		bool reg = false;
		for (char c : pr) { if (c == 'a') reg = true; if (c == 'w' || c == 'r') reg = false; switch (c) {
			case 'a': OPB("add", x, p.add(*s)); break;
			case 'r': OPB("remove", x, p.remove(*s)); break;
			case 's': OPB("sig", x, s->isSignaled()); break;
			case 'w': { vs::call("wait", x); SyncPt::wait(*s, nil); vs::ret("wait", rb(true) + "," + vs::kv("v", s->value)); } break;
			case 't': { vs::call("waitTm", x + "," + vs::kv("dl", vs::nowMs() + 50)); bool r = SyncPt::wait(*s, Timeout(50)); vs::ret("waitTm", rbn(r) + "," + vs::kv("v", r ? s->value : 0)); } break;
			case 'x': OPB("reset", x, s->reset()); break;
			case 'o': v++; OPB("one", vs::kv("v", v), p.notifyOne(v)); break;
			case 'n': v++; OPB("all", vs::kv("v", v), p.notifyAll(v)); break;
			case 'e': OPB("empty", "", p.empty()); break;
			case 'D': vs::delay(100); break;
		} }
		if (!reg) delete s;
	} };
// one thread registers, removes and notifies many slots
template<class PT> void notifyIt(PT &p, bool all, int t, int v);
template<> void notifyIt(SyncPt &p, bool all, int t, int) { if (all) VOPB(t, "all", "", p.notifyAll()); else VOPB(t, "one", "", p.notifyOne()); }
template<> void notifyIt(SyncPtT<int> &p, bool all, int t, int v) { if (all) VOPB(t, "all", vs::kv("v", v), p.notifyAll(v)); else VOPB(t, "one", vs::kv("v", v), p.notifyOne(v)); }
static long val(SyncPt::Slot *) { return 0; }
static long val(SyncPtT<int>::Slot *s) { return s->value; }
template<class PT> void seqRun(unsigned long seed, bool stack) {
	PT p(stack ? SyncPt::stack : SyncPt::queue); Rnd r(seed); const int N = 6; typename PT::Slot *sl[N + 1]; bool reg[N + 1] = {}; int busy = 3 + r(8), st = 0;
	for (int i = 1; i <= N; i++) sl[i] = new typename PT::Slot;
	for (int i = 0; i < 60; i++) { int s = 1 + r(N); std::string x = vs::kv("s", s); switch (r(busy)) {
		case 0: notifyIt(p, r(3) == 0, 1, ++st * 10); break;
		case 1: if (reg[s] && VOPB(1, "remove", x, p.remove(*sl[s]))) reg[s] = false; break;
		case 2: if (VOPB(1, "sig", x, sl[s]->isSignaled())) { vcall(1, "wait", x); SyncPt::wait(*sl[s], nil); vret(1, "wait", rb(true) + "," + vs::kv("v", val(sl[s]))); VOPB(1, "reset", x, sl[s]->reset()); reg[s] = false; } break;
		default: VOPB(1, "add", x, p.add(*sl[s])); reg[s] = true; if (r(3) == 0) VOPB(1, "empty", "", p.empty()); } }
	for (int i = 1; i <= N; i++) { std::string x = vs::kv("s", i); VOPB(1, "sig", x, sl[i]->isSignaled()); if (reg[i]) VOPB(1, "remove", x, p.remove(*sl[i])); }
	VOPB(1, "empty", "", p.empty());
	for (int i = 1; i <= N; i++) delete sl[i];
}
void vs::registerScenarios() {
	for (int i = 0; i < seqCount(160); i++) { unsigned long seed = seqSeed() * 1000003 + i; vs::add("PtSeq" + std::to_string(i), i & 1 ? "{\"stack\":true}" : "{\"stack\":false}", [seed, i]() {
		vs::spawn(worker([seed, i]() { if (i & 2) seqRun<SyncPtT<int> >(seed, i & 1); else seqRun<SyncPt>(seed, i & 1); })); vs::go(); }); }
	std::vector<Progs> ps = { {"aw","o"}, {"aw","Do"}, {"aw","aw","oo"}, {"aw","aw","n"}, {"aw","aw","Dn"}, {"aw","aw","DoDo"}, {"ars","o"}, {"ars","n"}, {"ars","aw","on"}, {"ars","ars","o"}, {"atrs","Do"}, {"atrs","o"}, {"atrs","atrs","o"},
		{"atrs","aw","Don"}, {"are","o"}, {"aras","o"}, {"aws","oe"}, {"awxaw","oDo"}, {"awxs","on"}, {"awxaw","nn"}, {"awxars","oo"}, {"arar","aw","o"}, {"aw","ar","aw","n"}, {"aas","o"}, {"aw","aw","aw","ono"}, {"awo","awo","Do"}, {"an","aw"}, {"arax","aw","oo"},
		{"atrsaw","DDDo"}, {"awxaw","awxaw","nDDn"}, {"ao","ao","s"}, {"ae","eo"} };
	for (int k = 0; k < 2; k++) for (int typed = 0; typed < 2; typed++) for (int d = 0; d < 2; d++) for (auto &p : ps) {
		if (d && (p.size() > 3 || k || typed)) continue;
		vs::add(std::string(typed ? "PtT" : "Pt") + (k ? "Stack" : "") + (d ? "D" : "") + join(p), k ? "{\"stack\":true}" : "{\"stack\":false}", [p, k, typed, d]() {
			ISt *s = typed ? (ISt *)new StT(k) : (ISt *)new St(k);
			for (auto &x : p) { auto f = [s, x]() { s->run(x); }; vs::spawn(d ? workerD(f) : worker(f)); }
			vs::go();
			delete s;
		});
	}
}
