// Semaphore under the explorer.
#include <lightspeed/base/sync/synchronize.h>
#include <lightspeed/mt/semaphore.h>
#include <lightspeed/mt/thread.h>
#include "vsworker.h"
using namespace LightSpeed;
// L lock, t timed 50ms, i until finish, T try, U unlock if the matching lock worked, R release (produce), D delay 100ms,
// A async request, W await it (owns token then), C cancel it, F ask thread 1 to finish
struct St { Semaphore s; Thread *t1; St(natural n):s((atomicValue)n),t1(0) {} };
static void run(St *st, const std::string &p) {
	Semaphore &s = st->s; std::vector<bool> held; Semaphore::Slot *sl = 0;
	for (char c : p) switch (c) {
		case 'L': OPV("lock", "", s.lock()); held.push_back(true); break;
		case 't': held.push_back(OPB("lockTm", vs::kv("dl", vs::nowMs() + 50), s.lock(Timeout(50)))); break;
		case 'i': held.push_back(OPB("lockInt", "", s.lock(SyncPt::interruptOnExit))); break;
		case 'T': held.push_back(OPB("try", "", s.tryLock())); break;
		case 'U': { bool h = held.back(); held.pop_back(); if (h) OPV("unlock", "", s.unlock()); } break;
		case 'R': OPV("unlock", "", s.unlock()); break;
		case 'D': vs::delay(100); break;
		case 'A': sl = new Semaphore::Slot; OPV("async", "", s.lockAsync(*sl)); break;
		case 'C': OPV("cancel", "", s.cancelLockAsync(*sl)); delete sl; break;
		case 'W': OPV("await", "", SyncPt::wait(*sl, nil)); delete sl; held.push_back(true); break;
		case 'F': vs::evraw("\"e\":\"fin\",\"u\":1"); st->t1->finish(); break;
	}
}
static void seqRun(unsigned long seed) {
	Rnd r(seed); int n = r(4); Semaphore s((atomicValue)n); const int N = 6; Semaphore::Slot *sl[N + 1] = {}; int held[N + 1] = {}; int tok = n;
	vs::evraw("\"e\":\"init\"," + vs::kv("n", n)); int polite = r(2);
	for (int i = 0; i < 60; i++) { int t = 1 + r(N);
		if (sl[t]) { if (r(polite ? 8 : 3) == 0) { VOPV(t, "cancel", "", s.cancelLockAsync(*sl[t])); delete sl[t]; sl[t] = 0; } }
		else if (held[t]) { if (r(3)) { VOPV(t, "unlock", "", s.unlock()); held[t]--; } else if (VOPB(t, "try", "", s.tryLock())) held[t]++; }
		else if (r(4) == 0) { if (VOPB(t, "try", "", s.tryLock())) held[t]++; }
		else if (r(8) == 0 && tok < 5) { tok++; VOPV(t, "unlock", "", s.unlock()); }
		else { sl[t] = new Semaphore::Slot; VOPV(t, "async", "", s.lockAsync(*sl[t])); }
		for (int u = 1; u <= N; u++) if (sl[u] && VOPB(u, "poll", "", *sl[u])) {
			if (r(4) == 0) { VOPV(u, "cancel", "", s.cancelLockAsync(*sl[u])); }
			else { VOPV(u, "await", "", (void)0); held[u]++; }
			delete sl[u]; sl[u] = 0; } }
	for (int u = 1; u <= N; u++) if (sl[u]) { VOPV(u, "cancel", "", s.cancelLockAsync(*sl[u])); delete sl[u]; }
	for (int u = 1; u <= N; u++) while (held[u]) { VOPV(u, "unlock", "", s.unlock()); held[u]--; }
	n = 0; while (s.tryLock()) n++;
	vs::evraw("\"e\":\"final\"," + vs::kv("n", n));
}
void vs::registerScenarios() {
	for (int i = 0; i < seqCount(150); i++) { unsigned long seed = seqSeed() * 1000003 + i; vs::add("SemSeq" + std::to_string(i), "{\"n\":0}", [seed]() { vs::spawn(worker([seed]() { seqRun(seed); })); vs::go(); }); }
	struct S { int n; Progs p; };
	std::vector<S> ss = {
		{1,{"LU","LU"}}, {1,{"LU","LU","LU"}}, {1,{"LULU","LU"}}, {2,{"LU","LU","LU"}}, {1,{"LU","TU"}}, {1,{"LU","TU","LU"}}, {0,{"L","R"}}, {0,{"LL","RR"}}, {0,{"L","L","RR"}},
		{0,{"LR","LR","R"}}, {2,{"LLUU","LU"}}, {1,{"LU","tU"}}, {1,{"LDU","tU"}}, {1,{"LDU","tU","LU"}}, {1,{"LDU","tU","tU"}}, {0,{"t","DR"}}, {0,{"t","DR","DDL"}}, {0,{"tR","DRL"}}, {0,{"tt","DR"}},
		{0,{"t","R"}}, {0,{"t","t","RR"}}, {1,{"LU","AWU"}}, {1,{"LU","AC"}}, {1,{"LU","AC","LU"}}, {1,{"LU","AC","AC"}}, {1,{"AC","TU"}}, {2,{"AC","LU","LU"}}, {0,{"AC","R","L"}}, {0,{"AW","R"}}, {0,{"AW","AC","R"}},
		{1,{"LU","AWU","LU"}}, {0,{"i","R"}}, {0,{"i","F"}}, {0,{"i","RF"}}, {0,{"i","RF","L"}}, {0,{"i","FR"}}, {0,{"iU","L","FR"}}, {0,{"L","RT"}}, {3,{"LLTUUU","LTUU"}}, {0,{"LL","L","RRR"}}, {1,{"LU","LU","LU","LU"}} };
	for (auto &x : ss) for (int d = 0; d < 2; d++) {
		S s = x; if (d && (s.p.size() > 3 || join(s.p).find('F') != std::string::npos)) continue;
		vs::add(std::string(d ? "SemD" : "Sem") + std::to_string(s.n) + join(s.p), "{\"n\":0}", [s, d]() {
			St *st = new St(s.n);
			vs::emitBlock(true);
			vs::evraw("\"e\":\"init\"," + vs::kv("n", s.n));
			Thread **pt = &st->t1;
			for (size_t i = 0; i < s.p.size(); i++) { std::string x = s.p[i]; auto f = [st, x]() { run(st, x); }; if (d) vs::spawn(workerD(f)); else { vs::spawn(worker(f, i ? 0 : pt)); } }
			vs::go();
			int n = 0; while (st->s.tryLock()) n++;
			vs::evraw("\"e\":\"final\"," + vs::kv("n", n));
			delete st;
		});
	}
}
