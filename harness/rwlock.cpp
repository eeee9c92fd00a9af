// LevelLock and RWLock under the explorer.
#include <lightspeed/base/sync/synchronize.h>
#include <lightspeed/mt/rwlock.h>
#include <lightspeed/mt/thread.h>
#include "vsworker.h"
using namespace LightSpeed;
// R read, W write, r/w try, U unlock the last, A async read, B async write, C cancel, V await (owns), D delay
struct St { RWLock l; LevelLock ll; bool lev; };
static void lock(St *s, long lv) {
	if (s->lev) s->ll.lock((atomicValue)lv);
	else if (lv) static_cast<RWLock::WriteLock &>(s->l).lock(); else static_cast<RWLock::ReadLock &>(s->l).lock();
}
static bool doTry(St *s, long lv) {
	if (s->lev) return s->ll.tryLock((atomicValue)lv);
	return lv ? s->l.RWLockBase::tryLockWrite() : s->l.RWLockBase::tryLockRead();
}
static void unlock(St *s, bool wr) {
	if (s->lev) s->ll.unlock(); else if (wr) s->l.RWLockBase::unlockWrite(); else static_cast<RWLock::ReadLock &>(s->l).unlock();
}
static void run(St *s, const std::string &p) {
	std::vector<int> held; LevelLock::Slot *sl = 0; RefCntPtr<IThreadSleeper> me; long alv = 0;
	for (char c : p) { long lv = (c == 'W' || c == 'w' || c == 'B') ? vs::self() : 0; std::string x = vs::kv("lv", lv); switch (c) {
		case 'R': case 'W': OPV("lock", x, lock(s, lv)); held.push_back(lv ? 2 : 1); break;
		case 'r': case 'w': held.push_back(OPB("try", x, doTry(s, lv)) ? (lv ? 2 : 1) : 0); break;
		case 'U': { int h = held.back(); held.pop_back(); if (h) OPV("unlock", "", unlock(s, h == 2)); } break;
		case 'A': case 'B': me = getCurThreadSleepingObj(); alv = lv; sl = new LevelLock::Slot(me.get(), (atomicValue)lv); OPV("async", x, s->ll.lockAsync(*sl)); break;
		case 'C': OPV("cancel", "", s->ll.cancelAsync(*sl)); delete sl; break;
		case 'V': OPV("await", "", while (!sl->signaled) threadHalt()); delete sl; held.push_back(alv ? 2 : 1); break;
		case 'D': vs::delay(100); break;
	} }
}
// one thread makes requests of several users and looks at them
static void seqRun(unsigned long seed) {
	LevelLock ll; Rnd r(seed); const int N = 6; LevelLock::Slot *sl[N + 1] = {}; std::vector<int> held[N + 1]; long lvs[N + 1]; bool got[N + 1] = {};
	int levels = 1 + r(3), polite = r(2);
	for (int i = 0; i < 60; i++) { int t = 1 + r(N); long lv = r(levels + 1);
		if (sl[t] && !got[t]) { if (r(polite ? 8 : 3) == 0) { VOPV(t, "cancel", "", ll.cancelAsync(*sl[t])); delete sl[t]; sl[t] = 0; } }
		else if (held[t].size()) { if (r(3)) { VOPV(t, "unlock", "", ll.unlock()); held[t].pop_back(); } else if (r(3) == 0) { lv = held[t].back(); if (VOPB(t, "try", vs::kv("lv", lv), ll.tryLock((atomicValue)lv))) held[t].push_back(lv); } }
		else if (r(4) == 0) { if (VOPB(t, "try", vs::kv("lv", lv), ll.tryLock((atomicValue)lv))) held[t].push_back(lv); }
		else { lvs[t] = lv; sl[t] = new LevelLock::Slot(&Thread::current(), (atomicValue)lv); VOPV(t, "async", vs::kv("lv", lv), ll.lockAsync(*sl[t])); }
		for (int u = 1; u <= N; u++) if (sl[u] && VOPB(u, "poll", "", sl[u]->signaled)) {
			if (r(4) == 0) { VOPV(u, "cancel", "", ll.cancelAsync(*sl[u])); }
			else { VOPV(u, "await", "", (void)0); held[u].push_back(lvs[u]); }
			delete sl[u]; sl[u] = 0; } }
	for (int u = 1; u <= N; u++) if (sl[u]) { VOPV(u, "cancel", "", ll.cancelAsync(*sl[u])); delete sl[u]; }
}
void vs::registerScenarios() {
	for (int i = 0; i < seqCount(150); i++) { unsigned long seed = seqSeed() * 1000003 + i; vs::add("LevelSeq" + std::to_string(i), "{\"n\":0}", [seed]() { vs::spawn(worker([seed]() { seqRun(seed); })); vs::go(); }); }
	std::vector<Progs> ps = { {"RU","RU"}, {"WU","WU"}, {"RU","WU"}, {"RU","RU","WU"}, {"RU","WU","WU"}, {"WU","WU","WU"}, {"WURU","RUWU"}, {"RUWU","WU"}, {"WUWU","WU"}, {"RURU","WU"}, {"RU","wU"}, {"WU","rU"}, {"WU","rU","wU"}, {"RRUU","WU"}, {"WWUU","RU"},
		{"RU","rU","WU"}, {"WU","RU","RU","WU"}, {"RU","WU","RU","rU"}, {"WUW","WUR"}, {"R","R","rU"}, {"WU","RU","WURU"} };
	std::vector<Progs> as = { {"AC","WU"}, {"BC","WU"}, {"BC","WU","RU"}, {"BVU","WU"}, {"AVU","WU"}, {"BC","RU","RU"}, {"BC","BC","WU"}, {"BC","AC","WU"}, {"BVU","AVU","WU"}, {"BC","WUWU"}, {"BC","R","R"}, {"BC","RU","BC"} };
	for (int lev = 0; lev < 2; lev++) for (int d = 0; d < 2; d++) {
		std::vector<Progs> all = ps; if (lev) all.insert(all.end(), as.begin(), as.end());
		for (auto &p : all) {
			if (d && p.size() > 3) continue;
			vs::add(std::string(lev ? "Level" : "RW") + (d ? "D" : "") + join(p), "{\"n\":0}", [p, lev, d]() {
				St *s = new St; s->lev = lev;
				vs::emitBlock(true);
				for (auto &x : p) { auto f = [s, x]() { run(s, x); }; vs::spawn(d ? workerD(f) : worker(f)); }
				vs::go();
				delete s;
			});
		}
	}
}
