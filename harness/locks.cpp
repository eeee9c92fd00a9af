// Exclusive locks under the explorer.
#include <lightspeed/base/sync/synchronize.h>
#include <lightspeed/mt/fastlock.h>
#include <lightspeed/mt/microlock.h>
#include <lightspeed/mt/spinlock.h>
#include <lightspeed/mt/mutex.h>
#include <lightspeed/mt/thread.h>
#include "../vsched/vsched.h"
#include "vsworker.h"
using namespace LightSpeed;

// One thread's program: L lock, T try (unlock later only if it worked), U unlock, t timed lock 50ms, D sleep 100ms
struct ILk { virtual ~ILk() {} virtual void lock() = 0; virtual bool tryLock() = 0; virtual void unlock() = 0; virtual bool lockTm(unsigned ms) { (void)ms; lock(); return true; } virtual unsigned save() { return 0; } virtual bool restore(unsigned, bool) { return false; } };
template<class L> struct Lk : ILk { L l; void lock() { l.lock(); } bool tryLock() { return l.tryLock(); } void unlock() { l.unlock(); } };
struct MLk : Lk<Mutex> { bool lockTm(unsigned ms) { return l.lock(Timeout(ms)); } };
struct RLk : Lk<FastLockR> { unsigned save() { return (unsigned)l.unlockSaveRecusion(); } bool restore(unsigned n, bool tr) { return l.lockRestoreRecursion(n, tr); } };
struct ALk : Lk<FastLock> { // asynchronous acquisition
	void lock() { FastLock::Async a(l); }
};
struct AmLk : ILk { // mutex through lockAsync
	Mutex m;
	void lock() { Mutex::WaitPt::Slot s; s.value.threadId = ThreadId::current().asAtomic(); if (!m.lockAsync(s)) SyncPt::wait(s, Timeout(naturalNull)); }
	bool tryLock() { return m.tryLock(); }
	void unlock() { m.unlock(); }
};


static void runProg(ILk *lk, const std::string &p) {
	unsigned saved = 0;
	std::vector<bool> held; // result of each acquisition in this thread
	for (char c : p) {
		switch (c) {
		case 'L': vs::call("lock"); lk->lock(); vs::ret("lock", rb(true)); held.push_back(true); break;
		case 'T': { vs::call("try"); bool r = lk->tryLock(); vs::ret("try", rb(r)); held.push_back(r); } break;
		case 't': { vs::call("lockTm", vs::kv("dl", vs::nowMs() + 50)); bool r = lk->lockTm(50); vs::ret("lockTm", rb(r) + "," + vs::kv("now", vs::nowMs())); held.push_back(r); } break;
		case 'U': { bool h = held.back(); held.pop_back(); if (h) { vs::call("unlock"); lk->unlock(); vs::ret("unlock", rb(true)); } } break;
		// S give up all levels at once, R take them all back, r the same only if it can be done at once
		case 'S': vs::call("unlockAll"); saved = lk->save(); vs::ret("unlockAll", "\"res\":true,\"n\":" + std::to_string(saved)); break;
		case 'R': { vs::call("relock", "\"n\":" + std::to_string(saved)); bool r = lk->restore(saved, false); vs::ret("relock", rb(r)); if (!r) return; } break;
		case 'r': { vs::call("tryRelock", "\"n\":" + std::to_string(saved)); bool r = lk->restore(saved, true); vs::ret("tryRelock", rb(r)); if (!r) held.assign(held.size(), false); } break;
		case 'D': vs::delay(100); break;
		}
	}
}
static void micro(MicroLock *m, const std::string &p) {
	for (char c : p) if (c == 'L') {
		vs::call("lock");
		Synchronized<MicroLock> *s = new Synchronized<MicroLock>(*m);
		vs::ret("lock", rb(true)); vs::call("unlock");
		delete s;
		vs::ret("unlock", rb(true));
	}
}
static std::string cfg(const char *kind, bool rec, bool fifo) { return std::string("{\"kind\":\"") + kind + "\",\"rec\":" + (rec ? "true" : "false") + ",\"fifo\":" + (fifo ? "true" : "false") + "}"; }


template<class F> static void addLock(const char *kind, bool rec, bool fifo, const std::vector<Progs> &ps, F make) {
	for (const Progs &p : ps) {
		std::string n = kind; for (auto &x : p) n += "_" + x;
		vs::add(n, cfg(kind, rec, fifo), [p, make]() {
			ILk *lk = make();
			vs::emitBlock(true);
			for (auto &x : p) vs::spawn(worker([lk, x]() { runProg(lk, x); }));
			vs::go();
			delete lk;
		});
	}
}
void vs::registerScenarios() {
	std::vector<Progs> plain = { {"LU","LU"}, {"LULU","LU"}, {"LU","LU","LU"}, {"LU","TU"}, {"LU","TU","LU"}, {"TU","TU","LU"}, {"LULU","LULU"}, {"LULU","LU","TU"}, {"LU","LU","LU","LU"} };
	std::vector<Progs> recur = { {"LLUU","LU"}, {"LTUU","LU"}, {"TLUU","LU"}, {"LLUU","LLUU"}, {"TTUU","TU"}, {"LU","TLUU","LU"}, {"LTUU","TTUU"}, {"LLULUU","TU"} };
	std::vector<Progs> timed = { {"LU","tU"}, {"LDU","tU"}, {"LDU","tU","LU"}, {"LDU","tU","tU"}, {"tULU","LU","LU"}, {"LDU","tULU"} };
	addLock("FastLock", false, true, plain, []() -> ILk * { return new Lk<FastLock>; });
	addLock("FastLockAsync", false, true, { {"LU","LU"}, {"LU","LU","LU"}, {"LULU","LU"}, {"LU","TU","LU"} }, []() -> ILk * { return new ALk; });
	addLock("FastLockR", true, true, plain, []() -> ILk * { return new Lk<FastLockR>; });
	addLock("FastLockR", true, true, recur, []() -> ILk * { return new Lk<FastLockR>; });
	addLock("FastLockR", true, true, { {"LSRU","LU"}, {"LLSRUU","LU"}, {"LSTURU","LU"}, {"LSTURU","LLUU"}, {"LLSrUU","LU"}, {"LLSrUU","TU"}, {"LSrU","LU","LU"}, {"LSTUrU","LSRU"}, {"LLSRUU","LSTURU"}, {"LSLURU","LU"} }, []() -> ILk * { return new RLk; });
	addLock("SpinLock", false, false, { {"LU","LU"}, {"LU","TU"}, {"LU","LU","LU"}, {"LULU","TU"} }, []() -> ILk * { return new Lk<SpinLock>; });
	addLock("SpinLockRecursive", true, false, { {"LU","LU"}, {"LLUU","LU"}, {"TLUU","TU"}, {"LTUU","LU"} }, []() -> ILk * { return new Lk<SpinLockRecursive>; });
	addLock("Mutex", true, false, plain, []() -> ILk * { return new MLk; });
	addLock("Mutex", true, false, recur, []() -> ILk * { return new MLk; });
	addLock("Mutex", true, false, timed, []() -> ILk * { return new MLk; });
	addLock("MutexAsync", true, false, { {"LU","LU"}, {"LU","LU","LU"}, {"LULU","LU"}, {"LLUU","LU"} }, []() -> ILk * { return new AmLk; });
	for (const Progs &p : std::vector<Progs>{ {"L","L"}, {"LL","L"}, {"L","L","L"}, {"LL","LL"} }) {
		std::string n = "MicroLock"; for (auto &x : p) n += "_" + x;
		vs::add(n, cfg("MicroLock", false, true), [p]() {
			MicroLock *m = new MicroLock;
			vs::emitBlock(true);
			for (auto &x : p) vs::spawn(worker([m, x]() { micro(m, x); }));
			vs::go();
			delete m;
		});
	}
}
