#ifndef VSWORKER_H
#define VSWORKER_H
#include <lightspeed/mt/thread.h>
#include "../vsched/vsched.h"
// wraps a worker body so that it runs as an attached LightSpeed thread.
// worker: the Thread object outlives the execution; workerD: it dies with the worker.
inline std::function<void()> worker(std::function<void()> fn, LightSpeed::Thread **out = 0) {
	LightSpeed::Thread::getMaster(); LightSpeed::Thread *t = new LightSpeed::Thread;
	if (out) *out = t;
	return [t, fn]() { t->attach(false); vs::parkForGo(); fn(); };
}
inline std::function<void()> workerD(std::function<void()> fn) {
	LightSpeed::Thread::getMaster();
	return [fn]() { LightSpeed::Thread *t = new LightSpeed::Thread; t->attach(false); vs::parkForGo(); fn(); delete t; };
}
inline std::string rb(bool b) { return std::string("\"res\":") + (b ? "true" : "false"); }
inline std::string rbn(bool b) { return rb(b) + "," + vs::kv("now", vs::nowMs()); }
#define OPV(name, extra, stmt) do { vs::call(name, extra); stmt; vs::ret(name, rb(true)); } while (0)
#define OPB(name, extra, expr) ([&]() -> bool { vs::call(name, extra); bool r_ = (expr); vs::ret(name, rbn(r_)); return r_; })()
// sequential histories: one thread acts on behalf of several users
inline void vcall(int t, const char *op, const std::string &x = "") { vs::evraw("\"e\":\"call\"," + vs::kv("t", t) + ",\"op\":\"" + op + "\"" + (x.empty() ? "" : "," + x)); }
inline void vret(int t, const char *op, const std::string &x) { vs::evraw("\"e\":\"ret\"," + vs::kv("t", t) + ",\"op\":\"" + op + "\"," + x); }
#define VOPB(t, name, extra, expr) ([&]() -> bool { vcall(t, name, extra); bool r_ = (expr); vret(t, name, rbn(r_)); return r_; })()
#define VOPV(t, name, extra, stmt) do { vcall(t, name, extra); stmt; vret(t, name, rb(true)); } while (0)
struct Rnd { unsigned long s; Rnd(unsigned long x):s(x * 2654435761UL + 12345) { for (int i = 0; i < 4; i++) (*this)(2); }
	unsigned operator()(unsigned n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) % n; } };
inline int seqCount(int n) { const char *t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough" ? n * 10 : n; }
inline unsigned long seqSeed() { const char *t = getenv("VERIF_SEED"); return t ? atol(t) : 1; }
typedef std::vector<std::string> Progs;
inline std::string join(const Progs &p) { std::string n; for (auto &x : p) n += "_" + x; return n; }
#endif
