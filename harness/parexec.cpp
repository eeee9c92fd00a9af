// Thread pools under the explorer: ParallelExecutor and InfParallelExecutor.
#include <lightspeed/base/actions/parallelExecutor.h>
#include <lightspeed/base/actions/InfParallelExecutor.h>
#include <lightspeed/base/exceptions/errorMessageException.h>
#include <lightspeed/mt/exceptions/timeoutException.h>
#include <lightspeed/base/framework/app.h>
#include <lightspeed/base/containers/autoArray.tcc>
#include <stdexcept>
#include "vsworker.h"
using namespace LightSpeed;
struct TheApp : App { virtual integer start(const Args &) { return 0; } virtual void onThreadException(const Exception &) throw() {} };
struct St { IExecutor *x; volatile int gate; volatile int live; volatile int slow; int busy; };
static St *s;
struct PE : ParallelExecutor { PE(natural a, natural b, natural c, natural d):ParallelExecutor(a, b, c, d) {}
	~PE() { stopAll(naturalNull); }
	virtual void onThreadInit() { vs::Quiet q; s->live++; } virtual void onThreadDone() { { vs::Quiet q; s->live--; } if (s->slow) vs::delay(s->slow); } };
static PE *pe() { return static_cast<PE *>(s->x); }
static std::string A(int a) { return vs::kv("a", a); }
static std::string R(long r) { return vs::kv("r", r) + "," + vs::kv("now", vs::nowMs()); }
struct EndGuard { int a; bool ok; EndGuard(int a):a(a), ok(false) {} ~EndGuard() { vs::evraw("\"e\":\"end\"," + A(a)); } };
// body: C nothing, D takes time, L until asked to finish, G until the gate opens, X and Y throw
static void body(int a, char c) { vs::evraw("\"e\":\"begin\"," + A(a)); EndGuard g(a);
	switch (c) { case 'D': vs::delay(100); break; case 'L': while (!Thread::canFinish()) Thread::sleep(nil); break; case 'G': while (!s->gate) vs::delay(10); break;
		case 'X': throw ErrorMessageException(THISLOCATION, String("x")); case 'Y': throw std::runtime_error("y"); case 'Z': throw 42; } }
static void act(int me, const std::string &p) { int n = 0;
	for (size_t i = 0; i < p.size(); i++) { char c = p[i]; auto num = [&]() { return p[++i] - '0'; };
		switch (c) {
		case 'e': { char b = p[++i]; int a = me * 10 + n++; long r = 1; vs::call("execute", A(a) + "," + vs::kv("now", vs::nowMs()));
			try { *s->x >> [a, b]() { body(a, b); }; } catch (const TimeoutException &) { r = 0; }
			vs::ret("execute", R(r)); } break;
		case 's': case 'j': case 't': { vs::call("stop", vs::kv("now", vs::nowMs()) + "," + vs::kv("tm", c == 't' ? 50 : 0)); bool r = true; if (c == 'j') s->x->join(); else r = s->x->stopAll(c == 't' ? 50 : naturalNull);
			vs::ret("stop", R(r) + "," + vs::kv("live", s->live)); } break;
		case 'd': vs::call("destroy"); delete s->x; vs::ret("destroy", R(1) + "," + vs::kv("live", s->live)); break;
		case 'f': vs::call("finish"); s->x->finish(); vs::ret("finish", R(0)); break;
		case 'm': { int k = num(); vs::call("setmax", vs::kv("k", k)); pe()->setMaxThreadCount(k); vs::ret("setmax", R(pe()->getMaxThreadCount())); } break;
		case 'w': { int k = num(); vs::call("spawn", vs::kv("k", k)); pe()->spawnThreads(k); vs::ret("spawn", R(pe()->getThreadCount())); } break;
		case 'c': { vs::call("count"); long r = pe()->getThreadCount(); vs::ret("count", R(r)); } break;
		case 'q': { vs::Quiet q; vs::delay(1000); vs::evraw("\"e\":\"quiet\"," + vs::kv("c", pe()->getThreadCount()) + "," + vs::kv("i", pe()->getIdleCount()) + "," + vs::kv("r", s->x->isRunning()) + "," + vs::kv("live", s->live)); } break;
		case 'g': s->gate = 1; break;
		case 'S': s->slow = 300; break;
		case 'D': vs::delay(100); break;
		} }
}
void vs::registerScenarios() {
	struct Sc { int max; int wait, ntm, idle; Progs a; };
	std::vector<Sc> sc = {
		{1, -1, 0, -1, {"eCqd"}}, {1, -1, 0, -1, {"eCeCqd"}}, {1, -1, 0, -1, {"eCeXeCqd"}}, {2, -1, 0, -1, {"eCeCqd"}}, {2, -1, 0, -1, {"eYeCeZqd"}}, {2, -1, 0, -1, {"eDeDeCqd"}}, {1, -1, 0, -1, {"eDeDd"}}, {2, -1, 0, -1, {"eLqeCqd"}}, {3, -1, 0, -1, {"eLeLeCsqeCd"}},
		{1, -1, 0, -1, {"eCseCqd"}}, {1, -1, 0, -1, {"eLseCsqd"}}, {2, -1, 0, -1, {"eLeLsqeCeCqd"}}, {1, -1, 0, -1, {"seCjeCd"}}, {2, -1, 0, -1, {"w2qeCqd"}}, {2, -1, 0, -1, {"w2qsqw2qeCd"}}, {2, -1, 0, -1, {"w1eCeCeCqd"}}, {3, -1, 0, -1, {"w9qd"}},
		{1, -1, 0, -1, {"eCfeCqd"}}, {1, -1, 0, -1, {"eDfeCqd"}}, {2, -1, 0, -1, {"eCeCfeCeCqd"}}, {2, -1, 0, -1, {"eDeDfeCeCd"}}, {1, -1, 0, -1, {"eCqfqeCqd"}},
		{1, 50, 0, -1, {"eGeCgeCqd"}}, {1, 50, 0, -1, {"eGeCeCgqeCqd"}}, {2, 50, 0, -1, {"eGeGeCgeCqd"}}, {1, 0, 0, -1, {"eCeCqeCd"}}, {1, 50, 0, -1, {"eLteCd"}}, {1, -1, 0, -1, {"eGtgeCqd"}}, {2, 50, 20, -1, {"eGeCeCgqd"}}, {2, -1, 20, -1, {"eCeCeCqd"}}, {2, -1, 20, -1, {"eGeGqgeCd"}},
		{1, -1, 0, 20, {"eCqeCqd"}}, {1, -1, 0, 20, {"eCeCqd"}}, {2, -1, 0, 20, {"eCeCqeCd"}}, {2, -1, 0, 20, {"eDeDeCqeCqd"}}, {1, -1, 0, 20, {"eDeDDeCqd"}}, {2, -1, 0, 20, {"eGeCDeCgqd"}}, {1, -1, 0, 0, {"eCeCeCd"}}, {1, -1, 0, 20, {"eCDeDeDd"}}, {1, -1, 0, 20, {"eCDseCDsqd"}}, {1, 50, 0, 20, {"eCDeCDeCd"}}, {2, -1, 10, 20, {"eCDeCDeCqd"}},
		{2, -1, 0, -1, {"eCeCm1qeCqd"}}, {2, -1, 0, -1, {"eGeGm1geCqd"}}, {1, -1, 0, -1, {"eGm2qeCgqd"}}, {2, -1, 0, -1, {"w2m1eCqd"}}, {3, -1, 0, -1, {"w3qm1qeCeCqd"}}, {2, -1, 0, 20, {"w2m1eCDqeCd"}}, {2, -1, 0, -1, {"w2m1m2eGeCgqd"}}, {3, -1, 0, -1, {"eDeDm1eDeCqd"}},
		{2, -1, 0, -1, {"eGeCqd", "m1g"}}, {2, -1, 0, -1, {"w2eCDeCqd", "m1"}}, {2, -1, 0, -1, {"eDeDeCqd", "m1"}}, {1, -1, 0, -1, {"eGeCqd", "m2g"}}, {1, -1, 0, -1, {"eGeCqd", "gcc"}}, {2, -1, 0, 20, {"eCDeCDeCqd", "cc"}}, {2, -1, 0, 20, {"eCDeCqd", "m1cm2"}}, {2, -1, 0, -1, {"w2eCeCqd", "m1m2"}}, {1, -1, 0, -1, {"eGeCd", "Dg"}}, {1, 50, 0, -1, {"eGeCqd", "Dg"}}, {1, 50, 0, 20, {"eGeCeCqd", "g"}}, {2, 50, 20, 20, {"eDeCeCqd"}},
		{1, -1, -1, 20, {"SeCDeCqd"}}, {1, -1, -1, 20, {"SeCDeCDeCd"}}, {2, -1, -1, 20, {"Sw2DeCDeCeCqd"}}, {2, -1, 0, 20, {"Sw2DeCeCDeCqd"}}, {1, 50, 0, 20, {"SeCDeCqd"}}, {1, 400, 0, 20, {"SeCDeCqd"}}, {2, -1, -1, -1, {"eCeDeCqd"}}, {2, -1, -1, -1, {"w2eDeDeCqd"}}, {1, -1, 0, 20, {"SeCDsqeCd"}} };
	for (auto &c : sc) for (int k = 0; k < 2; k++) {
		if (k) { bool ok = c.max > 1 && c.wait < 0 && c.ntm == 0 && c.idle < 0 && c.a.size() == 1; for (char ch : c.a[0]) if (strchr("wmcqf", ch)) ok = false; if (!ok) continue; }
		std::string n = "Pex" + std::string(k ? "I_" : "_") + std::to_string(c.max) + "_" + std::to_string(c.wait) + "_" + std::to_string(c.ntm) + "_" + std::to_string(c.idle) + join(c.a);
		for (auto &ch : n) if (ch == '-') ch = 'n';
		vs::add(n, "{}", [c, k]() {
			Thread::getMaster(); new TheApp; s = new St; s->gate = 0; s->live = 0; s->slow = 0;
			auto tm = [](int x) { return x < 0 ? naturalNull : (natural)x; };
			if (k) s->x = new InfParallelExecutor; else s->x = new PE(c.max, tm(c.wait), tm(c.ntm), tm(c.idle));
			vs::emitBlock(false);
			vs::evraw("\"e\":\"init\"," + vs::kv("max", k ? 99 : c.max) + "," + vs::kv("wait", c.wait < 0 ? 1000000 : c.wait) + "," + vs::kv("idle", c.idle < 0 ? 1000000 : c.idle));
			for (size_t i = 0; i < c.a.size(); i++) { std::string p = c.a[i]; int me = i + 1; vs::spawn(worker([me, p]() { act(me, p); })); }
			vs::go();
		});
	}
}
