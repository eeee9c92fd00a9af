// QueueExecutor under the explorer: queueing threads, serving threads, stopping.
#include <lightspeed/base/actions/queueExecutor.h>
#include <lightspeed/base/exceptions/errorMessageException.h>
#include "vsworker.h"
using namespace LightSpeed;
struct St { QueueExecutor *x; volatile int gate; };
static St *s;
static std::string A(int a) { return vs::kv("a", a); }
static std::string R(long r) { return vs::kv("r", r) + "," + vs::kv("now", vs::nowMs()); }
struct EndGuard { int a; bool ok; EndGuard(int a):a(a), ok(false) {} ~EndGuard() { vs::evraw("\"e\":\"end\"," + A(a) + "," + vs::kv("exc", !ok)); } };
static void exec(int a, char c);
static void body(int a, char c) { vs::evraw("\"e\":\"begin\"," + A(a) + "," + vs::kv("t", vs::self())); EndGuard g(a);
	switch (c) { case 'D': vs::delay(100); break; case 'G': while (!s->gate) vs::delay(10); break; case 'g': s->gate = 1; break; case 'X': throw ErrorMessageException(THISLOCATION, String("x"));
		case 'N': s->x->execute(Action::create([a]() { body(a + 4, 'C'); })); vs::evraw("\"e\":\"nested\"," + A(a + 4)); break; }
	g.ok = true; }
static void act(int me, const std::string &p) { int n = 0;
	for (size_t i = 0; i < p.size(); i++) { char c = p[i];
		switch (c) {
		case 'e': { char b = p[++i]; int a = me * 10 + n++; vs::call("execute", A(a)); *s->x >> [a, b]() { body(a, b); }; vs::ret("execute", R(1)); } break;
		case 'v': { vs::call("serve"); long r = 1; try { s->x->serve(); } catch (const Exception &) { r = 0; } vs::ret("serve", R(r)); } break;
		case 's': case 'j': case 't': { vs::call("stop", vs::kv("dl", c == 't' ? vs::nowMs() + 50 : 0)); bool r = true; if (c == 'j') s->x->join(); else r = s->x->stopAll(c == 't' ? 50 : naturalNull); vs::ret("stop", R(r)); } break;
		case 'd': vs::call("destroy"); s->x->~QueueExecutor(); free(s->x); vs::ret("destroy", R(1)); break;
		case 'f': vs::call("finish"); s->x->finish(); vs::ret("finish", R(0)); break;
		case 'z': vs::call("reset"); s->x->reset(); vs::ret("reset", R(0)); break;
		case 'r': { vs::call("running"); long r = s->x->isRunning(); vs::ret("running", R(r)); } break;
		case 'q': { vs::Quiet q; vs::delay(1000); vs::evraw("\"e\":\"quiet\"," + vs::kv("r", s->x->isRunning())); } break;
		case 'g': s->gate = 1; break;
		case 'D': vs::delay(100); break; case 'w': while (!s->gate) vs::delay(1); break;
		} }
}
void vs::registerScenarios() {
	std::vector<Progs> sc = { {"d"}, {"eCd"}, {"sd"}, {"eCtd"}, {"fd"}, {"feCzeCqd"}, {"eCfv"}, {"fvzd"}, {"eCeCeXvv", "qf"}, {"eXeCvv", "qs"}, {"jzeCrd"},
		{"v", "egeCwd"}, {"v", "egeCeCwd"}, {"v", "egwd"}, {"v", "egweCeCd"}, {"v", "v", "egwqd"}, {"v", "egwqeDd"}, {"v", "eCs"}, {"v", "eCqf"}, {"v", "eDt"}, {"v", "eGtgqs"}, {"v", "eDrqrs"}, {"v", "eNqs"}, {"v", "eNeNqs"}, {"vv", "eXqeCqs"}, {"v", "eXeCqs"}, {"v", "eXqd"}, {"vv", "eXeCqs"}, {"v", "eCqeCqs"}, {"v", "eCfeCqs"}, {"vv", "eCszeCqs"}, {"vv", "szeCqs"}, {"v", "eCeDf"}, {"v", "eGeCeCrgqrs"},
		{"v", "v", "eCqs"}, {"v", "v", "eCeCqs"}, {"v", "v", "eGegqs"}, {"v", "v", "eGeGqgqs"}, {"v", "v", "eDeDf"}, {"v", "v", "eXeCqs"}, {"v", "v", "qeGegqs"}, {"v", "v", "eCeCeCqs"}, {"v", "v", "v", "eCeGegqs"}, {"v", "v", "v", "qs"}, {"v", "v", "eCrqrs"},
		{"v", "eCeC", "eCeCqs"}, {"v", "eCqs", "eC"}, {"v", "eC", "f"}, {"v", "eCqs", "t"}, {"v", "egwqd", "eC"}, {"v", "v", "eCqs", "eC"}, {"v", "qs", "j"}, {"vv", "eCqszqs", "eC"}, {"v", "eCqs", "rr"} };
	for (auto &c : sc) for (int d = 0; d < 2; d++) { if (d && c.size() < 3) continue;
		vs::add("Qex" + std::string(d ? "D" : "") + join(c), "{}", [c, d]() {
			Thread::getMaster(); s = new St; s->gate = 0; { char *m = (char *)malloc(sizeof(QueueExecutor)); memset(m, 0xAA, sizeof(QueueExecutor)); s->x = new(m) QueueExecutor; }
			vs::emitBlock(false);
			for (size_t i = 0; i < c.size(); i++) { std::string p = c[i]; int me = i + 1; auto f = [me, p]() { act(me, p); }; vs::spawn(d ? workerD(f) : worker(f)); }
			vs::go();
		});
	}
}
