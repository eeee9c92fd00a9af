// Thread life cycle, sleep/wake-up, finish flag, TLS and hooks under the explorer.
#include <lightspeed/mt/threadHook.h>
#include <lightspeed/base/sync/threadVar.h>
#include <lightspeed/base/exceptions/errorMessageException.h>
#include <lightspeed/mt/exceptions/threadException.h>
#include "vsworker.h"
using namespace LightSpeed;
struct Tls { int x; Tls(int x):x(x) {} ~Tls() { vs::evraw("\"e\":\"tlsdel\"," + vs::kv("x", x)); } };
struct St { Thread *T[12]; std::string body[3]; ThreadVar<Tls> var; ThreadVar<Tls> *late[12]; int hooks; int bad; bool stop;
	int of(Thread &t) { for (int i = 0; i < 12; i++) if (T[i] == &t) return i; return -1; } };
static St *s;
struct Hook : AbstractThreadHook { int id; Hook(int i):id(i) {}
	void ev(const char *k, Thread &t) { int x = s->of(t); if (x >= 0) vs::evraw("\"e\":\"hook\",\"k\":\"" + std::string(k) + "\"," + vs::kv("h", id) + "," + vs::kv("x", x)); }
	virtual void onThreadInit(Thread &t) { ev("init", t); if (s->bad == id && s->of(t) == 0) throw ErrorMessageException(THISLOCATION, String("hook")); }
	virtual void onThreadExit(Thread &t) { ev("exit", t); }
	virtual void onThreadException(Thread &t) throw() { ev("exc", t); } };
static std::string X(int x) { return vs::kv("x", x); }
static std::string R(long r) { return vs::kv("r", r) + "," + vs::kv("now", vs::nowMs()); }
static std::string T_(int t) { return vs::kv("t", t); }
static void bcall(int x, const char *op, const std::string &m = "") { vs::evraw("\"e\":\"bcall\"," + X(x) + ",\"op\":\"" + op + "\"" + (m.empty() ? "" : "," + m)); }
static void bret(int x, const char *op, long r) { vs::evraw("\"e\":\"bret\"," + X(x) + ",\"op\":\"" + op + "\"," + R(r)); }
static long nap(const Timeout &tm) { natural reason = 4242; bool to = Thread::sleep(tm, reason); return to ? -3 : (reason == naturalNull ? -1 : (long)reason); }
// body: S sleep, T sleep 50, L until canFinish, C canFinish, V set TLS, N new thread variable, X throw, I current thread, D delay
static void bodyOps(int x, const std::string &p) {
	for (char c : p) switch (c) {
		case 'S': bcall(x, "sleep"); bret(x, "sleep", nap(nil)); break;
		case 'T': bcall(x, "sleepTm", vs::kv("dl", vs::nowMs() + 50)); bret(x, "sleepTm", nap(Timeout(50))); break;
		case 'L': for (;;) { bcall(x, "canFinish"); bool f = Thread::canFinish(); bret(x, "canFinish", f); if (f) break; bcall(x, "sleep"); bret(x, "sleep", nap(nil)); } break;
		case 'C': { bcall(x, "canFinish"); bool f = Thread::canFinish(); bret(x, "canFinish", f); } break;
		case 'V': bcall(x, "tls"); s->var.set(ITLSTable::getInstance(), new Tls(x), &deleteFunction<Tls>); bret(x, "tls", 0); break;
		case 'N': bcall(x, "tls"); if (!s->late[x]) s->late[x] = new ThreadVar<Tls>; s->late[x]->set(ITLSTable::getInstance(), new Tls(x), &deleteFunction<Tls>); bret(x, "tls", 0); break;
		case 'I': bcall(x, "cur"); { int r = s->of(Thread::current()); Tls *v = s->var[ITLSTable::getInstance()]; if (v && v->x != x) r = 99; bret(x, "cur", r); } break;
		case 'D': vs::delay(100); break;
		case 'X': throw ErrorMessageException(THISLOCATION, String("x"));
	}
}
struct EndGuard { int x; bool ok; EndGuard(int x):x(x), ok(false) {} ~EndGuard() { vs::evraw("\"e\":\"end\"," + X(x) + "," + vs::kv("exc", !ok)); } };
static void body(int x) { EndGuard g(x); vs::evraw("\"e\":\"begin\"," + X(x)); bodyOps(x, s->body[x]); g.ok = true; }
static void act(int me, const std::string &p) {
	int mine = 2 + me;
	for (size_t i = 0; i < p.size(); i++) { char c = p[i]; int x = (i + 1 < p.size() && p[i + 1] >= '0' && p[i + 1] <= '9') ? p[++i] - '0' : 0;
		Thread *t = s->T[x];
		switch (c) {
		case 's': case 'F': { long r = 0; vs::call("start", X(x) + (c == 'F' ? ",\"fail\":1" : ""));
			try { if (c == 'F') t->start(ThreadFunction::create([x]() { body(x); }), (natural)1 << 60); else *t >> [x]() { body(x); }; }
			catch (const ThreadBusyException &) { r = -1; } catch (const Exception &e) { r = -2; }
			vs::ret("start", R(r)); } break;
		case 'j': vs::call("join", X(x)); t->join(); vs::ret("join", R(0)); break;
		case 'f': vs::call("finish", X(x)); t->finish(); vs::ret("finish", R(0)); break;
		case 'o': vs::call("stop", X(x)); t->stop(); vs::ret("stop", R(0)); break;
		case 'k': { int r = me * 10 + (int)i; vs::call("wake", X(x) + "," + vs::kv("v", r)); t->wakeUp(r); vs::ret("wake", R(0)); } break;
		case 'K': { while (!s->T[x] || !s->T[x]->isRunning()) vs::delay(1); int r = me * 10 + (int)i; vs::call("wake", X(x) + "," + vs::kv("v", r)); s->T[x]->wakeUp(r); vs::ret("wake", R(0)); } break;
		case 'r': { vs::call("running", X(x)); long r = t->isRunning(); vs::ret("running", R(r)); } break;
		case 'q': { vs::call("finishing", X(x)); long r = t->isFinishing(); vs::ret("finishing", R(r)); } break;
		case 'd': vs::call("destroy", X(x)); delete t; vs::ret("destroy", R(0)); break;
		case 'u': while (t->isRunning()) vs::delay(1); break;
		case 'D': vs::delay(100); break;
		case 'a': case 'b': { Thread *n = s->T[mine] = new Thread; vs::call("attach", X(mine)); bool r = n->attach(c == 'a'); vs::ret("attach", R(r)); } break;
		case 'B': { Thread n; vs::call("attach", X(11)); bool r = n.attach(true); vs::ret("attach", R(r)); } break;
		case 'e': vs::call("detach", X(mine)); delete s->T[mine]; vs::ret("detach", R(0)); mine += 3; break;
		case 'S': case 'T': case 'C': case 'V': case 'I': bodyOps(mine, std::string(1, c)); break;
	} }
}
void vs::registerScenarios() {
	struct Sc { const char *b; Progs a; int hooks, bad; };
	std::vector<Sc> sc = { {"C", {"s0j0"}}, {"VC", {"s0j0r0"}}, {"NVI", {"s0j0"}}, {"X", {"s0j0r0"}}, {"VX", {"s0d0"}}, {"X", {"s0j0s0j0"}}, {"C", {"s0j0s0j0"}}, {"L", {"s0f0j0"}}, {"L", {"s0o0"}}, {"L", {"s0d0"}}, {"LV", {"s0q0f0q0j0r0"}},
		{"S", {"s0k0j0"}}, {"SS", {"s0k0k0"}}, {"T", {"s0k0j0"}}, {"T", {"s0j0"}}, {"TS", {"s0k0k0"}}, {"C", {"s0r0u0d0"}}, {"CX", {"s0u0d0"}}, {"VC|VX", {"s0s1j0j1"}}, {"L|L", {"s0s1f1j1q0f0q1j0"}},
		{"C", {"s0", "s0"}}, {"C", {"s0j0", "j0"}}, {"S", {"s0j0", "k0"}}, {"SS", {"s0j0", "k0k0"}}, {"S", {"s0j0", "k0", "k0"}}, {"T", {"s0j0", "k0k0"}}, {"L", {"s0j0", "f0"}}, {"L", {"s0j0", "k0", "f0"}}, {"L", {"s0j0", "q0r0f0q0"}}, {"X", {"s0j0", "j0r0"}},
		{"I|I", {"s0j0", "s1j1"}}, {"VI|VI", {"s0d0", "s1d1"}}, {"C", {"F0r0j0s0j0"}}, {"C", {"F0d0"}}, {"C", {"F0", "s0"}}, {"C", {"s0", "s0j0r0"}}, {"S", {"s0k0s0k0j0", "k0k0"}}, {"S", {"s0k0j0s0s0k0j0", "j0"}}, {"C", {"s0j0s0s0j0", "j0"}}, {"ST", {"s0k0k0j0"}}, {"LC", {"s0o0s0o0"}}, {"S", {"s0k0j0k0s0j0"}},
		{"", {"!bS", "K3"}}, {"", {"!bSS", "K3K3"}}, {"", {"!bTIB", "K3"}}, {"", {"!aVIeaIe"}}, {"", {"!aTeaTeaT"}}, {"", {"!bVIebIT"}}, {"", {"!aBCe"}}, {"", {"!aS", "!aS", "K3K4"}}, {"", {"!aeaS", "D"}},
		{"VC", {"s0j0"}, 2}, {"X", {"s0j0"}, 2}, {"C", {"s0j0r0"}, 2, 1}, {"C", {"s0j0r0"}, 2, 2}, {"C", {"s0d0"}, 3, 2}, {"C|C", {"s0j0", "s1j1"}, 2}, {"", {"!aCe"}, 2}, {"VC|VX", {"s1s0j0j1"}, 2, 2} };
	for (auto &c : sc) for (int d = 0; d < 2; d++) { if (d && (c.a.size() < 2 || c.a[0][0] == '!')) continue;
		std::string n = "Thr" + std::string(d ? "D_" : "_") + c.b + (c.hooks ? "_H" + std::to_string(c.hooks) + std::to_string(c.bad) : "") + join(c.a);
		for (auto &ch : n) if (ch == '|') ch = '.'; else if (ch == '!') ch = 'u';
		vs::add(n, "{\"hooks\":" + std::to_string(c.hooks) + "}", [c, d]() {
			Thread::getMaster(); s = new St; s->hooks = c.hooks; s->bad = c.bad; s->stop = false;
			for (int i = 0; i < 12; i++) { s->T[i] = i < 3 ? new Thread : 0; s->late[i] = 0; }
			std::string b = c.b; int k = 0; for (char ch : b) if (ch == '|') k++; else s->body[k] += ch;
			for (int i = 1; i <= c.hooks; i++) (new Hook(i))->install();
			vs::emitBlock(false);
			vs::evraw("\"e\":\"init\"," + vs::kv("hooks", c.hooks) + "," + vs::kv("bad", c.bad));
			for (size_t i = 0; i < c.a.size(); i++) { std::string p = c.a[i]; int me = i + 1;
				if (p[0] == '!') vs::spawn([me, p]() { vs::parkForGo(); act(me, p.substr(1)); });
				else { auto f = [me, p]() { act(me, p); }; vs::spawn(d ? workerD(f) : worker(f)); } }
			vs::go();
		});
	}
}
