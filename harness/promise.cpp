// Future / Promise under the explorer.
#include <lightspeed/base/actions/promise.h>
#include <lightspeed/base/actions/promise.tcc>
#include <lightspeed/base/sync/synchronize.h>
#include <lightspeed/base/exceptions/errorMessageException.h>
#include <lightspeed/mt/exceptions/timeoutException.h>
#include <lightspeed/base/text/toString.h>
#include "vsworker.h"
using namespace LightSpeed;
static const long CANC = -1000, OTHER = -999;
class CodeEx : public ErrorMessageException { public: LIGHTSPEED_EXCEPTIONFINAL;
	long code; CodeEx(const ProgramLocation &l, long c):ErrorMessageException(l, String("code")), code(c) {} };
static long codeOf(const Exception &e) {
	const CodeEx *c = dynamic_cast<const CodeEx *>(&e); if (c) return c->code;
	if (dynamic_cast<const CanceledException *>(&e)) return CANC;
	return OTHER;
}
struct St { Future<int> f; std::vector<Promise<int> *> ps; Future<int>::IObserver *obs[16]; std::vector<void *> keep; };
static void told(int o, long v, int map) { vs::evraw("\"e\":\"got\"," + vs::kv("t", vs::self()) + "," + vs::kv("o", o) + "," + vs::kv("v", v) + (map ? "," + vs::kv("map", map) : "")); }
struct Ob : Future<int>::IObserver { int id, map; Ob(int i, int m = 0):id(i),map(m) {}
	virtual void resolve(const int &v) throw() { told(id, v, map); }
	virtual void resolve(const PException &e) throw() { told(id, codeOf(*e), map); } };
static int plus100(const int &v) { return v + 100; }
static int rethrow(const PException &e) { e->throwAgain(THISLOCATION); return 0; }
// r resolve, e reject, c cancel, p drop own promise, a add own observer, x remove it, w wait, t wait 50ms, g tryGet, s state, D delay
// 1 then-chain, 2 operator>> chain, 3 isolate, 4 onException chain, 5 then(promise), 6 transform, 7 thenCall
static std::string g(long r) { return vs::kv("r", r) + "," + vs::kv("now", vs::nowMs()); }
static long doWait(const Future<int> &f, const Timeout &tm) {
	try { return f.wait(tm); } catch (const TimeoutException &) { return 0; } catch (const Exception &e) { return codeOf(e); }
}
static void run(St *s, int me, const std::string &p) {
	int sub = 0; Future<int> f = s->f; int cur = me; bool gone = false;
	for (char c : p) { std::string now = vs::kv("now", vs::nowMs()); switch (c) {
		case 'r': { int v = me * 10 + sub++; vs::call("resolve", vs::kv("v", v) + "," + now); s->ps[me]->resolve(v); vs::ret("resolve", g(0)); } break;
		case 'e': { int v = me * 10 + sub++; vs::call("resolve", vs::kv("v", -v) + "," + now); s->ps[me]->reject(CodeEx(THISLOCATION, -v)); vs::ret("resolve", g(0)); } break;
		case 'c': { vs::call("cancel", vs::kv("v", -500 - me)); long r = f.cancel(CodeEx(THISLOCATION, -500 - me)); vs::ret("cancel", g(r)); } break;
		case 'p': vs::call("drop"); delete s->ps[me]; s->ps[me] = 0; vs::ret("drop", g(0)); break;
		case 'a': if (gone) break; cur = me; vs::call("add", vs::kv("o", cur)); f.addObserver(s->obs[me]); vs::ret("add", g(0)); break;
		case 'b': cur = me + 4; vs::call("add", vs::kv("o", cur)); f.addObserver(s->obs[cur]); vs::ret("add", g(0)); break;
		case 'x': { vs::call("remove", vs::kv("o", me)); long r = f.removeObserver(s->obs[me]); gone = !r; vs::ret("remove", g(r)); } break;
		case 'y': { vs::call("remove", vs::kv("o", me + 4)); long r = f.removeObserver(s->obs[me + 4]); vs::ret("remove", g(r)); } break;
		case 'w': { vs::call("wait"); long r = doWait(f, nil); vs::ret("wait", g(r)); } break;
		case 't': { vs::call("waitTm", vs::kv("dl", vs::nowMs() + 50)); long r = doWait(f, Timeout(50)); vs::ret("waitTm", g(r)); } break;
		case 'g': { vs::call("get"); long r = 0; try { const int *q = f.tryGetValue(); if (q) r = *q; } catch (const Exception &e) { r = codeOf(e); } vs::ret("get", g(r)); } break;
		case 's': { vs::call("state", now); long r = f.getState(); vs::ret("state", g(r)); } break;
		case 'D': vs::delay(100); break;
		case '1': case '2': case '3': case '4': case '5': case '6': case '7': {
			int o = me + 8; vs::call("add", vs::kv("o", o)); int map = 0;
			Ob *ob; Future<int> n(null);
			if (c == '1') { ob = new Ob(o, map = 100); n = f.then(&plus100); n.addObserver(ob); }
			else if (c == '2') { ob = new Ob(o, map = 200); (f >> [](int v) -> int { return v + 100; } >> [](int v) -> int { return v + 100; }).addObserver(ob); }
			else if (c == '3') { ob = new Ob(o); n = f.isolate(); n.addObserver(ob); }
			else if (c == '4') { ob = new Ob(o); n = f.onException(&rethrow); n.addObserver(ob); }
			else if (c == '5') { ob = new Ob(o); Future<int> m; f.then(m.getPromise()); m.addObserver(ob); }
			else if (c == '6') { ob = new Ob(o, map = 100); n = Future<int>::transform(f, &plus100); n.addObserver(ob); }
			else { f.thenCall([o](const int &v) { told(o, v, 0); }, [o](const PException &e) { told(o, codeOf(*e), 0); }); }
			vs::ret("add", g(0)); } break;
	} }
}
// one thread and many observers
static void seqRun(unsigned long seed) {
	Rnd r(seed); Future<int> f; int n = 1 + r(3); std::vector<Promise<int> *> ps; std::string now = vs::kv("now", 0); int busy = 3 + r(9);
	Ob *ob[16]; for (int i = 0; i < 16; i++) ob[i] = new Ob(i); bool reg[16] = {};
	for (int i = 0; i < n; i++) ps.push_back(new Promise<int>(f.getPromise()));
	vs::evraw("\"e\":\"init\"," + vs::kv("n", n)); int alive = n; bool res = false;
	for (int i = 0; i < 40; i++) { int o = r(12);
		int k = r(busy); if (k == 0 && r(3)) k = 9;
		if (k == 0) { int w = r(n); if (ps[w]) switch (r(3)) {
			case 0: vs::call("drop"); delete ps[w]; ps[w] = 0; if (--alive == 0) for (bool &b : reg) b = false; vs::ret("drop", g(0)); break;
			case 1: vs::call("resolve", vs::kv("v", i + 1) + "," + now); ps[w]->resolve(i + 1); res = true; vs::ret("resolve", g(0)); break;
			case 2: vs::call("resolve", vs::kv("v", -i - 1) + "," + now); ps[w]->reject(CodeEx(THISLOCATION, -i - 1)); res = true; vs::ret("resolve", g(0)); break; } if (res) for (bool &b : reg) b = false; }
		else if (k == 1) { vs::call("remove", vs::kv("o", o)); bool x = f.removeObserver(ob[o]); reg[o] = false; vs::ret("remove", g(x)); }
		else if (k == 2 && r(4) == 0) { vs::call("cancel", vs::kv("v", -500 - i)); long x = f.cancel(CodeEx(THISLOCATION, -500 - i)); for (bool &b : reg) b = false; vs::ret("cancel", g(x)); }
		else if (k == 3 && r(3) == 0) { vs::call("get"); long x = 0; try { const int *q = f.tryGetValue(); if (q) x = *q; } catch (const Exception &e) { x = codeOf(e); } vs::ret("get", g(x)); }
		else if (!reg[o]) { vs::call("add", vs::kv("o", o)); reg[o] = !res; f.addObserver(ob[o]); vs::ret("add", g(0)); } }
	vs::call("destroy"); for (auto x : ps) delete x; f = null; vs::ret("destroy", vs::kv("r", 0));
}
void vs::registerScenarios() {
	for (int i = 0; i < seqCount(200); i++) { unsigned long seed = seqSeed() * 1000003 + i; vs::add("FutSeq" + std::to_string(i), "{\"n\":0}", [seed]() { vs::spawn(worker([seed]() { seqRun(seed); })); vs::go(); }); }
	std::vector<Progs> ps = { {"r","w"}, {"e","w"}, {"r","t"}, {"Dr","t"}, {"Dr","tw"}, {"r","r","w"}, {"r","e","w"}, {"r","w","w"}, {"p","w"}, {"rp","pw"}, {"p","p","pw"}, {"c","w"}, {"cr","ww"}, {"cr","t"}, {"c","pt"}, {"r","a"}, {"r","ax"}, {"r","axw"}, {"r","ab","a"}, {"r","abxy"},
		{"r","ab","ax"}, {"r","abx","c"}, {"r","c","a"}, {"rc","a","a"}, {"e","a","w"}, {"e","ax","c"}, {"r","agw"}, {"r","gg","s"}, {"r","ss"}, {"r","as","s"}, {"r","1"}, {"r","2"}, {"r","3"}, {"r","4"}, {"r","5"}, {"r","6"}, {"r","7"}, {"e","1"}, {"e","2"}, {"e","3"}, {"e","4"}, {"e","5"}, {"e","6"}, {"e","7"},
		{"r","1","2"}, {"p","p1"}, {"p","p2"}, {"c","1"}, {"cr","2"}, {"r","1","e"}, {"r","r","a"}, {"r","r","ab"}, {"r","ax","bx"}, {"ar","br"}, {"ra","ra"}, {"rb","ax","c"}, {"rp","p","pw"}, {"r","w","t"}, {"r","t","t"}, {"Dr","t","t"}, {"cp","pw","pa"}, {"r","axa"}, {"r","abxa","w"} };
	for (int d = 0; d < 2; d++) for (auto &p : ps) {
		if (d && (p.size() > 2)) continue;
		vs::add(std::string(d ? "FutD" : "Fut") + join(p), "{\"n\":0}", [p, d]() {
			St *s = new St; s->ps.push_back(0);
			for (size_t i = 0; i < p.size(); i++) s->ps.push_back(new Promise<int>(s->f.getPromise()));
			for (int i = 0; i < 16; i++) s->obs[i] = new Ob(i);
			vs::emitBlock(true);
			vs::evraw("\"e\":\"init\"," + vs::kv("n", p.size()));
			for (size_t i = 0; i < p.size(); i++) { std::string x = p[i]; int me = i + 1; auto f = [s, me, x]() { run(s, me, x); }; vs::spawn(d ? workerD(f) : worker(f)); }
			vs::go();
			vs::call("destroy");
			for (auto x : s->ps) delete x;
			for (auto x : s->ps) (void)x;
			delete s;
			vs::ret("destroy", vs::kv("r", 0));
		});
	}
}
