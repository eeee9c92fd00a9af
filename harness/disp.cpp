// Dispatcher and Scheduler under the explorer.
#include <lightspeed/mt/scheduler.h>
#include <lightspeed/base/actions/idispatcher.tcc>
#include <lightspeed/base/actions/promise.tcc>
#include <lightspeed/base/exceptions/invalidParamException.h>
#include <lightspeed/mt/exceptions/threadException.h>
#include "vsworker.h"
using namespace LightSpeed;
struct St { Scheduler *s; Dispatcher *d; IDispatcher *x; volatile int gate; std::vector<Future<int> *> keep; };
static St *s;
static std::string A(int a) { return vs::kv("a", a) + "," + vs::kv("t", vs::self()) + "," + vs::kv("now", vs::nowMs()); }
static void ev(const char *e, int a) { vs::evraw("\"e\":\"" + std::string(e) + "\"," + A(a)); }
static std::string R(long r) { return vs::kv("r", r) + "," + vs::kv("now", vs::nowMs()); }
struct Obi : Future<int>::IObserver { int a; Obi(int a):a(a) {} virtual void resolve(const int &r) throw() { ev(r == a ? "val" : "bad", a); } virtual void resolve(const PException &) throw() { ev("exc", a); } };
struct Obv : Future<void>::IObserver { int a; Obv(int a):a(a) {} virtual void resolve() throw() { ev("val", a); } virtual void resolve(const Empty &) throw() { ev("val", a); } virtual void resolve(const PException &) throw() { ev("exc", a); } };
static void put(int a, char k, char b);
static void body(int a, char c) { ev("begin", a);
	switch (c) { case 'D': vs::delay(100); break; case 'g': s->gate = 1; break; case 'Q': s->d->quit(); ev("qin", a); break; case 'N': put(a + 4, 'h', 'C'); break; case 'S': Thread::sleep(Timeout(20)); break; }
	ev("end", a); }
struct Hand : IDispatcher::AbstractAction { int a; char b; Hand(int a, char b):a(a), b(b) {} virtual void run() throw() { body(a, b); } virtual void reject() throw() { ev("rej", a); if (b == 'P') put(a + 4, 'h', 'C'); } ~Hand() throw() { ev("del", a); } };
static Promise<int> watched(int a) { Future<int> f; f.addObserver(new Obi(a)); return f.getPromise(); }
static Promise<void> watchedv(int a) { Future<void> f; f.addObserver(new Obv(a)); return f.getPromise(); }
static void put(int a, char k, char b) { IDispatcher &x = *s->x; 
	vs::evraw("\"e\":\"put\"," + A(a) + ",\"k\":\"" + k + "\"");
	switch (k) { case 'h': x.dispatch(static_cast<IDispatcher::AbstractAction *>(new Hand(a, b))); break; case 'l': x.dispatch([a, b]() { body(a, b); }); break;
		case 'F': x.dispatch([a, b]() { body(a, b); return a; }, watched(a)); break; case 'v': x.dispatch(watchedv(a)); break;
		case 'f': { Future<int> src; x.dispatchFuture(src, watched(a)); src.getPromise().resolve(a); } break; }
	ev("puted", a); }
static void act(int me, const std::string &p) { int n = 0;
	for (size_t i = 0; i < p.size(); i++) { char c = p[i];
		switch (c) {
		case 'h': case 'l': case 'F': case 'v': case 'f': { char b = 'C'; if (c != 'v' && c != 'f') b = p[++i]; put(me * 10 + n++, c, b); } break;
		case 'S': { int k = p[++i] - '0', a = me * 10 + n++; Timeout to; { vs::Quiet q; to = Timeout(k * 50); vs::evraw("\"e\":\"sch\"," + A(a) + "," + vs::kv("tm", vs::nowMs() + k * 50)); } s->s->schedule(to, watchedv(a)); ev("puted", a); } break;
		case 'I': { long r = 0; vs::call("inf"); try { Future<void> f; s->s->schedule(Timeout(nil), f.getPromise()); } catch (const InvalidParamException &) { r = 1; } vs::ret("inf", R(r)); } break;
		case 'r': { vs::call("run"); long r = 1; try { s->d->run(); } catch (const ThreadBusyException &) { r = 0; } vs::ret("run", R(r)); } break;
		case 'k': vs::call("quit"); s->d->quit(); vs::ret("quit", R(1)); break;
		case 'j': vs::call("join"); s->d->join(); vs::ret("join", R(1)); break;
		case 'd': vs::call("destroy"); if (s->s) { s->s->~Scheduler(); free(s->s); } else { s->d->~Dispatcher(); free(s->d); } vs::ret("destroy", R(1)); break;
		case 'q': { vs::Quiet q; vs::delay(1000); vs::evraw("\"e\":\"quiet\"," + vs::kv("now", vs::nowMs())); } break;
		case 'w': while (!s->gate) vs::delay(1); break;
		case 'g': s->gate = 1; break;
		case 'D': vs::delay(100); break;
		} }
}
void vs::registerScenarios() {
	std::vector<Progs> sc = { {"d"}, {"hCd"}, {"hCFCvd"}, {"hChQrd"}, {"lClQrd"}, {"hQhCFCvlCrd"}, {"FCFQrd"}, {"vvhQfvrd"}, {"hQrhQrjd"}, {"khQrkhQrd"}, {"hNhQrd"}, {"hQhPrd"}, {"FSvhQrhCd"}, {"fflQrd"},
		{"r", "hgwhCkjd"}, {"r", "hgwhCFCvqkjd"}, {"r", "hgwqkhCjd"}, {"r", "hgwkFCjd"}, {"r", "hgwhQjhCd"}, {"r", "hDhgwkj"}, {"r", "hgwlClClCqkj"}, {"r", "hShClgwk"}, {"rr", "lQqlgwqk"}, {"r", "r", "hgwqk"}, {"rr", "hQqhQ"}, {"r", "rhQ"}, {"r", "hNhNhgwqkj"},
		{"r", "hgwhChC", "hCFC"}, {"r", "hgwk", "hCvC"}, {"r", "hgwk", "wkj"}, {"r", "hgwhCqk", "FCF"}, {"r", "hChQ", "hClC"}, {"r", "FCFQ", "vv"}, {"r", "hgwqkd", "hC"}, {"r", "hgwqkd", "hP"}, {"r", "hgwqkjd", "Fg"}, {"r", "hgwk", "hPhPhC"} };
	std::vector<Progs> ss = { {"S1d"}, {"I"}, {"S1hQrd"}, {"S0S2S1hDhDhQrd"}, {"r", "hgwS0qkjd"}, {"r", "hgwS2S1qkjd"}, {"r", "hgwS1hCkd"}, {"r", "hgwS3S1S2S1qk"}, {"r", "hgwS1S0hDhCqk"}, {"r", "hgwS1", "S0D"}, {"r", "hgwS1Dk", "S0hC"}, {"r", "hgwS2k", "wS1"}, {"rr", "hgwS9S1qkDlQqd"}, {"r", "hgwS1FCvqS0k"}, {"r", "S1hgwqk"}, {"r", "hgwS1S1S1S2S2S0qk"} };
	for (int k = 0; k < 2; k++) for (auto &c : (k ? ss : sc)) for (int d = 0; d < 2; d++) { if (d && c.size() < 3) continue;
		vs::add(std::string(k ? "Sch" : "Dis") + (d ? "D" : "") + join(c), "{}", [c, d, k]() {
			Thread::getMaster(); s = new St; s->gate = 0; size_t sz = k ? sizeof(Scheduler) : sizeof(Dispatcher); char *m = (char *)malloc(sz); memset(m, 0xAA, sz);
			if (k) s->d = s->s = new(m) Scheduler; else { s->s = 0; s->d = new(m) Dispatcher; } s->x = s->d;
			vs::emitBlock(false);
			for (size_t i = 0; i < c.size(); i++) { std::string p = c[i]; int me = i + 1; auto f = [me, p]() { act(me, p); }; vs::spawn(d ? workerD(f) : worker(f)); }
			vs::go();
		});
	}
}
