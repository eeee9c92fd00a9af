// Smart pointers: histories over several handles; the objects say when they are built and destroyed.
#include "seq.h"
#include "lightspeed/base/memory/sharedPtr.h"
#include "lightspeed/base/memory/refCntPtr.h"
#include "lightspeed/base/memory/allocPointer.h"
#include "lightspeed/mt/fastlock.h"
using namespace LightSpeed;
using namespace seq;
using std::string; using std::vector; using std::to_string;

static std::set<int> live; static int fresh; static int twice;
struct Obj : RefCntObj { int id; Obj():id(++fresh) { live.insert(id); } Obj(const Obj &o):RefCntObj(),id(++fresh) { live.insert(id); } ~Obj() { if (!live.erase(id)) twice++; id = -1; } };
enum { N = 6 };
template<class P> static int idOf(const P &p) { return p == nil ? 0 : p->id; }
template<class H> static void done(const char *op, int a, int b, int o, int res, H &h) {
	vector<int> v; for (int i = 0; i < N; i++) v.push_back(idOf(*h[i]));
	E("op").t("op", op).i("a", a).i("b", b).i("o", o).i("r", res).v("h", v).v("live", live).i("twice", twice);
}
static void start(const char *kind) { next(cfgs("kind", kind)); live.clear(); fresh = 0; twice = 0; E("start").t("kind", kind); }

static void shared(Rnd &r) {
	typedef SharedPtr<Obj> P; start("shared"); P *h[N]; for (int i = 0; i < N; i++) h[i] = new P; int steps = 10 + r(50); int gone = 0;
	for (int s = 0; s < steps; s++) { int a = r(N), b = r(N), o = 0, res = 0; const char *op;
		switch (r(9)) {
		case 0: op = "new"; *h[a] = P(new Obj); o = fresh; break;
		case 1: op = "new"; { P *x = h[a]; delete x; h[a] = new P(new Obj); o = fresh; } break;
		case 2: case 3: op = "set"; *h[a] = *h[b]; break;
		case 4: op = "copy"; if (a == b) continue; delete h[a]; h[a] = new P(*h[b]); break;
		case 5: op = "reset"; delete h[a]; h[a] = new P(nil); break;
		case 6: op = "count"; res = h[a]->count(); break;
		case 7: op = "isshared"; res = h[a]->isShared(); break;
		case 8: op = "redirect"; { if (!r.p(30)) continue; Obj *old = *h[a] == nil ? 0 : h[a]->get(); Obj *n = new Obj; o = fresh; h[a]->redirect(n); delete old; } break;
		}
		done(op, a, b, o, res, h);
	}
	for (int i = 0; i < N; i++) { delete h[i]; h[i] = new P; done("reset", i, 0, 0, 0, h); }
	E("end").v("live", live).i("twice", twice);
}
// group around an object which is not owned
static void fixedObj(Rnd &r) {
	typedef SharedPtr<Obj> P; start("static"); P *h[N]; Obj *st = new Obj, *st2 = new Obj; E("statics").v("o", vector<int>({ 1, 2 }));
	SharedStaticPtr<Obj> *m = new SharedStaticPtr<Obj>(st); h[0] = m; for (int i = 1; i < N; i++) h[i] = new P; int steps = 10 + r(30);
	done("static", 0, 0, 1, 0, h);
	for (int s = 0; s < steps; s++) { int a = 1 + r(N - 1), b = r(N), o = 0, res = 0; const char *op;
		switch (r(6)) {
		case 0: op = "new"; *h[a] = P(new Obj); o = fresh; break;
		case 1: case 2: op = "set"; *h[a] = *h[b]; break;
		case 3: op = "reset"; delete h[a]; h[a] = new P; break;
		case 4: op = "count"; res = h[b]->count(); a = b; break;
		case 5: op = "static"; if (!r.p(40)) continue; a = 0; o = r.p(50) ? 1 : 2; *m = o == 1 ? st : st2; break;
		}
		done(op, a, b, o, res, h);
	}
	delete m; h[0] = new P; done("unstatic", 0, 0, 0, 0, h);
	for (int i = 0; i < N; i++) { delete h[i]; h[i] = new P; done("reset", i, 0, 0, 0, h); }
	delete st; delete st2;
	E("end").v("live", live).i("twice", twice);
}
static void counted(Rnd &r) {
	typedef RefCntPtr<Obj> P; start("counted"); P *h[N]; for (int i = 0; i < N; i++) h[i] = new P; int steps = 10 + r(60);
	for (int s = 0; s < steps; s++) { int a = r(N), b = r(N), o = 0, res = 0; const char *op;
		switch (r(13)) {
		case 0: op = "new"; *h[a] = new Obj; o = fresh; break;
		case 1: op = "new"; h[a]->create(); o = fresh; break;
		case 2: op = "new"; h[a]->attach(new Obj); o = fresh; break;
		case 3: op = "set"; *h[a] = *h[b]; break;
		case 4: op = "set"; if (a == b) continue; delete h[a]; h[a] = new P(*h[b]); break;
		case 5: op = "set"; if (idOf(*h[a]) == idOf(*h[b])) continue; h[a]->attach(h[b]->get()); break;
		case 6: op = "move"; *h[a] = std::move(*h[b]); break;
		case 7: op = "move"; if (a == b) continue; delete h[a]; h[a] = new P(std::move(*h[b])); break;
		case 8: op = "reset"; h[a]->clear(); break;
		case 9: op = "reset"; *h[a] = nil; break;
		case 10: op = "isshared"; res = h[a]->isShared(); break;
		case 11: op = "detach"; if (*h[a] == nil || h[a]->isShared()) continue; { Obj *x = h[a]->detach(); res = x->id; done(op, a, 0, 0, res, h); op = "back"; *h[b] = x; a = b; o = res; } break;
		case 12: op = "clone"; if (*h[b] == nil) continue; h[a]->create(*h[b]->get()); o = fresh; break;
		}
		done(op, a, b, o, res, h);
	}
	for (int i = 0; i < N; i++) { delete h[i]; h[i] = new P; done("reset", i, 0, 0, 0, h); }
	E("end").v("live", live).i("twice", twice);
}
static void owned(Rnd &r) {
	typedef AllocPointer<Obj> P; start("owned"); P *h[N]; for (int i = 0; i < N; i++) h[i] = new P; int steps = 10 + r(60);
	for (int s = 0; s < steps; s++) { int a = r(N), b = r(N), o = 0, res = 0; const char *op;
		switch (r(9)) {
		case 0: op = "new"; *h[a] = new Obj; o = fresh; break;
		case 1: op = "new"; h[a]->create(); o = fresh; break;
		case 2: op = "new"; h[a]->attach(new Obj); o = fresh; break;
		case 3: op = "clone"; if (a == b) continue; *h[a] = *h[b]; o = *h[b] == nil ? 0 : fresh; break;
		case 4: op = "clone"; if (a == b) continue; delete h[a]; h[a] = new P(*h[b]); o = *h[b] == nil ? 0 : fresh; break;
		case 5: op = "reset"; if (r.p(50)) h[a]->clear(); else *h[a] = nil; break;
		case 6: op = "detach"; if (*h[a] == nil) continue; { Obj *x = h[a]->detach(); res = x->id; done(op, a, 0, 0, res, h); op = "back"; h[b]->attach(x); a = b; o = res; } break;
		case 7: op = "swap"; if (r.p(50)) h[a]->swap(*h[b]); else std::swap(*h[a], *h[b]); break;
		case 8: op = "nop"; *h[a] = *h[a]; break;
		}
		done(op, a, b, o, res, h);
	}
	for (int i = 0; i < N; i++) { delete h[i]; h[i] = new P; done("reset", i, 0, 0, 0, h); }
	E("end").v("live", live).i("twice", twice);
}
// the ring itself: members of several rings join, leave and merge
struct Ring : SharedResource {
	Ring() {} Ring(const Ring &o):SharedResource(o) {} Ring(const Ring &o, FastLock *l):SharedResource(o, l) {}
	using SharedResource::shareWith; using SharedResource::merge; using SharedResource::makeAssign;
	struct Cnt { int *n; Cnt(int *n):n(n) {} bool operator()(const SharedResource *, const SharedResource *) { ++*n; return true; } bool operator()(SharedResource *, SharedResource *) { ++*n; return true; } };
	int each() { int n = 0; forEachInstance(Cnt(&n)); return n; } int eachC() const { int n = 0; forEachInstance(Cnt(&n)); return n; }
};
static void rings(Rnd &r) {
	typedef Ring P; start("ring"); P *h[N]; for (int i = 0; i < N; i++) h[i] = new P; int steps = 10 + r(60); FastLock lk;
	for (int s = 0; s < steps; s++) { int a = r(N), b = r(N), res = 0; const char *op;
		switch (r(10)) {
		case 0: op = "reset"; h[a]->unshare(r.p(50) ? &lk : (FastLock *)0); break;
		case 1: op = "reset"; delete h[a]; h[a] = new P; break;
		case 2: op = "copy"; if (a == b) continue; *h[a] = *h[b]; break;
		case 3: op = "copy"; if (a == b) continue; delete h[a]; h[a] = r.p(50) ? new P(*h[b]) : new P(*h[b], r.p(50) ? &lk : 0); break;
		case 4: op = "copy"; if (a == b) continue; h[a]->shareWith(h[b]); break;
		case 5: op = "copy"; if (a == b) continue; h[a]->makeAssign(*h[b]); break;
		case 6: op = "count"; res = h[a]->count(); break;
		case 7: op = "isshared"; res = h[a]->isShared(); break;
		case 8: op = "count"; res = r.p(50) ? h[a]->each() : h[a]->eachC(); break;
		case 9: op = "merge"; if (a == b) continue; { bool same = false; int n = h[a]->count(); P probe(*h[b]); same = h[a]->count() != n; if (!same) { probe.unshare((FastLock *)0); h[a]->merge(*h[b]); } if (same) continue; } break;
		}
		E("op").t("op", op).i("a", a).i("b", b).i("o", 0).i("r", res).v("h", vector<int>(N, 0)).v("live", live).i("twice", 0);
	}
	for (int i = 0; i < N; i++) delete h[i];
	E("end").v("live", live).i("twice", 0);
}
int main(int argc, char **argv) {
	for (int sh = 0; sh < 8; sh++) add("ptrs/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(25); i++) { Rnd r(i * 8 + sh, 700); shared(r); counted(r); owned(r); fixedObj(r); rings(r); }
	}, 40);
	return seq::main(argc, argv);
}
