// Weak references under the explorer: an object is not gone while somebody holds it locked, and nobody gets it afterwards.
#include <lightspeed/base/memory/weakref.h>
#include <lightspeed/mt/thread.h>
#include "vsworker.h"
using namespace LightSpeed;
struct Obj { volatile int data; Obj():data(7) {} };
struct St { Obj *obj; WeakRefTarget<Obj> *tg; WeakRef<Obj> *w[5]; };
static void use(Obj *o) { if (o->data != 7) vs::evraw("\"e\":\"bad\""); }
// l lock use unlock, L lock, lock a copy of the lock, unlock both, q lock through a copy of the reference, D delay 50ms, Y lock, hold for 50ms, unlock;
// owner: N set null and delete the object, X the target dies, then the object, R target gets another object
static void run(St *s, int t, const std::string &p) {
	for (char c : p) switch (c) {
		case 'l': case 'Y': case 'q': {
			WeakRef<Obj> *w = c == 'q' ? new WeakRef<Obj>(*s->w[t]) : s->w[t];
			vs::call("lock"); { WeakRefPtr<Obj> k(w->lock()); vs::ret("lock", rb(k != nil)); if (k != nil) use(k.get()); if (c == 'Y') vs::delay(50); if (c == 'q') delete w; if (k != nil) use(k.get()); vs::call("unlock"); } vs::ret("unlock", rb(true)); } break;
		case 'L': { vs::call("lock"); WeakRefPtr<Obj> *k = new WeakRefPtr<Obj>(s->w[t]->lock()); bool a = *k != nil; vs::ret("lock", rb(a)); 
			vs::call("lock"); WeakRefPtr<Obj> *j = new WeakRefPtr<Obj>(*k); bool b = *j != nil; vs::ret("lock", rb(b)); 
			vs::call("unlock"); delete k; vs::ret("unlock", rb(true)); if (b) use(j->get()); vs::call("unlock"); delete j; vs::ret("unlock", rb(true)); } break;
		case 'N': { OPV("null", "", s->tg->setNull()); s->obj->data = 0; delete s->obj; s->obj = 0; } break;
		case 'X': { OPV("null", "", delete s->tg); s->tg = 0; delete s->obj; s->obj = 0; } break;
		case 'R': { Obj *n = new Obj; OPV("null", "", *s->tg = n); delete s->obj; s->obj = n; } break;
		case 'D': vs::delay(50); break;
	}
}
void vs::registerScenarios() {
	std::vector<Progs> ps = { {"N","l"}, {"X","l"}, {"N","l","l"}, {"X","L"}, {"N","ll"}, {"NX","l"}, {"X","q","l"}, {"DN","Y"}, {"DX","Y","l"}, {"R","l"}, {"DR","Y"}, {"RN","lq"}, {"X","L","l"}, {"NR","l"}, {"X","Y","Y"}, {"X","l","q","l"} };
	for (int d = 0; d < 2; d++) for (auto &p : ps) {
		if (d && p.size() > 3) continue;
		vs::add(std::string(d ? "WeakD" : "Weak") + join(p), "{\"n\":0}", [p, d]() {
			St *s = new St; s->obj = new Obj; s->tg = new WeakRefTarget<Obj>(s->obj);
			for (size_t i = 0; i < p.size(); i++) s->w[i + 1] = new WeakRef<Obj>(*s->tg);
			vs::emitBlock(true);
			for (size_t i = 0; i < p.size(); i++) { std::string x = p[i]; int t = i + 1; auto f = [s, t, x]() { run(s, t, x); }; vs::spawn(d ? workerD(f) : worker(f)); }
			vs::go();
			WeakRef<Obj> e; WeakRefPtr<Obj> k(e.lock()); vs::evraw(std::string("\"e\":\"empty\",\"res\":") + (k != nil ? "true" : "false"));
		});
	}
}
