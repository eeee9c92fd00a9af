// Heaps, priority queues and the sorting filter.  Items carry a priority and a tag, the order
// looks at the priority only.
#include "seq.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/optional.h"
#include "lightspeed/base/containers/priorityQueue.tcc"
#include "lightspeed/base/iter/sortFilter.tcc"
#include "lightspeed/base/memory/smallAlloc.h"
#include "lightspeed/base/memory/staticAlloc.h"
#include "lightspeed/base/exceptions/outofmemory.h"
#include "lightspeed/base/exceptions/iterator.h"
using namespace LightSpeed;
using namespace seq;
using std::string; using std::vector; using std::to_string;

static int code(const Elem &e) { return e.v * 100 + e.tag; }
struct Less { bool rev; Less(bool rev = false):rev(rev) {} bool operator()(const Elem &a, const Elem &b) const { return rev ? b < a : a < b; } };
template<class A> static vector<int> codes(const A &a, size_t from, size_t to) { vector<int> v; for (size_t i = from; i < to; i++) v.push_back(code(a[i])); return v; }

static void heapHist(int k, bool rev) {
	Rnd r(11, k); next(cfgs("kind", "heap") + "," + cfgb("rev", rev) + "," + cfgi("cap", 0)); begin();
	{
		AutoArray<Elem> arr; HeapSort<AutoArray<Elem>, Less> h(arr, Less(rev)); int tag = 0, range = 1 + r(6);
		int n = 8 + r(30); int grow = 30 + r(50);
		for (int i = 0; i < n; i++) {
			int c = r(100);
			if (c < grow) { Elem e(r(range), tag++ % 100); arr.add(e); if (r.p(80)) { bool b = h.push(); E("op").t("op", "push").i("v", code(e)).b("r", b).i("size", h.getSize()).v("heap", codes(arr, 0, h.getSize())).v("rest", codes(arr, h.getSize(), arr.length())); }
				else { E("op").t("op", "append").i("v", code(e)).b("r", true).i("size", h.getSize()).v("heap", codes(arr, 0, h.getSize())).v("rest", codes(arr, h.getSize(), arr.length())); } }
			else {
				string op; int v = -1, at = -1; bool res = true;
				switch (r(8)) {
				case 0: case 1: op = "pop"; if (h.getSize()) v = code(h.top()); res = h.pop(); break;
				case 2: case 3: op = "popat"; at = r(h.getSize() + 2); if (at < (int)h.getSize()) v = code(arr[at]); res = h.pop(at); break;
				case 4: op = "top"; if (h.getSize() == 0) continue; v = code(h.top()); break;
				case 5: op = "retop"; if (h.getSize() == 0) continue; { Elem e(r(range), tag++ % 100); v = code(e); at = code(arr[0]); arr(0) = e; h.shiftDown(); } break;
				case 6: op = "better"; if (h.getSize() == 0) continue; { Elem e(r(range), 0); v = code(e); res = h.isBetter(e); } break;
				case 7: op = "make"; if (r.p(30)) { op = "remake"; h.clear(); } h.makeHeap(); break;
				}
				E("op").t("op", op).i("v", v).i("at", at).b("r", res).i("size", h.getSize()).v("heap", codes(arr, 0, h.getSize())).v("rest", codes(arr, h.getSize(), arr.length()));
			}
		}
		h.sort();
		E("op").t("op", "sort").v("heap", codes(arr, 0, arr.length())).i("size", h.getSize());
	}
	end();
}
template<class Alloc> static void queueHist(int k, bool rev, int cap, const char *al) {
	typedef PriorityQueue<Elem, Less, Alloc> Q;
	Rnd r(12 + cap, k); next(cfgs("kind", "queue") + "," + cfgb("rev", rev) + "," + cfgi("cap", cap) + "," + cfgs("al", al)); begin();
	{
		Q *q[2] = { new Q(Less(rev)), new Q(Less(rev)) }; int tag = 0, range = 1 + r(6);
		int n = 10 + r(40);
		for (int i = 0; i < n; i++) {
			int s = r.p(80) ? 0 : 1; string op, x; int v = -1, res = -1; bool boom = false;
			switch (r(12)) {
			case 0: case 1: case 2: case 3: case 4: { Elem e(r(range), tag++ % 100); op = "push"; v = code(e); boom = r.p(6); try { if (boom) Watch::boom() = 1; q[s]->push(e); } catch (AllocatorLimitException &) { x = "limit"; } catch (Boom &) { x = "boom"; } Watch::boom() = 0; break; }
			case 5: case 6: case 7: op = "pop"; if (q[s]->empty()) continue; res = code(((const Q *)q[s])->top()); q[s]->pop(); break;
			case 8: op = "top"; if (q[s]->empty()) continue; res = code(q[s]->top()); break;
			case 9: op = "copy"; delete q[1 - s]; q[1 - s] = new Q(*q[s]); break;
			case 10: op = r.p(70) ? "assign" : "selfassign"; if (op == "assign") *q[1 - s] = *q[s]; else *q[s] = *q[s]; break;
			case 11: op = "clear"; if (r.p(60)) continue; q[s]->clear(); break;
			}
			E("op").t("op", op).i("s", s).i("v", v).t("x", x).i("r", res).i("n0", q[s]->length()).i("n1", q[1 - s]->length()).b("e0", q[s]->empty());
		}
		for (int s = 0; s < 2; s++) { vector<int> w; while (!q[s]->empty()) { w.push_back(code(q[s]->top())); q[s]->pop(); } E("op").t("op", "drain").i("s", s).v("w", w).t("x", "").i("v", -1).i("n0", q[s]->length()).i("n1", q[1 - s]->length()).b("e0", q[s]->empty()); }
		delete q[0]; delete q[1];
	}
	end();
}
template<class Alloc> static void filterHist(int k, bool rev, int cap, const char *al) {
	typedef SortFilter<Elem, Less, Alloc> F;
	Rnd r(13 + cap, k); next(cfgs("kind", "filter") + "," + cfgb("rev", rev) + "," + cfgi("cap", cap) + "," + cfgs("al", al)); begin();
	{
		F *f[2] = { new F(Less(rev)), new F(Less(rev)) }; int tag = 0, range = 1 + r(6);
		int n = 10 + r(40);
		for (int i = 0; i < n; i++) {
			int s = r.p(80) ? 0 : 1; string op, x; int v = -1, res = -1;
			switch (r(11)) {
			case 0: case 1: case 2: case 3: case 4: { Elem e(r(range), tag++ % 100); if (!f[s]->needItems() && r.p(70)) continue; op = "in"; v = code(e); try { f[s]->input(e); } catch (WriteIteratorNoSpace &) { x = "nospace"; } break; }
			case 5: case 6: case 7: op = "out"; try { res = code(f[s]->output()); } catch (IteratorNoMoreItems &) { x = "nomore"; } break;
			case 8: op = "copy"; delete f[1 - s]; f[1 - s] = new F(*f[s]); break;
			case 9: op = r.p(70) ? "assign" : "selfassign"; if (op == "assign") *f[1 - s] = *f[s]; else *f[s] = *f[s]; break;
			case 10: op = "clear"; if (r.p(70)) continue; f[s]->clear(); break;
			}
			E("op").t("op", op).i("s", s).i("v", v).t("x", x).i("r", res).b("need", f[s]->needItems()).b("has", f[s]->hasItems()).b("has1", f[1 - s]->hasItems());
		}
		for (int s = 0; s < 2; s++) { vector<int> w; int g = 0; while (f[s]->hasItems() && g++ < 200) w.push_back(code(f[s]->output())); E("op").t("op", "drain").i("s", s).v("w", w).t("x", "").i("v", -1).b("need", f[s]->needItems()).b("has", f[s]->hasItems()).b("has1", f[1 - s]->hasItems()); }
		delete f[0]; delete f[1];
	}
	end();
}
int main(int argc, char **argv) {
	for (int g = 0; g < 4; g++) { string s = to_string(g); bool rev = g & 1; int n = count(90);
		add("heap-" + s, "", [=] { for (int k = 0; k < n; k++) heapHist(k * 4 + g, rev); }, 30);
		add("queue-" + s, "", [=] { for (int k = 0; k < n; k++) queueHist<StdAlloc>(k * 4 + g, rev, 0, "std"); }, 30);
		add("queue-static-" + s, "", [=] { for (int k = 0; k < n / 2; k++) queueHist<StaticAlloc<6> >(k * 4 + g, rev, 6, "static"); }, 30);
		add("queue-small-" + s, "", [=] { for (int k = 0; k < n / 2; k++) queueHist<SmallAlloc<3> >(k * 4 + g, rev, 0, "small"); }, 30);
		add("filter-" + s, "", [=] { for (int k = 0; k < n; k++) filterHist<StdAlloc>(k * 4 + g, rev, 0, "std"); }, 30);
		add("filter-static-" + s, "", [=] { for (int k = 0; k < n; k++) filterHist<StaticAlloc<5> >(k * 4 + g, rev, 5, "static"); }, 30);
	}
	return seq::main(argc, argv);
}
