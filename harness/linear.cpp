// Sequences: Deque, Stack, Queue, LinkedList, AutoArray over several allocators; judged by spec/Linear.tla
#include "seq.h"
#include <memory>
#include <lightspeed/base/types.h>
#include <lightspeed/base/containers/deque.tcc>
#include <lightspeed/base/containers/stack.tcc>
#include <lightspeed/base/containers/queue.tcc>
#include <lightspeed/base/containers/linkedList.h>
#include <lightspeed/base/containers/autoArray.tcc>
#include <lightspeed/base/memory/staticAlloc.h>
#include <lightspeed/base/memory/smallAlloc.h>
#include <lightspeed/base/memory/stdAlloc.h>
#include <lightspeed/base/memory/poolalloc.h>
#include <lightspeed/base/memory/clusterAllocFactory.h>
#include <lightspeed/base/exceptions/outofmemory.h>
#include <lightspeed/base/exceptions/container.h>
#include <lightspeed/base/exceptions/iterator.h>
using namespace LightSpeed;
using seq::E; using seq::Elem; using seq::Rnd; using seq::Watch;
typedef std::vector<long> V;

// a run-time allocator which knows what it gave
struct Heap: IRuntimeAlloc {
	std::set<void *> out; long bad;
	Heap():bad(0) {}
	void *alloc(natural n) { char *p = (char *)malloc(n + 32); out.insert(p + 16); return p + 16; }
	void *alloc(natural n, IRuntimeAlloc *&o) { o = this; return alloc(n); }
	void dealloc(void *p, natural) { if (!out.erase(p)) { bad++; return; } free((char *)p - 16); }
	LIGHTSPEED_CLONEABLECLASS
};

struct Op { int a, b, c; V w; };
struct Box {
	virtual ~Box() {}
	virtual V all() = 0;
	// runs the operation with the given name; o is the other container
	virtual long run(const std::string &op, Op &p, Box &o) = 0;
	virtual Box *copy() = 0;
	virtual std::vector<std::string> ops() = 0;
};
static long val(const Elem &e) { e.alive(); return e.v; }

template<class D> struct DqBox: Box {
	D d; DqBox() {} template<class A> DqBox(const A &a):d(a) {} DqBox(const DqBox &o):d(o.d) {}
	V all() override { V r; for (natural i = 0; i < d.length(); i++) r.push_back(val(const_cast<const D &>(d).at(i))); if (d.empty() != r.empty()) r.push_back(-5); return r; }
	std::vector<std::string> ops() override { return {"pushb", "pushb", "pushb", "pushf", "pushf", "pushf", "popb", "popf", "popb", "popf", "getb", "getf", "at", "set", "mut", "clear", "reserve", "swap", "copy", "boompushb", "boompushf", "drain", "iter"}; }
	Box *copy() override { return new DqBox(*this); }
	long run(const std::string &op, Op &p, Box &o) override {
		const D &c = d;
		if (op == "pushb") { if (p.c & 1) d.pushBack(Elem(p.a)); else d.pushBack(Constructor1<Elem, int>(p.a)); return 0; }
		if (op == "pushf") { if (p.c & 1) d.pushFront(Elem(p.a)); else d.pushFront(Constructor1<Elem, int>(p.a)); return 0; }
		if (op == "boompushb") { Elem e(p.a); Watch::boom() = 1; if (c.isFull()) { Watch::boom() = 0; } d.pushBack(e); return 0; }
		if (op == "boompushf") { Elem e(p.a); Watch::boom() = 1; if (c.isFull()) { Watch::boom() = 0; } d.pushFront(e); return 0; }
		if (op == "popb") { d.popBack(); return 0; }
		if (op == "popf") { d.popFront(); return 0; }
		if (op == "getb") return val(p.c & 1 ? d.getBack() : c.getBack());
		if (op == "getf") return val(p.c & 1 ? d.getFront() : c.getFront());
		if (op == "at") return val(p.c & 1 ? c.at(p.b) : c[p.b]);
		if (op == "set") { d.set(p.b, Elem(p.a)); return 0; }
		if (op == "mut") { if (p.c & 1) d.mutableAt(p.b) = Elem(p.a); else d(p.b) = Elem(p.a); return 0; }
		if (op == "clear") { d.clear(); return 0; }
		if (op == "reserve") { d.reserve(p.b); return 0; }
		if (op == "swap") { d.swap(static_cast<DqBox &>(o).d); return 0; }
		if (op == "drain") { while (d.length() > 1) { p.w.push_back(val(c.getFront())); d.popFront(); } return 0; }
		if (op == "iter") { typename D::Iterator i = p.c & 1 ? d.getFwIter() : d.getBkIter(); while (i.hasItems()) { p.w.push_back(val(i.peek())); i.skip(); } p.b = p.c & 1; return 0; }
		return 0;
	}
};
typedef SmallAlloc<4> Sm;
struct StBox: Box {
	Stack<Elem> d; StBox() {}
	V all() override { return V(); }
	std::vector<std::string> ops() override { return {"push", "push", "push", "pop", "pop", "top", "clear", "len", "copy"}; }
	Box *copy() override { return new StBox(*this); }
	long run(const std::string &op, Op &p, Box &) override {
		if (op == "push") { if (p.c & 1) d.push(Elem(p.a)); else d.push(Constructor1<Elem, int>(p.a)); return 0; }
		if (op == "pop") { d.pop(); return 0; }
		if (op == "top") return val(d.top());
		if (op == "clear") { d.clear(); return 0; }
		if (op == "len") return d.empty() == (d.length() == 0) ? d.length() : -1;
		return 0;
	}
};
struct QuBox: Box {
	Queue<Elem> d; QuBox() {}
	V all() override { return V(); }
	std::vector<std::string> ops() override { return {"push", "push", "push", "pop", "pop", "top", "clear", "len", "copy", "swap"}; }
	Box *copy() override { return new QuBox(*this); }
	long run(const std::string &op, Op &p, Box &o) override {
		const Queue<Elem> &c = d;
		if (op == "push") { if (p.c & 1) d.push(Elem(p.a)); else d.push(Constructor1<Elem, int>(p.a)); return 0; }
		if (op == "pop") { d.pop(); return 0; }
		if (op == "top") return val(p.c & 1 ? c.top() : d.top());
		if (op == "clear") { d.clear(); return 0; }
		if (op == "len") return d.empty() == (d.length() == 0) ? d.length() : -1;
		if (op == "swap") { d.swap(static_cast<QuBox &>(o).d); return 0; }
		return 0;
	}
};
struct LlBox: Box {
	typedef LinkedList<Elem> L; L d; LlBox() {} LlBox(NodeAlloc a):d(a) {} LlBox(const L &o):d(o) {}
	static void rest(L::Iterator i, V &w) { while (i.hasItems()) w.push_back(val(i.getNext())); }
	V all() override { V r; rest(d.getFwIter(), r); if (d.empty() != r.empty() || d.size() != r.size()) r.push_back(-5); return r; }
	std::vector<std::string> ops() override { return {"add", "add", "add", "addit", "insfirst", "insafter", "insafter", "insbefore", "insbefore", "eraseat", "eraseat", "eraseadd", "erasefirst", "getfirst", "getlast", "clear", "copy", "assign", "selfassign", "swap", "boomadd", "eraseall"}; }
	Box *copy() override { return new LlBox(d); }
	L::Iterator at(int i) { L::Iterator x = d.getFwIter(); while (i-- && x.hasItems()) x.skip(); return x; }
	long run(const std::string &op, Op &p, Box &o) override {
		const L &c = d; L &od = static_cast<LlBox &>(o).d;
		if (op == "add") { rest(d.add(Elem(p.a)), p.w); return 0; }
		if (op == "addit") { L::Iterator i = d.add(Elem(p.a)); d.insertAfter(i, Elem(p.a + 1)); rest(i, p.w); return 0; }
		if (op == "insfirst") { rest(d.insertFirst(Elem(p.a)), p.w); return 0; }
		if (op == "insafter") { L::Iterator i = at(p.b), k = d.insertAfter(i, Elem(p.a)); if (p.c & 1) rest(k, p.w); else { rest(d.erase(k), p.w); } return 0; }
		if (op == "insbefore") { L::Iterator i = at(p.b); L::Iterator k = d.insertBefore(i, Elem(p.a)); if (p.c == 1) rest(k, p.w); else if (p.c == 2) rest(d.erase(k), p.w); else rest(d.erase(i), p.w); return 0; }
		if (op == "eraseat") { L::Iterator i = at(p.b); if (!i.hasItems()) return -1; rest(d.erase(i), p.w); return 0; }
		if (op == "eraseadd") { L::Iterator i = d.add(Elem(p.a)); rest(d.erase(i), p.w); return 0; }
		if (op == "eraseall") { L::Iterator i = d.getFwIter(); while (i.hasItems()) if (i.peek().v % 2) i = d.erase(i); else i.skip(); return 0; }
		if (op == "erasefirst") { d.eraseFirst(); return 0; }
		if (op == "getfirst") return val(p.c & 1 ? c.getFirst() : d.getFirst());
		if (op == "getlast") return val(p.c & 1 ? c.getLast() : d.getLast());
		if (op == "clear") { d.clear(); return 0; }
		if (op == "assign") { d = od; return 0; }
		if (op == "selfassign") { L &x = d; d = x; return 0; }
		if (op == "swap") { d.swap(od); return 0; }
		if (op == "boomadd") { Elem e(p.a); Watch::boom() = 1; if (p.c & 1) d.add(e); else d.insertFirst(e); return 0; }
		return 0;
	}
};
template<class A> struct AaBox: Box {
	typedef AutoArray<Elem, A> L; L d; AaBox() {} AaBox(const A &a):d(a) {} AaBox(const L &o):d(o) {}
	V all() override { V r; for (natural i = 0; i < d.length(); i++) r.push_back(val(d.data()[i])); if (d.empty() != r.empty() || d.getAllocatedSize() < d.length()) r.push_back(-5); return r; }
	std::vector<std::string> ops() override { return {"add", "add", "addn", "insn", "insn", "ins", "insarr", "insarr", "eraseit", "erase", "erasen", "erasen", "trunc", "resize", "resizev", "append", "appendit", "appendlim", "clear", "assign", "selfassign", "copy", "swap", "reserve", "freeextra", "write", "insiter", "at", "set", "mut", "boomadd", "boomins"}; }
	Box *copy() override { return new AaBox(d); }
	long run(const std::string &op, Op &p, Box &o) override {
		const L &c = d; L &od = static_cast<AaBox &>(o).d;
		if (op == "add") { d.add(Elem(p.a)); return 0; }
		if (op == "addn") { d.add(Elem(p.a), p.c); return 0; }
		if (op == "ins") { d.insert(p.b, Elem(p.a)); return 0; }
		if (op == "insn") { d.insert(p.b, Elem(p.a), p.c); return 0; }
		if (op == "insarr") { d.insertArray(p.b, od); return 0; }
		if (op == "erase") { d.erase(p.b); return 0; }
		if (op == "eraseit") { typename L::Iterator i = d.getFwIter(); int k = p.b; while (k-- && i.hasItems()) i.skip(); if (!i.hasItems()) return -1; d.erase(i); return 0; }
		if (op == "erasen") { d.erase(p.b, p.c); return 0; }
		if (op == "trunc") { d.trunc(p.c); return 0; }
		if (op == "resize") { d.resize(p.b); return 0; }
		if (op == "resizev") { d.resize(p.b, Elem(p.a)); return 0; }
		if (op == "append") { d.append(od); return 0; }
		if (op == "appendit") { typename L::Iterator i = od.getFwIter(); d.append(i); return 0; }
		if (op == "appendlim") { typename L::Iterator i = od.getFwIter(); d.append(i, p.c); rest(i, p.w); return 0; }
		if (op == "clear") { d.clear(); return 0; }
		if (op == "assign") { d = od; return 0; }
		if (op == "selfassign") { L &x = d; d = x; return 0; }
		if (op == "swap") { if (p.c & 1) d.swap(od); else std::swap(static_cast<AutoArrayT<Elem, A> &>(d), static_cast<AutoArrayT<Elem, A> &>(od)); return 0; }
		if (op == "reserve") { d.reserve(p.b); return 0; }
		if (op == "freeextra") { d.freeExtra(); return 0; }
		if (op == "write") { typename L::WriteIter w = d.getWriteIterator(p.c); int k = p.b; while (w.hasItems() && k-- > 0) w.write(Elem(p.a + (k & 3))), p.w.push_back(p.a + (k & 3)); return w.hasItems(); }
		if (op == "insiter") { typename L::WriteInsertIter w = d.getInsertIterator(p.b, p.c); int k = p.a % 4; while (w.hasItems() && k-- > 0) w.write(Elem(p.a + k)), p.w.push_back(p.a + k); return w.hasItems(); }
		if (op == "at") { if ((natural)p.b >= c.length()) return -1; return val(p.c & 1 ? c.at(p.b) : c[p.b]); }
		if (op == "set") { if ((natural)p.b >= c.length()) return -1; d.set(p.b, Elem(p.a)); return 0; }
		if (op == "mut") { if ((natural)p.b >= c.length()) return -1; d(p.b) = Elem(p.a); return 0; }
		if (op == "boomadd") { Elem e(p.a); d.reserve(d.length() + 1); Watch::boom() = 1; d.add(e); return 0; }
		if (op == "boomins") { Elem e(p.a); d.reserve(d.length() + 4); Watch::boom() = 1; if ((natural)p.b < d.length()) Watch::boom() = d.length() - p.b + 1; d.insert(p.b, e); return 0; }
		return 0;
	}
	static void rest(typename L::Iterator i, V &w) { while (i.hasItems()) w.push_back(val(i.getNext())); }
};

template<class F> static void history(Rnd &r, F make, int len, int range, bool blind) {
	seq::begin();
	{
		std::unique_ptr<Box> b[2] = { std::unique_ptr<Box>(make()), std::unique_ptr<Box>(make()) };
		std::vector<std::string> ops = b[0]->ops();
		int bias = r(4); // some histories only grow, some mostly shrink
		for (int i = 0; i < len; i++) {
			std::string op = ops[r(ops.size())];
			if ((op == "clear" || op == "drain" || op == "eraseall") && r(3)) continue;
			if (bias == 0 && (op.compare(0, 3, "pop") == 0 || op.compare(0, 5, "erase") == 0) && r(2)) continue;
			int s = r(2); Op p = { (int)r(range), (int)r(6 + r(24)), (int)r(5), V() };
			int pb = p.b; (void)pb;
			std::string x; long res = 0;
			long n0 = 0;
			if (op == "insafter" || op == "insbefore" || op == "eraseat") { }
			try {
				if (op == "copy") b[1 - s].reset(b[s]->copy());
				else res = b[s]->run(op, p, *b[1 - s]);
			} catch (const seq::Boom &) { x = "boom"; }
			catch (const IRangeException &) { x = "range"; }
			catch (const ContainerIsEmptyException &) { x = "empty"; }
			catch (const IteratorNoMoreItems &) { x = "end"; }
			catch (const AllocatorLimitException &) { x = "limit"; }
			(void)n0;
			Watch::boom() = 0;
			E e("op"); e.i("s", s).t("op", op).i("v", p.a).i("i", p.b).i("n", p.c).t("x", x).i("r", res < 0 ? 999999 : res).v("w", p.w);
			if (!blind) { e.v("c", b[s]->all()).v("d", b[1 - s]->all()); }
		}
	}
	seq::end();
}
template<class F> static void suite(const char *kind, const char *alloc, int cap, bool blind, F make) {
	std::string cfg = seq::cfgs("kind", kind) + "," + seq::cfgs("alloc", alloc) + "," + seq::cfgi("cap", cap) + "," + seq::cfgb("blind", blind);
	for (int g = 0; g < 4; g++) {
		seq::add(std::string(kind) + "_" + alloc + "_" + std::to_string(g), cfg, [=]() {
			Rnd r(g, kind[0] * 31 + kind[1] + alloc[1] * 7);
			for (int h = 0; h < seq::count(36); h++) { if (h) seq::next(cfg); history(r, make, 30 + r(90), h % 3 ? 50 : 9, blind); }
		}, 20);
	}
}
int main(int argc, char **argv) {
	static Heap heap;
	suite("deque", "std", 0, false, []() -> Box * { return new DqBox<Deque<Elem> >(); });
	suite("deque", "small", 0, false, []() -> Box * { return new DqBox<Deque<Elem, Sm> >(); });
	suite("deque", "smallrt", 0, false, []() -> Box * { return new DqBox<Deque<Elem, Sm> >(Sm(heap)); });
	suite("deque", "static", 12, false, []() -> Box * { return new DqBox<Deque<Elem, StaticAlloc<12> > >(); });
	suite("stack", "std", 0, true, []() -> Box * { return new StBox(); });
	suite("queue", "std", 0, true, []() -> Box * { return new QuBox(); });
	suite("list", "std", 0, false, []() -> Box * { return new LlBox(); });
	suite("list", "pool", 0, false, []() -> Box * { return new LlBox(NodeAlloc(new PoolAlloc)); });
	suite("array", "std", 0, false, []() -> Box * { return new AaBox<StdAlloc>(); });
	suite("array", "small", 0, false, []() -> Box * { return new AaBox<Sm>(); });
	suite("array", "smallrt", 0, false, []() -> Box * { return new AaBox<Sm>(Sm(heap)); });
	suite("array", "static", 12, false, []() -> Box * { return new AaBox<StaticAlloc<12> >(); });
	return seq::main(argc, argv);
}
