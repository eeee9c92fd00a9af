// Ordered containers (Map, Set, MultiMap, MultiSet on the AVL tree): random and enumerated
// histories of every operation of the public interface; judged by spec/OrdMap.tla
#include "seq.h"
#include <memory>
#include <algorithm>
#include <lightspeed/base/types.h>
#include <lightspeed/base/containers/map.tcc>
#include <lightspeed/base/containers/set.tcc>
#include <lightspeed/base/memory/poolalloc.h>
#include <lightspeed/base/memory/clusterAlloc.h>
#include <lightspeed/base/memory/clusterAllocFactory.h>
#include <lightspeed/base/memory/stdAlloc.h>
using namespace LightSpeed;
using seq::E; using seq::Elem; using seq::Rnd;
typedef std::vector<long> V;

// order given by an object with a state
struct Ord { bool desc; Ord(bool d = false):desc(d) {}
	bool operator()(const Elem &a, const Elem &b) const { a.alive(); b.alive(); return desc ? b.v < a.v : a.v < b.v; } };

struct Box { // one container of any kind; an element is key*1000+value
	virtual ~Box() {}
	virtual bool ins(int k, int v, V &it) = 0;           // true: the key existed
	virtual bool rep(int k, int v, V &it) { return false; }
	virtual bool del(int k) = 0;
	virtual V find(int k) = 0;
	virtual bool seek(int k, bool back, V &it) = 0;
	virtual bool delAt(int k, bool back, int skip, V &it) = 0; // seek, skip some, erase there, read the rest
	virtual V all(bool back, long &dep, bool &eqok) = 0;
	virtual void turn(int k, int n, V &it) {}              // seek forward, take n, turn round, take the rest
	virtual void clear() = 0;
	virtual long size() = 0;
	virtual long keys() { return size(); }
	virtual bool empty() = 0;
	virtual Box *copy() = 0;
	virtual void assign(Box &o) = 0;
	virtual bool swap(Box &o) { return false; }
	virtual Box *plus(Box &o) { return 0; }
	virtual Box *minus(Box &o) { return 0; }
	virtual Box *plusItem(int k, int v) { return 0; }
	virtual Box *minusItem(int k, int v) { return 0; }
	virtual bool plusEq(Box &o) { return false; }
	virtual bool minusEq(Box &o) { return false; }
	virtual bool plusEqItem(int k, int v) { return false; }
	virtual bool minusEqItem(int k, int v) { return false; }
	virtual int cmp(Box &o) { return 9; }
	virtual bool each(bool back, int stop, V &out) { return false; }
	virtual bool hasEach() { return false; }
	virtual int index(int k) { return -2; }                // -1: not found reported
	virtual bool touch(int k, int &v) { return false; }     // operator()
};
static int cr(CompareResult r) { return r == cmpResultLess ? -1 : r == cmpResultGreater ? 1 : r == cmpResultEqual ? 0 : 5; }

struct MapBox: Box {
	typedef Map<Elem, Elem, Ord> M; M m;
	MapBox(const Ord &o, bool def):m(o) {}
	MapBox(const Ord &o, NodeAlloc a):m(o, a) {}
	MapBox(const M &o):m(o) {}
	static long e(const M::KeyValue &x) { x.key.alive(); x.value.alive(); return x.key.v * 1000L + x.value.v; }
	static void rest(M::Iterator i, V &o) { while (i.hasItems()) { long p = e(i.peek()); long q = e(i.getNext()); o.push_back(p == q ? q : -q); } }
	bool ins(int k, int v, V &it) override { bool ex = (k + v) & 1; M::Iterator i = m.insert(Elem(k), Elem(v), &ex); if (i.hasItems()) it.push_back(e(i.peek())); else it.push_back(-1); return ex; }
	bool rep(int k, int v, V &it) override { M::Iterator i = m.replace(Elem(k), Elem(v)); if (i.hasItems()) it.push_back(e(i.peek())); return true; }
	bool del(int k) override { return m.erase(Elem(k)); }
	V find(int k) override { V r; const Elem *c = const_cast<const M &>(m).find(Elem(k)); Elem *d = m.find(Elem(k)); if (c) r.push_back(k * 1000L + c->v); if ((c != 0) != (d != 0)) r.push_back(-1); return r; }
	bool seek(int k, bool back, V &it) override { bool f = k & 1; M::Iterator i = m.seek(Elem(k), &f, back ? Direction::backward : Direction::forward); rest(i, it); return f; }
	bool delAt(int k, bool back, int skip, V &it) override { M::Iterator i = m.seek(Elem(k), 0, back ? Direction::backward : Direction::forward); while (skip-- && i.hasItems()) i.skip(); if (!i.hasItems()) return false; m.erase(i); rest(i, it); return true; }
	V all(bool back, long &dep, bool &eqok) override { V o; dep = 0; eqok = true; M::Iterator i = back ? m.getBkIter() : m.getFwIter();
		while (i.hasItems()) { long d = i.getMaxDepth(); if (d > dep) dep = d; long p = e(i.peek()); M::Iterator j = m.seek(i.peek().key, 0, back ? Direction::backward : Direction::forward); if (!j.equalTo(i)) eqok = false; long q = e(i.getNext()); if (i.hasItems() && j.equalTo(i)) eqok = false; o.push_back(p == q ? q : -q); } return o; }
	void turn(int k, int n, V &it) override { M::Iterator i = m.seek(Elem(k)); while (n-- && i.hasItems()) it.push_back(e(i.getNext())); if (!i.hasItems()) return; i.setDir(Direction::backward); it.push_back(-9); rest(i, it); }
	void clear() override { m.clear(); }
	long size() override { return m.size() == m.length() ? (long)m.size() : -1; }
	bool empty() override { return m.empty(); }
	Box *copy() override { return new MapBox(m); }
	void assign(Box &o) override { m = static_cast<MapBox &>(o).m; }
	bool swap(Box &o) override { m.swap(static_cast<MapBox &>(o).m); return true; }
	Box *plus(Box &o) override { return new MapBox(m + static_cast<MapBox &>(o).m); }
	Box *minus(Box &o) override { return new MapBox(m - static_cast<MapBox &>(o).m); }
	Box *plusItem(int k, int v) override { return new MapBox(m + M::KeyValue(Elem(k), Elem(v))); }
	Box *minusItem(int k, int v) override { return new MapBox(m - M::KeyValue(Elem(k), Elem(v))); }
	bool plusEq(Box &o) override { m += static_cast<MapBox &>(o).m; return true; }
	bool minusEq(Box &o) override { m -= static_cast<MapBox &>(o).m; return true; }
	bool plusEqItem(int k, int v) override { m += M::KeyValue(Elem(k), Elem(v)); return true; }
	bool minusEqItem(int k, int v) override { m -= M::KeyValue(Elem(k), Elem(v)); return true; }
	int cmp(Box &o) override { return cr(m.compare(static_cast<MapBox &>(o).m)); }
	bool each(bool back, int stop, V &out) override { return m.forEach([&](const M::KeyValue &x) { out.push_back(e(x)); return (int)out.size() == stop; }, back ? Direction::backward : Direction::forward); }
	bool hasEach() override { return true; }
	int index(int k) override { try { return const_cast<const M &>(m)[Elem(k)].v; } catch (const NotFoundException &) { return -1; } }
	bool touch(int k, int &v) override { if (v < 0) v = m(Elem(k)).v; else v = m(Elem(k), Elem(v)).v; return true; }
};

struct SetBox: Box {
	typedef Set<Elem, Ord> M; M m;
	SetBox(const Ord &o, bool def):m(o, createDefaultNodeAllocator()) {}
	SetBox(const Ord &o, NodeAlloc a):m(o, a) {}
	SetBox(const M &o):m(o) {}
	static long e(const Elem &x) { x.alive(); return x.v * 1000L + x.tag; }
	static void rest(M::Iterator i, V &o) { while (i.hasItems()) { long p = e(i.peek()); long q = e(i.getNext()); o.push_back(p == q ? q : -q); } }
	bool ins(int k, int v, V &it) override { bool ex = (k + v) & 1; M::Iterator i = m.insert(Elem(k, v), &ex); it.push_back(i.hasItems() ? e(i.peek()) : -1); return ex; }
	bool del(int k) override { return m.erase(Elem(k)); }
	V find(int k) override { V r; const Elem *c = m.find(Elem(k)); if (c) r.push_back(e(*c)); return r; }
	bool seek(int k, bool back, V &it) override { bool f = k & 1; M::Iterator i = m.seek(Elem(k), &f, back ? Direction::backward : Direction::forward); rest(i, it); return f; }
	bool delAt(int k, bool back, int skip, V &it) override { M::Iterator i = m.seek(Elem(k), 0, back ? Direction::backward : Direction::forward); while (skip-- && i.hasItems()) i.skip(); if (!i.hasItems()) return false; m.erase(i); rest(i, it); return true; }
	V all(bool back, long &dep, bool &eqok) override { V o; dep = 0; eqok = true; M::Iterator i = back ? m.getBkIter() : m.getFwIter();
		while (i.hasItems()) { long d = i.getMaxDepth(); if (d > dep) dep = d; M::Iterator j = m.seek(i.peek(), 0, back ? Direction::backward : Direction::forward); if (!j.equalTo(i)) eqok = false; o.push_back(e(i.getNext())); if (i.hasItems() && j.equalTo(i)) eqok = false; } return o; }
	void turn(int k, int n, V &it) override { M::Iterator i = m.seek(Elem(k)); while (n-- && i.hasItems()) it.push_back(e(i.getNext())); if (!i.hasItems()) return; i.setDir(Direction::backward); it.push_back(-9); rest(i, it); }
	void clear() override { m.clear(); }
	long size() override { return m.size(); }
	bool empty() override { return m.empty(); }
	Box *copy() override { return new SetBox(m); }
	void assign(Box &o) override { m = static_cast<SetBox &>(o).m; }
	bool swap(Box &o) override { m.swap(static_cast<SetBox &>(o).m); return true; }
	Box *plus(Box &o) override { return new SetBox(m + static_cast<SetBox &>(o).m); }
	Box *minus(Box &o) override { return new SetBox(m - static_cast<SetBox &>(o).m); }
	Box *plusItem(int k, int v) override { return new SetBox(m + Elem(k, v)); }
	Box *minusItem(int k, int v) override { return new SetBox(m - Elem(k, v)); }
	bool plusEq(Box &o) override { m += static_cast<SetBox &>(o).m; return true; }
	bool minusEq(Box &o) override { m -= static_cast<SetBox &>(o).m; return true; }
	bool plusEqItem(int k, int v) override { m += Elem(k, v); return true; }
	bool minusEqItem(int k, int v) override { m -= Elem(k, v); return true; }
	int cmp(Box &o) override { return cr(m.compare(static_cast<SetBox &>(o).m)); }
	bool each(bool back, int stop, V &out) override { return m.forEach([&](const Elem &x) { out.push_back(e(x)); return (int)out.size() == stop; }, back ? Direction::backward : Direction::forward); }
	bool hasEach() override { return true; }
};

struct MMapBox: Box {
	typedef MultiMap<Elem, Elem, Ord> M; M m;
	MMapBox(const Ord &o, bool def):m(o) {}
	MMapBox(const Ord &o, NodeAlloc a):m(o, a) {}
	MMapBox(const M &o):m(o) {}
	static long e(const M::KeyValue &x) { x.key.alive(); x.value.alive(); return x.key.v * 1000L + x.value.v; }
	static void rest(M::Iterator i, V &o) { while (i.hasItems()) { long p = e(i.peek()); long q = e(i.getNext()); o.push_back(p == q ? q : -q); } }
	bool ins(int k, int v, V &it) override { M::Iterator i = m.insert(Elem(k), Elem(v)); rest(i, it); return false; }
	bool del(int k) override { return m.erase(Elem(k)); }
	V find(int k) override { V r; M::ListIter i = m.find(Elem(k)); while (i.hasItems()) r.push_back(k * 1000L + i.getNext().v); return r; }
	bool seek(int k, bool, V &it) override { bool f = k & 1; M::Iterator i = m.seek(Elem(k), &f); rest(i, it); return f; }
	bool delAt(int k, bool, int skip, V &it) override { M::Iterator i = m.seek(Elem(k), 0); while (skip-- && i.hasItems()) i.skip(); if (!i.hasItems()) return false; m.erase(i); rest(i, it); return true; }
	V all(bool back, long &dep, bool &eqok) override { V o; dep = 0; eqok = true; M::Iterator i = back ? m.getBkIter() : m.getFwIter(); rest(i, o); M::MapIter q = m.getKeyFwIter(); while (q.hasItems()) { long d = q.getMaxDepth(); if (d > dep) dep = d; q.skip(); } return o; }
	void clear() override { m.clear(); }
	long size() override { return m.size(); }
	long keys() override { return m.keyCount(); }
	bool empty() override { return m.empty(); }
	Box *copy() override { return new MMapBox(m); }
	void assign(Box &o) override { m = static_cast<MMapBox &>(o).m; }
};

struct MSetBox: Box {
	typedef MultiSet<Elem, Ord> M; M m;
	MSetBox(const Ord &o, bool def):m(o, createDefaultNodeAllocator()) {}
	MSetBox(const Ord &o, NodeAlloc a):m(o, a) {}
	MSetBox(const M &o):m(o) {}
	static long e(const Elem &x) { x.alive(); return x.v * 1000L + x.tag; }
	static void rest(M::Iterator i, V &o) { while (i.hasItems()) { long p = e(i.peek()); long q = e(i.getNext()); o.push_back(p == q ? q : -q); } }
	bool ins(int k, int v, V &it) override { M::Iterator i = m.insert(Elem(k, v)); rest(i, it); return false; }
	bool del(int k) override { LinkedList<Elem> l; l.add(Elem(k)); return m.M::Set::erase(l); }
	V find(int k) override { V r; LinkedList<Elem>::Iterator i = m.find(Elem(k)); while (i.hasItems()) r.push_back(e(i.getNext())); return r; }
	bool seek(int k, bool, V &it) override { bool f = k & 1; M::Iterator i = m.seek(Elem(k), &f); rest(i, it); return f; }
	bool delAt(int k, bool, int skip, V &it) override { M::Iterator i = m.seek(Elem(k), 0); while (skip-- && i.hasItems()) i.skip(); if (!i.hasItems()) return false; m.erase(i); rest(i, it); return true; }
	V all(bool back, long &dep, bool &eqok) override { V o; dep = 0; eqok = true; M::Iterator i = back ? m.getBkIter() : m.getFwIter(); rest(i, o); return o; }
	void clear() override { m.clear(); }
	long size() override { return m.size(); }
	long keys() override { return m.keyCount(); }
	bool empty() override { return m.empty(); }
	Box *copy() override { return new MSetBox(m); }
	void assign(Box &o) override { m = static_cast<MSetBox &>(o).m; }
};

static Box *mk(const std::string &kind, bool desc, int alloc) {
	Ord o(desc);
	NodeAlloc a = alloc == 1 ? NodeAlloc(new PoolAlloc) : alloc == 2 ? createDefaultNodeAllocator() : NodeAlloc();
	if (kind == "map") return alloc ? new MapBox(o, a) : new MapBox(o, true);
	if (kind == "set") return alloc ? new SetBox(o, a) : new SetBox(o, true);
	if (kind == "mmap") return alloc ? new MMapBox(o, a) : new MMapBox(o, true);
	return alloc ? new MSetBox(o, a) : new MSetBox(o, true);
}
static void all(Box *b, int s) {
	long d1, d2; bool e1, e2; V f = b->all(false, d1, e1), r = b->all(true, d2, e2);
	E("all").i("s", s).v("f", f).v("r", r).i("n", b->size()).i("nk", b->keys()).b("em", b->empty()).i("dep", d1 > d2 ? d1 : d2).b("eq", e1 && e2);
}
static std::string cfg(const std::string &kind, bool desc) { return seq::cfgs("kind", kind) + "," + seq::cfgb("desc", desc); }

static void history(const std::string &kind, bool desc, int alloc, int K, int n, unsigned long sd) {
	seq::begin();
	Rnd r(sd, kind.size() * 10 + desc);
	Box *b[2] = { mk(kind, desc, alloc), mk(kind, desc, alloc) };
	bool multi = kind[0] == 'm' && kind[1] != 'a';
	int grow = 30 + r(50);
	int sparse = K > 40;
	for (int i = 0; i < n; i++) {
		int s = r.p(sparse ? 10 : 30), o = 1 - s, k = r(K), v = r(900); V it;
		int c = r(100);
		Box *x = b[s], *y = b[o];
		if (c < grow) { bool ex = x->ins(k, v, it); E("ins").i("s", s).i("k", k).i("v", v).b("ex", ex).v("it", it); }
		else if (c < 80) { // shrinking or looking
			switch (r(4)) {
			case 0: { bool ok = x->del(k); E("del").i("s", s).i("k", k).b("ok", ok); break; }
			case 1: { int bk = !multi && r(2), sk = r(3); bool ok = x->delAt(k, bk, sk, it); E("delat").i("s", s).i("k", k).b("bk", bk).i("sk", sk).b("ok", ok).v("it", it); break; }
			case 2: { V f = x->find(k); E("find").i("s", s).i("k", k).v("it", f); break; }
			case 3: { int bk = !multi && r(2); bool f = x->seek(k, bk, it); E("seek").i("s", s).i("k", k).b("bk", bk).b("ok", f).v("it", it); break; }
			}
		} else switch (r(multi ? 4 : 16)) {
			case 0: if (r.p(20)) { x->clear(); E("clear").i("s", s); } break;
			case 1: { Box *z = x->copy(); delete x; b[s] = z; E("copy").i("s", s); break; }
			case 2: if (r.p(40)) { x->assign(*y); E("assign").i("s", s); } break;
			case 3: if (r.p(30)) { x->assign(*x); E("selfassign").i("s", s); } break;
			case 4: if (x->swap(*y)) E("swap").i("s", s); break;
			case 5: if (Box *z = x->plus(*y)) { all(z, 9); delete z; E("plus").i("s", s); } break;
			case 6: if (Box *z = x->minus(*y)) { all(z, 9); delete z; E("minus").i("s", s); } break;
			case 7: if (Box *z = x->plusItem(k, v)) { all(z, 9); delete z; E("plusitem").i("s", s).i("k", k).i("v", v); } break;
			case 8: if (Box *z = x->minusItem(k, v)) { all(z, 9); delete z; E("minusitem").i("s", s).i("k", k).i("v", v); } break;
			case 9: if (r.p(30)) { if (x->plusEq(*y)) E("pluseq").i("s", s); } else if (x->plusEqItem(k, v)) E("pluseqitem").i("s", s).i("k", k).i("v", v); break;
			case 10: if (r.p(30)) { if (x->minusEq(*y)) E("minuseq").i("s", s); } else if (x->minusEqItem(k, v)) E("minuseqitem").i("s", s).i("k", k).i("v", v); break;
			case 11: { int q = x->cmp(*y); if (q != 9) E("cmp").i("s", s).i("r", q + 10); break; }
			case 12: if (x->hasEach()) { int st = r(6); int bk = r(2); bool f = x->each(bk, st, it); E("each").i("s", s).i("st", st).b("bk", bk).b("ok", f).v("it", it); } break;
			case 13: { int q = x->index(k); if (q != -2) E("index").i("s", s).i("k", k).i("r", q + 1); break; }
			case 14: { int q = r(2) ? -1 : v; int in = q; if (x->touch(k, q)) E("touch").i("s", s).i("k", k).i("v", in + 1).i("r", q); break; }
			case 15: if (x->rep(k, v, it)) E("rep").i("s", s).i("k", k).i("v", v).v("it", it); else { int m = r(4); x->turn(k, m, it); V j; for (long q : it) j.push_back(q == -9 ? 999999 : q); E("turn").i("s", s).i("k", k).i("m", m).v("it", j); } break;
		}
		if (!multi && r.p(3)) { int m = r(4); V jt, j; b[s]->turn(k, m, jt); for (long q : jt) j.push_back(q == -9 ? 999999 : q); E("turn").i("s", s).i("k", k).i("m", m).v("it", j); }
		if (!sparse || i % 16 == 15) all(b[s], s);
	}
	all(b[0], 0); all(b[1], 1);
	delete b[0]; delete b[1];
	seq::end();
}

// every insertion order of n keys, then erasing all of them in some order: all shapes of the tree
static void perms(const std::string &kind, int n, int part, int parts) {
	std::vector<int> p; for (int i = 0; i < n; i++) p.push_back(i * 2);
	int c = 0; Rnd r(n, part);
	do {
		if (c++ % parts != part) continue;
		seq::next();
		seq::begin();
		{ std::unique_ptr<Box> b(mk(kind, false, 0)); V it;
		for (int k : p) { it.clear(); bool ex = b->ins(k, k, it); E("ins").i("s", 0).i("k", k).i("v", k).b("ex", ex).v("it", it); }
		all(b.get(), 0);
		std::vector<int> q(p); for (int i = n - 1; i > 0; i--) std::swap(q[i], q[r(i + 1)]);
		for (int k : q) { it.clear();
			if (r(2)) { bool ok = b->del(k); E("del").i("s", 0).i("k", k).b("ok", ok); }
			else { int bk = r(2); bool ok = b->delAt(k, bk, 0, it); E("delat").i("s", 0).i("k", k).b("bk", bk).i("sk", 0).b("ok", ok).v("it", it); }
			all(b.get(), 0); } }
		seq::end();
	} while (std::next_permutation(p.begin(), p.end()));
}

#include <memory>
#include <algorithm>
int main(int argc, char **argv) {
	static const char *kinds[] = { "map", "set", "mmap", "mset" };
	for (const char *k : kinds) for (int desc = 0; desc < 2; desc++) for (int al = 0; al < 3; al++) {
		static const int Ks[] = { 4, 9, 30, 120, 400 }; static const int ns[] = { 40, 60, 120, 260, 700 };
		for (int z = 0; z < 5; z++) {
			int reps = seq::count(z < 3 ? 6 : 1);
			for (int i = 0; i < reps; i++) {
				std::string kk = k; int K = Ks[z], n = ns[z]; unsigned long sd = i * 131 + z * 17 + al * 3;
				seq::add(std::string("OrdMap_") + k + "_" + (desc ? "desc" : "asc") + "_a" + std::to_string(al) + "_k" + std::to_string(K) + "_" + std::to_string(i), cfg(k, desc), [=]() { history(kk, desc, al, K, n, sd); });
			}
		}
	}
	int pn = seq::thorough() ? 7 : 6;
	for (int i = 0; i < 16; i++) seq::add("OrdMap_perms_map_" + std::to_string(i), cfg("map", false), [=]() { perms("map", pn, i, 16); }, 60);
	for (int i = 0; i < 4; i++) seq::add("OrdMap_perms_set_" + std::to_string(i), cfg("set", false), [=]() { perms("set", 5, i, 4); }, 60);
	return seq::main(argc, argv);
}
