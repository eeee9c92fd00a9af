// Allocators: clusters of blocks, buffers, pools and objects built in them. The allocator below is a stand-in which records.
#include "seq.h"
#include <lightspeed/base/memory/clusterAlloc.h>
#include <lightspeed/base/memory/poolalloc.h>
#include <lightspeed/base/memory/stdAlloc.h>
#include <lightspeed/base/memory/dynobject.h>
#include <lightspeed/base/memory/rtAlloc.h>
#include <lightspeed/base/exceptions/memoryleakexception.h>
#include <lightspeed/base/exceptions/throws.tcc>
#include <lightspeed/base/exceptions/outofmemory.h>
#include <lightspeed/base/containers/autoArray.tcc>
#include <map>
#include <new>
using namespace LightSpeed; using namespace seq;
static long heldNow = 0;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); heldNow++; return p; }
void operator delete(void *p) noexcept { if (p) { heldNow--; free(p); } }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
struct Below : public IRuntimeAlloc {
	struct Piece { int id; size_t n; };
	std::map<char *, Piece> ps; int last = 0; long want = 0, fail = 0, bad = 0; bool quiet = false;
	void *alloc(natural n) { if (fail && --fail == 0) throw std::bad_alloc(); char *p = (char *)malloc(n); Piece x = {++last, n}; ps[p] = x; if (!quiet) E("grow").i("a", x.id).i("n", n).i("want", want); return p; }
	void *alloc(natural n, IRuntimeAlloc *&o) { o = this; return alloc(n); }
	void dealloc(void *p, natural n) { auto i = ps.find((char *)p); if (i == ps.end() || i->second.n != n) { bad++; if (!quiet) put("{\"e\":\"badshrink\",\"n\":" + std::to_string(n) + "}"); return; } if (!quiet) put("{\"e\":\"shrink\",\"a\":" + std::to_string(i->second.id) + "}"); /* also while an exception passes */ ps.erase(i); free(p); }
	bool where(void *q, int &a, long &off) { auto i = ps.upper_bound((char *)q); if (i == ps.begin()) { a = 0; off = 0; return false; } --i; a = i->second.id; off = (char *)q - i->first; return true; }
	natural getObjectSize() const { return sizeof(*this); }
	Below *clone(IRuntimeAlloc &) const { return 0; } Below *clone() const { return 0; }
};
struct Blk { int k; unsigned char *p; int n; IRuntimeAlloc *o; int mode; unsigned char fill; };
struct Dyn : public DynObject { char d[20]; static bool &boom() { static bool b; return b; } Dyn() { if (boom()) throw Boom(); } };
struct Big : public DynObject { char d[61]; Big() { if (Dyn::boom()) throw Boom(); } };
struct Thing { char d[24]; static bool &boom() { static bool b; return b; } Thing() {} Thing(const Thing &) { if (boom()) throw Boom(); } };
static void drop(Blk &b) { if (b.mode == 9) delete (Dyn *)b.p; else if (b.mode == 10) delete (Big *)b.p; else b.o->dealloc(b.p, b.n); }
// an object built straight in the recording allocator: what is left there
static long direct(Below &dl, bool big) { IRuntimeAlloc &al = dl; try { if (big) delete new(al) Big; else delete new(al) Dyn; } catch (Boom &) {} return dl.ps.size() + dl.bad; }
static void cluster(int seedv) {
	Rnd r(seedv, 1);
	static const int szs[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 33, 40, 63, 64, 100, 129, 500, 0};
	for (int h = 0; h < count(10); h++) {
		next(cfgs("kind", "cluster") + "," + cfgi("cap", 0));
		Below *lo = new Below; ClusterAlloc *ca = r.p(80) ? new ClusterAlloc(*lo) : new ClusterAlloc(static_cast<const ClusterAlloc &>(ClusterAlloc(*lo)));
		std::vector<Blk> bs; int k = 0; int many = r.p(20) ? 400 : r.p(30) ? 20 : 90; int few = 1 + r(6); int mine[6]; for (int i = 0; i < few; i++) mine[i] = szs[r(24)]; int grow = 55;
		int steps = many > 300 ? 700 : 60 + r(100);
		for (int s = 0; s < steps; s++) {
			if (r.p(3)) grow = 20 + r(70);
			int op = r(100);
			if (op < 92) { if ((int)r(100) < grow && (int)bs.size() < many) {
				Blk b; b.k = ++k; b.n = mine[r(few)]; b.mode = r(4); b.o = ca; lo->want = b.n; lo->fail = r.p(2) ? 1 + r(2) : 0; b.fill = r(256);
				try {
					if (b.mode == 0) b.p = (unsigned char *)ca->alloc(b.n);
					else if (b.mode == 1 || bs.empty() || b.n == 0) { b.mode = 1; b.o = 0; b.p = (unsigned char *)ca->alloc(b.n, b.o); }
					else { Blk &x = bs[r(bs.size())]; if (x.o == ca || !x.o) { b.o = 0; b.mode = 1; b.p = (unsigned char *)ca->alloc(b.n, b.o); } else if (b.mode == 2) { b.o = 0; b.p = (unsigned char *)x.o->alloc(b.n, b.o); } else { b.o = ca; b.p = (unsigned char *)x.o->alloc(b.n); } }
					int a; long off; lo->where(b.p, a, off); E("alloc").i("k", b.k).i("n", b.n).i("a", a).i("off", off).i("al", (unsigned long)b.p & 15);
					memset(b.p, b.fill, b.n); bs.push_back(b);
				} catch (std::bad_alloc &) { E("nomem"); }
				lo->fail = 0;
			} else if (!bs.empty()) {
				size_t i = r.p(50) ? r(bs.size()) : r.p(50) ? bs.size() - 1 : 0; Blk b = bs[i]; bs.erase(bs.begin() + i); bool ok = true; for (int j = 0; j < b.n; j++) if (b.p[j] != b.fill) ok = false;
				E("dealloc").i("k", b.k).b("whole", ok); drop(b);
			} }
			else if (op < 94) { // a pointer which is none of its blocks
				int n = mine[r(few)]; bool known = false; for (auto &b : bs) if (b.n == n && b.o) known = true; char *q = new char[64]; bool t = false;
				try { if (known && r.p(50)) { for (auto &b : bs) if (b.n == n && b.o && b.o != ca) { b.o->dealloc(q, n); break; } else if (b.n == n && b.o) { ca->dealloc(q, n); break; } } else ca->dealloc(q, n ? n : 1); } catch (Exception &) { t = true; } E("refused").b("r", t); delete[] q; }
			else if (op < 99) { // objects
				IRuntimeAlloc &al = *ca; Thing::boom() = r.p(40); Dyn::boom() = r.p(40); int a; long off;
				if (r.p(50)) { lo->want = sizeof(Thing); try { Thing *t = al.createInstance(Thing()); int id = ++k; lo->where(t, a, off); E("alloc").i("k", id).i("n", sizeof(Thing)).i("a", a).i("off", off).i("al", (unsigned long)t & 15); E("dealloc").i("k", id).b("whole", true); al.destroyInstance(t); } catch (Boom &) { E("unbuilt"); } }
				else { Below dl; dl.quiet = true; bool big = r.p(50); const int n = big ? 72 : 32; lo->want = n; E("held").i("n", direct(dl, big));
					try { unsigned char *t = big ? (unsigned char *)new(al) Big : (unsigned char *)new(al) Dyn; Blk b; b.k = ++k; b.n = big ? 61 : 20; b.p = t; b.o = 0; b.mode = big ? 10 : 9; b.fill = r(256); lo->where(t, a, off); E("alloc").i("k", b.k).i("n", n).i("a", a).i("off", off).i("al", (unsigned long)t & 15); memset(t, b.fill, b.n); bs.push_back(b); } catch (Boom &) { E("unbuilt"); } }
			}
			else if (r.p(60)) { std::string left; for (auto &b : bs) { int a; long off; lo->where(b.p, a, off); left += (left.empty() ? "[" : ",[") + std::to_string(a) + "," + std::to_string(off) + "," + std::to_string(b.mode == 9 ? 32 : b.mode == 10 ? 72 : b.n) + "]"; }
				std::map<char *, Below::Piece> was = lo->ps; std::string lk; E("clearing"); bool t = false;
				try { ca->clear(); } catch (MemoryLeakException &e) { t = true; struct X : public MemoryLeakException { static const LeakList &get(const MemoryLeakException &e) { return e.*(&X::list); } }; 
					for (MemoryLeakException::LeakList::Iterator i = X::get(e).getFwIter(); i.hasItems();) { const MemoryLeakException::Leak &l = i.getNext(); auto p = was.upper_bound((char *)l.addr); if (p == was.begin()) { lk += (lk.empty() ? "" : ",") + std::string("[0,0,0]"); continue; } --p; lk += (lk.empty() ? "[" : ",[") + std::to_string(p->second.id) + "," + std::to_string((char *)l.addr - p->first) + "," + std::to_string(l.size) + "]"; } }
				E("cleared").k("leaks", "[" + lk + "]").k("left", "[" + left + "]"); bs.clear(); (void)t; }
		}
		for (auto &b : bs) { bool ok = true; for (int j = 0; j < b.n; j++) if (b.p[j] != b.fill) ok = false; E("dealloc").i("k", b.k).b("whole", ok); drop(b); }
		E("clearing"); delete ca; E("cleared").k("leaks", "[]").k("left", "[]");
	}
}
// one buffer: blocks are cut from it in order, the one at the end can be given back
template<class A> static void stackh(A *al, char *base, int cap, Rnd &r, int steps) {
	std::vector<Blk> bs; int k = 0; E("lone");
	for (int s = 0; s < steps; s++) {
		if (r.p(60)) { Blk b; b.k = ++k; b.n = r(r.p(20) ? cap + 5 : 9); b.fill = r(256); b.o = 0;
			try { b.p = (unsigned char *)(r.p(50) ? al->alloc(b.n) : al->alloc(b.n, b.o)); E("alloc").i("k", b.k).i("n", b.n).i("a", 1).i("off", (char *)b.p - base).i("al", 0); memset(b.p, b.fill, b.n); bs.push_back(b); } catch (AllocatorLimitException &) { E("full").i("n", b.n); } }
		else if (!bs.empty()) { bool last = r.p(70); size_t i = last ? bs.size() - 1 : r(bs.size()); if (i + 1 < bs.size()) continue; Blk b = bs[i]; bs.erase(bs.begin() + i); bool ok = true; for (int j = 0; j < b.n; j++) if (b.p[j] != b.fill) ok = false; E("dealloc").i("k", b.k).b("whole", ok); al->dealloc(b.p, b.n); }
	}
}
static void stacks(int seedv) {
	Rnd r(seedv, 2);
	for (int h = 0; h < count(25); h++) { int cap = 1 + r(60); next(cfgs("kind", "stack") + "," + cfgi("cap", cap)); char *buf = new char[cap]; AllocInBuffer al(buf, cap); stackh(&al, buf, cap, r, 40); delete[] buf; }
	for (int h = 0; h < count(8); h++) { next(cfgs("kind", "stack") + "," + cfgi("cap", 48)); AllocAtStack<48> *al = new AllocAtStack<48>; char *base = (char *)al->alloc(0); stackh(al, base, 48, r, 40); delete al; }
}
// pools: blocks from the system, apart, reused, nothing left
static void pools(int seedv) {
	Rnd r(seedv, 3);
	for (int h = 0; h < count(25); h++) {
		next(cfgs("kind", "pool") + "," + cfgi("cap", 0));
		std::vector<Blk> bs; bs.reserve(500); bool multi = r.p(40); long h0 = heldNow; { PoolAlloc *pa = 0; MultiPoolAlloc *ma = 0; IRuntimeAlloc *al; if (multi) al = ma = new MultiPoolAlloc; else al = pa = new PoolAlloc; int steps = 20 + r(80); long bad = 0; bool gone = false;
		auto put = [&](size_t i) { Blk b = bs[i]; bs.erase(bs.begin() + i); for (int j = 0; j < b.n; j++) if (b.p[j] != b.fill) bad++; b.o->dealloc(b.p, b.n); };
		for (int s = 0; s < steps; s++) {
			if (r.p(55)) { Blk b; b.n = r(r.p(20) ? 1400 : 70); b.o = al; b.fill = r(256); b.p = (unsigned char *)(r.p(50) ? al->alloc(b.n) : al->alloc(b.n, b.o)); if ((unsigned long)b.p & 7) bad++; for (auto &x : bs) if (x.p < b.p + b.n && b.p < x.p + x.n) bad++; memset(b.p, b.fill, b.n); bs.push_back(b); }
			else if (!bs.empty()) put(r(bs.size()));
			else if (pa && r.p(30)) pa->freeExtra();
			if (!gone && r.p(1)) { gone = true; al->release(); }
		}
		while (!bs.empty()) put(r(bs.size())); 
		E("held").i("n", bad);
		if (!gone) al->release(); else {}
		if (multi) delete ma; else delete pa; }
		E("held").i("n", heldNow - h0);
	}
}
int main(int argc, char **argv) {
	for (int i = 0; i < 12; i++) add("cluster" + std::to_string(i), "", [i]() { cluster(i); }, 20);
	for (int i = 0; i < 2; i++) add("stack" + std::to_string(i), "", [i]() { stacks(i); }, 20);
	for (int i = 0; i < 3; i++) add("pool" + std::to_string(i), "", [i]() { pools(i); }, 20);
	return seq::main(argc, argv);
}
