// PARTS 2
// Buffered streams over scripted ones (part 0), files in memory and views of random access files (part 1).
#include <lightspeed/base/types.h>
#include <lightspeed/base/streams/fileio.h>
#include <lightspeed/base/streams/fileiobuff.tcc>
#include <lightspeed/base/streams/memfile.tcc>
#include <lightspeed/base/exceptions/iterator.h>
#include <lightspeed/base/exceptions/container.h>
#include <lightspeed/base/exceptions/outofmemory.h>
#include <lightspeed/base/exceptions/errorMessageException.h>
#include <lightspeed/base/memory/smallAlloc.h>
#include <lightspeed/base/memory/staticAlloc.h>
#include <lightspeed/base/exceptions/throws.tcc>
#include <memory>
#include "seq.h"
using namespace LightSpeed; using seq::E; using seq::Rnd;
typedef std::vector<int> V;
static V bv(const void *p, natural n) { const byte *b = (const byte *)p; return V(b, b + n); }
#if PART == 0
// a source which gives pieces, and a target which takes pieces, as the dice fall
struct Script { Rnd &r; natural pos, len, chunk, take; unsigned faults; bool mortal, dead, quiet; int b;
	Script(Rnd &r, int b):r(r), pos(0), len(0), chunk(1), take(1), faults(0), mortal(false), dead(false), quiet(false), b(b) {} };
struct Err {};
static natural pull(Script &s, void *p, natural n, long rd) {
	if (!s.quiet && s.r.p(s.faults)) { E("pullerr").i("rd", rd); throw Err(); }
	natural k = std::min<natural>(std::min<natural>(n, 1 + s.r(s.chunk)), s.len - s.pos);
	byte *o = (byte *)p; for (natural i = 0; i < k; i++) o[i] = (byte)(s.pos++ * 7 % 251);
	E("pull").i("n", n).v("y", bv(p, k)).i("rd", rd); return k; }
static natural push(Script &s, const void *p, natural n) {
	if (!s.quiet && s.r.p(s.faults)) { E("push").i("b", s.b).v("y", bv(p, n)).i("k", -1); throw Err(); }
	if (s.mortal && s.r.p(3)) s.dead = true;
	natural k = s.dead ? 0 : std::min<natural>(n, 1 + s.r(s.take));
	E("push").i("b", s.b).v("y", bv(p, n)).i("k", k); return k; }
struct Both: IInOutStream { Script &s, &t; mutable long rd; Both(Script &s, Script &t):s(s), t(t), rd(0) {}
	virtual natural read(void *p, natural n) { long x = rd; rd = 0; return pull(s, p, n, x); }
	virtual natural peek(void *, natural) const { throw Err(); } virtual bool canRead() const { return s.pos < s.len; }
	virtual natural dataReady() const { rd = s.r(2) ? 1 + s.r(3) : 0; return rd; }
	virtual natural write(const void *p, natural n) { return push(t, p, n); }
	virtual bool canWrite() const { return !t.dead; } virtual void flush() { E("tflush").i("b", t.b); } virtual void closeOutput() { E("tclose").i("b", t.b); } };
struct In: IInputStream { Both x; In(Script &s, Script &t):x(s, t) {}
	virtual natural read(void *p, natural n) { return x.read(p, n); } virtual natural peek(void *p, natural n) const { return x.peek(p, n); }
	virtual bool canRead() const { return x.canRead(); } virtual natural dataReady() const { return x.dataReady(); } };
struct Out: IOutputStream { Script &t; Out(Script &t):t(t) {} virtual natural write(const void *p, natural n) { return push(t, p, n); }
	virtual bool canWrite() const { return !t.dead; } virtual void flush() { E("tflush").i("b", t.b); } virtual void closeOutput() { E("tclose").i("b", t.b); } };
struct Ret { long r; V y; std::string x; Ret():r(0) {} };
template<natural N, natural M> static void history(Rnd &r, int kind, int len) {
	typedef IOBuffer<N> B; typedef IOBuffer<M> C;
	Script s(r, 0), t(r, 0), u(r, 1);
	s.len = r(4) ? 40 + r(200) : r(12); s.chunk = r(3) ? 1 + r(2 * N) : 1000; t.take = r(2) ? 1 + r(N) : 1000; u.take = r(2) ? 1 + r(M) : 1000;
	if (r.p(25)) s.faults = t.faults = u.faults = 3; if (r.p(25)) t.mortal = true; if (r.p(10)) u.mortal = true;
	bool hasIn = kind != 2, hasOut = kind != 1, aut = kind != 2 && r(2);
	seq::next(seq::cfgb("auto", aut) + "," + seq::cfgi("cap", N) + "," + seq::cfgi("cap1", M));
	RefCntPtr<B> b; RefCntPtr<C> c; 
	std::unique_ptr<SeqFileInput> fi; std::unique_ptr<SeqFileOutput> fo, fo1;
	Both *both = 0; In *in = 0;
	if (kind == 0) b = new B(static_cast<IInOutStream *>(both = new Both(s, t))); else if (kind == 1) b = new B(static_cast<IInputStream *>(in = new In(s, t))); else b = new B(static_cast<IOutputStream *>(new Out(t)));
	c = new C(static_cast<IOutputStream *>(new Out(u)));
	if (aut) b->setAutoflush(c.get());
	if (hasIn) fi.reset(new SeqFileInput(static_cast<IInputStream *>(b.get()))); if (hasOut) fo.reset(new SeqFileOutput(static_cast<IOutputStream *>(b.get()))); fo1.reset(new SeqFileOutput(static_cast<IOutputStream *>(c.get())));
	int wn[2] = {0, 0}; bool gone[2] = {false, false};
	auto op = [&](const char *o, int bb, long n, const V &w, std::function<void(Ret &)> f) { Ret q;
		E("call").t("op", o).i("b", bb).i("n", n).v("w", w);
		try { f(q); } catch (const Err &) { q.x = "err"; } catch (const WriteIteratorNoSpace &) { q.x = "nospace"; } catch (const IteratorNoMoreItems &) { q.x = "nomore"; }
		E("ret").i("r", q.r).v("y", q.y).t("x", q.x); };
	std::vector<byte> buf(4096);
	auto bytesOf = [&](const V &w) { std::string x; for (int v : w) x += (char)v; return x; };
	auto fresh = [&](int bb, int n) { V w; for (int i = 0; i < n; i++) w.push_back((wn[bb]++ * 11 + bb * 5) % 253); return w; };
	auto writes = [&](int bb) { return !gone[bb] && !(bb ? u : t).dead; };
	auto doWrite = [&](int bb, int n) { V w = fresh(bb, n); std::string d = bytesOf(w);
		IOutputStream *o = bb ? static_cast<IOutputStream *>(c.get()) : static_cast<IOutputStream *>(b.get()); SeqFileOutput *f = bb ? fo1.get() : fo.get(); Script &z = bb ? u : t;
		int k = r(4);
		if (k == 3 && z.faults == 0) { s.quiet = t.quiet = u.quiet = true; op("writeall", bb, n, w, [&](Ret &q) { q.r = o->writeAll(d.data(), n); }); s.quiet = t.quiet = u.quiet = false; }
		else if (n == 1 && !z.mortal) op("writeall", bb, n, w, [&](Ret &q) { if (k & 1) f->write((byte)d[0]); else f->blockWrite(d.data(), 1, true); q.r = 1; });
		else op("write", bb, n, w, [&](Ret &q) { q.r = o->write(d.data(), n); }); };
	V lastRead;
	for (int i = 0; i < len; i++) {
		int k = r(26); int bb = hasOut ? r(3) == 0 : 1; IOutputBuffer *ob = bb ? static_cast<IOutputBuffer *>(c.get()) : static_cast<IOutputBuffer *>(b.get());
		if (k < 6 && hasIn) { natural n = r(3) ? 1 + r(N + 2) : 1 + r(3); int how = r(4);
			if (how == 3) { s.quiet = t.quiet = u.quiet = true; op("readall", 0, n, V(), [&](Ret &q) { q.r = b->readAll(buf.data(), n); q.y = bv(buf.data(), q.r); lastRead = q.y; }); s.quiet = t.quiet = u.quiet = false; }
			else if (how == 2) op("read", 0, 1, V(), [&](Ret &q) { try { q.y.push_back(fi->getNext()); q.r = 1; } catch (const IteratorNoMoreItems &) {} lastRead = q.y; });
			else op("read", 0, n, V(), [&](Ret &q) { q.r = b->read(buf.data(), n); q.y = bv(buf.data(), q.r); lastRead = q.y; }); }
		else if (k == 6 && hasIn) { natural n = r(4) ? 1 + r(N + 3) : 0; op("peek", 0, n, V(), [&](Ret &q) { q.r = b->peek(buf.data(), n); if (n) q.y = bv(buf.data(), q.r); }); }
		else if (k == 7 && hasIn) op("peek", 0, 1, V(), [&](Ret &q) { try { q.y.push_back(fi->peek()); q.r = 1; } catch (const IteratorNoMoreItems &) {} });
		else if (k == 8 && hasIn) op("canread", 0, 0, V(), [&](Ret &q) { q.r = r(2) ? fi->hasItems() : b->canRead(); });
		else if (k == 9 && hasIn) op("fetch", 0, 0, V(), [&](Ret &q) { q.r = b->fetch(); });
		else if (k == 10 && hasIn) { V w; ConstBin ib = b->getInputBuffer(); natural a = ib.length() ? r(ib.length()) : 0; for (natural j = 0, m = r(3); j < m && a + j < ib.length(); j++) w.push_back(ib[a + j]); if (r(4) == 0) w.push_back(r(251));
			std::string d = bytesOf(w); long n = r(2) ? -1 : (long)r(N + 1); op("lookup", 0, n, w, [&](Ret &q) { natural x = b->lookup(ConstBin((const byte *)d.data(), d.size()), n < 0 ? naturalNull : n); q.r = x == naturalNull ? -1 : (long)x; }); }
		else if ((k == 11 || k == 12) && hasIn) { V w; int m = r(3) ? 1 + r(3) : 1 + r(N); for (int j = 0; j < m; j++) w.push_back(200 + r(50)); if (r(2) && !lastRead.empty()) w = V(lastRead.end() - std::min<size_t>(lastRead.size(), m), lastRead.end());
			if (k == 11) w.resize(1); std::string d = bytesOf(w); op("putback", 0, w.size(), w, [&](Ret &) { b->putBack(ConstBin((const byte *)d.data(), d.size())); }); }
		else if (k == 13 && hasIn) op("ilen", 0, 0, V(), [&](Ret &q) { q.r = b->getInputLength(); ConstBin x = b->getInputBuffer(); q.y = bv(x.data(), x.length()); });
		else if (k == 14 && hasIn) { int n = r(N / 2 + 2); op("discardin", 0, n, V(), [&](Ret &) { b->discardInput(n); }); }
		else if (k == 15 && hasIn) op("ready", 0, 0, V(), [&](Ret &q) { q.r = b->dataReady(); });
		else if (k == 16 && hasIn && r(3) == 0) { int n = r(N); op("reserve", 0, n, V(), [&](Ret &) { b->reserveWrite(n); }); }
		else if (k < 21 && writes(bb)) { int n = r(3) ? 1 + r(4) : 1 + r(2 * N);
			if (r(3) == 0) { long av = 0; op("avail", bb, 0, V(), [&](Ret &q) { q.r = r(2) ? ob->getOutputAvailable() : bb ? c->getWriteSpace() : b->getWriteSpace(); av = q.r; }); if (av > 1 && r(2)) n = av - 1; }
			doWrite(bb, n); }
		else if (k == 21 && !gone[bb]) op("canwrite", bb, 0, V(), [&](Ret &q) { q.r = ob->canWrite(); });
		else if (k == 22 && !gone[bb]) op("olen", bb, 0, V(), [&](Ret &q) { q.r = ob->getOutputLength(); });
		else if (k == 23 && writes(bb)) { natural l = ob->getOutputLength(); int n = r(4) ? r(l + 1) : r(N); op("discardout", bb, n, V(), [&](Ret &) { ob->discardOutput(n); }); }
		else if (k == 24 && writes(bb)) op("flush", bb, 0, V(), [&](Ret &) { if (r(2)) static_cast<IOutputStream *>(ob)->flush(); else (bb ? fo1 : fo)->flush(); });
		else if (k == 25 && writes(bb) && r(6) == 0) { op("close", bb, 0, V(), [&](Ret &) { ob->closeOutput(); }); gone[bb] = true; op("canwrite", bb, 0, V(), [&](Ret &q) { q.r = ob->canWrite(); }); }
	}
	fi.reset(); fo.reset(); fo1.reset();
	op("destroy", 0, 0, V(), [&](Ret &) { b = nil; });
	op("destroy", 1, 0, V(), [&](Ret &) { c = nil; });
	E("end");
}
template<natural N, natural M> static void suite(int cap, int cap1) {
	for (int g = 0; g < 6; g++) seq::add("buff_" + std::to_string(cap) + "_" + std::to_string(cap1) + "_" + std::to_string(g), "", [=]() {
		Rnd r(g, cap * 31 + cap1); for (int h = 0; h < seq::count(40); h++) history<N, M>(r, g % 6 == 4 ? 1 : g % 6 == 5 ? 2 : 0, 30 + r(90)); }, 20);
}
void part0() { suite<6, 5>(6, 5); suite<16, 8>(16, 8); suite<3, 3>(3, 3); suite<40, 16>(40, 16); }
#else
static std::string bs(const V &w) { std::string x; for (int v : w) x += (char)v; return x; }
template<class F> struct Mem { // a file in memory, also through readers and writers of random access files
	static void history(Rnd &r, const char *kind, int len, int cap, std::function<F *(const std::string &)> make, bool fixed) {
		std::string text; if (fixed) for (int i = 0, n = r(30); i < n; i++) text += (char)(i * 13 + 1);
		seq::next(seq::cfgs("kind", kind) + "," + seq::cfgi("cap", cap) + "," + seq::cfgb("fixed", fixed) + ",\"text\":" + seq::bytes(text));
		std::string keep = text;
		RefCntPtr<F> f = make(keep); IInputStream *in = f.get(); IRndFileHandle *rf = f.get();
		RefCntPtr<RndFileReader> rd = new RndFileReader(PRndFileHandle(rf), r(5)); RefCntPtr<RndFileWriter> wr = new RndFileWriter(PRndFileHandle(rf), r(5));
		E("offsets").i("r", rd->getOffset()).i("w", wr->getOffset());
		std::vector<byte> buf(4096); bool shut = false, wshut = false;
		for (int i = 0; i < len; i++) { std::string o, x; long n = 0, at = 0, q = 0; V w, y; 
			auto data = [&](int m) { w.clear(); for (int j = 0; j < m; j++) w.push_back(r(250) + 1); return bs(w); };
			try { switch (r(22)) {
			case 0: case 1: case 2: o = "read"; n = 1 + r(9); q = in->read(buf.data(), n); y = bv(buf.data(), q); break;
			case 3: o = "peek"; n = 1 + r(9); q = in->peek(buf.data(), n); y = bv(buf.data(), q); break;
			case 4: o = "canread"; q = in->canRead(); break;
			case 5: o = "rread"; n = 1 + r(9); at = r(40); q = rf->read(buf.data(), n, at); y = bv(buf.data(), q); break;
			case 6: o = "size"; q = rf->size(); break;
			case 7: o = "setpos"; at = r(r(3) ? 20 : 60); f->setPos(at); break;
			case 8: o = "rdread"; n = 1 + r(9); q = r(2) ? rd->read(buf.data(), n) : rd->readAll(buf.data(), n); y = bv(buf.data(), q); break;
			case 9: o = "rdpeek"; n = 1 + r(9); q = rd->peek(buf.data(), n); y = bv(buf.data(), q); break;
			case 10: o = "rdset"; at = r(40); if (r(2)) { o = "rdcan"; q = rd->canRead(); } else rd->setOffset(at); break;
			case 11: o = "canwrite"; q = more(f.get(), 0, r); break;
			default: if (fixed) { o = "nop"; break; }
				switch (r(9)) {
				case 0: case 1: case 2: { o = "write"; std::string d = data(1 + r(9)); n = d.size(); q = wrt(f.get(), d); break; }
				case 3: { o = "rwrite"; std::string d = data(1 + r(9)); at = r(30); if (shut) { o = "nop"; break; } q = rf->write(d.data(), d.size(), at); break; }
				case 4: o = "setsize"; at = r(40); if (shut) { o = "nop"; break; } rf->setSize(at); break;
				case 5: { o = "wrwrite"; std::string d = data(1 + r(5)); if (shut) { o = "nop"; break; } q = wr->write(d.data(), d.size()); break; }
				case 6: o = "wrset"; at = r(30); wr->setOffset(at); break;
				case 7: if (r(3)) { o = "append"; n = r(2); if (more(f.get(), 1 + n, r) != n) n = 9; } else { o = "clear"; more(f.get(), 3, r); } break;
				case 8: if (r(4)) o = "nop"; else if (r(2)) { o = "close"; more(f.get(), 4, r); shut = true; } else { o = "wrclose"; wr->closeOutput(); wshut = true; } if (o != "nop") break; o = "wrcan"; q = wr->canWrite(); break; }
			} }
			catch (const WriteIteratorNoSpace &) { x = "nospace"; } catch (const AllocatorLimitException &) { x = "limit"; }
			V all; { FS(f.get(), all); }
			E("op").t("op", o).i("n", n).i("at", at).v("w", w).i("r", q).v("y", y).t("x", x).v("c", all); }
	}
	static void FS(F *f, V &all) { byte b; natural n = f->size(); for (natural i = 0; i < n; i++) { all.push_back(f->read(&b, 1, i) == 1 ? b : 999); } }
	template<class A> static long more(MemFile<A> *f, int k, Rnd &) { switch (k) { case 0: return f->canWrite(); case 1: f->setAppendMode(false); return f->isAppendMode(); case 2: f->setAppendMode(true); return f->isAppendMode(); case 3: f->clear(); return 0; default: f->closeOutput(); return 0; } }
	static long more(MemFileStr *f, int, Rnd &) { return f->canWrite(); }
	template<class A> static long wrt(MemFile<A> *f, const std::string &d) { return static_cast<IOutputStream *>(f)->write(d.data(), d.size()); }
	static long wrt(MemFileStr *, const std::string &) { return 0; }
};
template<class F> static void msuite(const char *kind, int cap, bool fixed, std::function<F *(const std::string &)> make) {
	for (int g = 0; g < 3; g++) seq::add(std::string(kind) + std::to_string(g), "", [=]() { Rnd r(g, kind[1] * 31 + kind[3]); for (int h = 0; h < seq::count(40); h++) Mem<F>::history(r, kind, 30 + r(60), cap, make, fixed); }, 20);
}
void part0();
int main(int argc, char **argv) {
	part0();
	msuite<MemFile<> >("mem", 0, false, [](const std::string &) { return new MemFile<>; });
	msuite<MemFile<SmallAlloc<20> > >("memsmall", 0, false, [](const std::string &) { return new MemFile<SmallAlloc<20> >; });
	msuite<MemFile<StaticAlloc<32> > >("memstatic", 32, false, [](const std::string &) { return new MemFile<StaticAlloc<32> >; });
	msuite<MemFileStr>("text", 0, true, [](const std::string &s) { return new MemFileStr(ConstStrA(s.data(), s.size())); });
	return seq::main(argc, argv);
}
#endif
