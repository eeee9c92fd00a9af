// File services over a real folder: everything happens below one scratch folder, as an unprivileged user.
#include <lightspeed/base/types.h>
#include <lightspeed/base/streams/fileio.h>
#include <lightspeed/base/exceptions/exception.h>
#include <lightspeed/base/exceptions/throws.tcc>
#include <lightspeed/base/containers/string.tcc>
#include <lightspeed/base/interface.tcc>
#include <map>
#include <algorithm>
#include <grp.h>
#include <dirent.h>
#include "seq.h"
using namespace LightSpeed; using seq::E; using seq::Rnd;
typedef std::vector<int> V; typedef std::string S; typedef std::vector<S> P; // a path: names
static V bv(const void *p, natural n) { const byte *b = (const byte *)p; return V(b, b + n); }
static S root; // real path
static const struct { const char *tok, *real; } odd[] = { {"u", "\xc5\xbelu\xc5\xa5 \xe2\x82\xac\xf0\x9d\x84\x9e"}, {"s", "with space;#%~"}, {"L", 0} };
static S longName() { return S(230, 'x'); }
static std::map<S, S> tmpNames; // real names of temporary files
static S realName(const S &tok) { S t = tok, suf; while (t.size() > 4 && t.substr(t.size() - 4) == ".new") { suf += ".new"; t.resize(t.size() - 4); }
	for (auto &o : odd) if (t == o.tok) return (o.real ? S(o.real) : longName()) + suf; auto i = tmpNames.find(t); if (i != tmpNames.end()) return i->second + suf; return tok; }
static S token(const S &real) { S t = real, suf; while (t.size() > 4 && t.substr(t.size() - 4) == ".new") { suf += ".new"; t.resize(t.size() - 4); }
	for (auto &o : odd) if (t == (o.real ? S(o.real) : longName())) return o.tok + suf; for (auto &i : tmpNames) if (i.second == t) return i.first + suf; return real; }
static S real(const P &p) { S s = root; for (auto &n : p) s += "/" + realName(n); return s; }
static P path(const S &real) { P p; if (real.compare(0, root.size(), root)) return P(1, "?outside"); size_t i = root.size(); while (i < real.size()) { size_t j = real.find('/', ++i); if (j == S::npos) j = real.size(); p.push_back(token(real.substr(i, j - i))); i = j; } return p; }
static S jp(const P &p) { S s = "["; for (auto &n : p) { if (s.size() > 1) s += ","; s += "\"" + seq::esc(n) + "\""; } return s + "]"; }
// the same path as the library takes it, followed by something else in memory
struct W { std::wstring s; size_t n; W(const S &u) { for (size_t i = 0; i < u.size();) { unsigned char c = u[i]; int k = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3; wchar_t w = k == 0 ? c : c & (0x3f >> k); for (i++; k--; i++) w = (w << 6) | (u[i] & 0x3f); s += w; } n = s.size(); s += L"junk/../"; }
	operator ConstStrW() const { return ConstStrW(s.data(), n); } };
static S U(ConstStrW w) { StringA a = String::getUtf8(w); return S(a.data(), a.length()); }
static void purge(const S &d) { if (DIR *x = opendir(d.c_str())) { P n; while (dirent *e = readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); closedir(x);
	for (auto &e : n) { S f = d + "/" + e; struct stat st; if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) purge(f); else unlink(f.c_str()); } rmdir(d.c_str()); } }
static S slurp(const S &f) { S s; FILE *x = fopen(f.c_str(), "r"); if (!x) return s; char b[512]; size_t n; while ((n = fread(b, 1, sizeof b, x)) > 0) s.append(b, n); fclose(x); return s; }
static void look(const S &d, S &out) { DIR *x = opendir(d.c_str()); if (!x) return; P n; while (dirent *e = readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); closedir(x);
	for (auto &e : n) { S f = d + "/" + e; struct stat st; if (lstat(f.c_str(), &st)) continue;
		if (out.size() > 1) out += ",";
		P to; if (S_ISLNK(st.st_mode)) { char b[5000]; ssize_t k = readlink(f.c_str(), b, sizeof b); to = path(S(b, k < 0 ? 0 : k)); }
		out += "{\"p\":" + jp(path(f)) + ",\"t\":\"" + (S_ISDIR(st.st_mode) ? "d" : S_ISLNK(st.st_mode) ? "l" : "f") + "\",\"to\":" + jp(to) + ",\"y\":" + (S_ISREG(st.st_mode) ? seq::bytes(slurp(f)) : "[]") + "}";
		if (S_ISDIR(st.st_mode)) look(f, out); } }
static int fds() { int n = 0; DIR *x = opendir("/proc/self/fd"); while (readdir(x)) n++; closedir(x); return n; }
struct Boom {};
struct World {
	Rnd &r; IFileIOServices &svc; int base, next; bool special;
	struct Hnd { PInOutStream s; PRndFileHandle f; bool com; int mode; P path; };
	std::map<int, Hnd> hs; struct T { PTemporaryFile t; int h; P path; }; std::map<int, T> ts;
	World(Rnd &r):r(r), svc(IFileIOServices::getIOServices()), base(fds()), next(1) {}
	S name() { static const char *n[] = {"a", "b", "c", "a", "b", "d", ".h", "u", "s", "L"}; return n[r(10)]; }
	P some() { P p; for (int i = 0, k = 1 + r(10) / 4; i < k; i++) p.push_back(name());
		if (r(3)) { auto all = paths(); if (!all.empty()) { p = all[r(all.size())]; if (p.size() < 4 && r(3) == 0) p.push_back(name()); else if (r(8) == 0) p.back() = name(); } } return p; }
	std::vector<P> paths() { std::vector<P> o; walk(root, P(), o); return o; }
	static void walk(const S &d, P p, std::vector<P> &o) { DIR *x = opendir(d.c_str()); if (!x) return; P n; while (dirent *e = readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); closedir(x); std::sort(n.begin(), n.end());
		for (auto &e : n) { P q = p; q.push_back(token(e)); if (q.back().size() > 4 && q.back().substr(q.back().size() - 4) == ".new" && q.back().size() > 8) continue; o.push_back(q); struct stat st; S f = d + "/" + e; if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) walk(f, q, o); } }
	static S jinfo(IFolderIterator *i, bool named) { S s = "{"; if (named) s += "\"name\":\"" + seq::esc(token(U(i->entryName))) + "\",";
		S t = i->type == IFolderIterator::file ? "f" : i->type == IFolderIterator::directory ? "d" : i->type == IFolderIterator::unknown ? "u" : "?"; 
		if (i->isDirectory() != (t == "d") || i->isFile() != (t == "f") || i->isDot()) t = "?";
		long sub = -1; try { PFolderIterator k = i->openFolder(); sub = 0; while (k->getNext()) sub++; } catch (Exception &) {}
		long size = 0; if (t == "f") size = i->getSize();
		if (t == "f" || t == "d") if (i->getModifiedTime().isNull()) t = "?";
		S m = ""; if (t != "u") switch (i->getAllowedOpenMode()) { case IFileIOServices::fileOpenRead: m = "r"; break; case IFileIOServices::fileOpenWrite: m = "w"; break; case IFileIOServices::fileOpenReadWrite: m = "rw"; break; default: m = "?"; }
		return s + "\"t\":\"" + t + "\",\"link\":" + (i->link ? "true" : "false") + ",\"hidden\":" + (i->hidden ? "true" : "false") + ",\"size\":" + std::to_string(size) + ",\"mode\":\"" + m + "\",\"sub\":" + std::to_string(sub) + "}"; }
	// an entry found by going through its folder, or by asking about it
	PFolderIterator entry(const P &p) { struct stat st; S f = real(p); if (lstat(f.c_str(), &st)) return nil;
		if (r(2)) { if (stat(f.c_str(), &st)) return nil; return svc.getFileInfo(W(f)); }
		P d(p.begin(), p.end() - 1); PFolderIterator i = svc.openFolder(W(real(d))); while (i->getNext()) if (token(U(i->entryName)) == p.back()) return i; return nil; }
	template<class F> void op(E &e, F f) { S x; try { f(); } catch (Exception &ex) { x = "err"; } catch (std::bad_cast &) { x = "cast"; } catch (Boom &) { x = "region"; } done(e, x); }
	void done(E &e, const S &x) { S s = "["; look(root, s); e.t("x", x).i("fds", fds() - base).k("snap", s + "]"); }
	V data(S &d, int m) { V w; d.clear(); for (int j = 0; j < m; j++) { w.push_back(r(255)); d += (char)w.back(); } return w; }
	static const char *mname(int m) { return m == 1 ? "r" : m == 2 ? "w" : m == 3 ? "rw" : m == 4 ? "x" : "a"; }
	void open() { 
		P p = some(); bool sq = r(2); int m = sq ? (r(12) ? 1 + r(2) : 3) : 1 + r(3); OpenFlags::Type fl = 0; S fs = "[";
		auto flag = [&](unsigned pr, OpenFlags::Type f, const char *n) { if (r.p(pr)) { fl |= f; fs += (fs.size() > 1 ? ",\"" : "\"") + S(n) + "\""; } };
		if (m == 1) { flag(10, OpenFlags::create, "create"); flag(7, OpenFlags::commitOnClose, "commit"); flag(7, OpenFlags::deleteOnClose, "del"); }
		else { flag(65, OpenFlags::create, "create"); flag(30, OpenFlags::truncate, "trunc"); if (fl & OpenFlags::create) { flag(15, OpenFlags::newFile, "excl"); flag(25, OpenFlags::createFolder, "mkdirs"); } flag(30, OpenFlags::commitOnClose, "commit"); flag(15, OpenFlags::deleteOnClose, "del"); if (sq) flag(20, OpenFlags::append, "append"); if (r(9) == 0) fl |= OpenFlags::writeThrough; fl |= r(256) & (OpenFlags::accessSeq | OpenFlags::accessRnd | OpenFlags::shareRead | OpenFlags::shareWrite | OpenFlags::shareDelete | OpenFlags::temporary); }
		if (hs.size() >= 4) return;
		int h = next++; Hnd n; n.com = (fl & OpenFlags::commitOnClose) && m != 1; n.mode = m; n.path = p; PFolderIterator via; if (r(4) == 0) via = entry(p);
		{ E e("op"); e.t("op", "open").k("p", jp(p)).t("m", mname(m)).i("h", h).t("kind", sq ? "seq" : "rnd").k("fl", fs + "]");
		W w(real(p)); IFileIOServices::FileOpenMode fm = (IFileIOServices::FileOpenMode)m;
		op(e, [&]() { int pick = r(3); PFolderIterator v = via; via = nil; if (v != nil) { if (sq) n.s = v->openSeqFile(fm, fl); else n.f = v->openRndFile(fm, fl); }
			else if (sq && m == 1 && pick == 0) { SeqFileInput i((ConstStrW)w, fl); n.s = dynamic_cast<IInOutStream *>(i.getStream().get()); }
			else if (sq && m == 2 && pick == 0) { SeqFileOutput i((ConstStrW)w, fl); n.s = dynamic_cast<IInOutStream *>(i.getStream().get()); }
			else if (sq) n.s = svc.openSeqFile(w, fm, fl); else n.f = svc.openRndFile(w, fm, fl); hs[h] = n; }); }
		via = nil; n.s = nil; n.f = nil;
		if (hs.count(h)) { int fd = -1; IFileExtractHandle *x = hs[h].s != nil ? dynamic_cast<IFileExtractHandle *>(hs[h].s.get()) : dynamic_cast<IFileExtractHandle *>(hs[h].f.get()); x->getHandle(&fd, sizeof fd); struct stat st; if (fstat(fd, &st) || !S_ISREG(st.st_mode)) drop(h); }
	}
	void drop(int h) { Hnd n = hs[h];
		if (n.com) { struct stat st; P np = n.path; np.back() += ".new"; bool fine = lstat(real(np).c_str(), &st) == 0 && S_ISREG(st.st_mode) && (lstat(real(n.path).c_str(), &st) || !S_ISDIR(st.st_mode)); if (!fine || r(4) == 0) { n = Hnd(); closeOut(h); n = hs[h]; } }
		hs.erase(h); bool unw = r(4) == 0; E e("op"); e.t("op", "drop").i("h", h).b("b", unw);
		op(e, [&]() { if (unw) { try { PInOutStream s = n.s; PRndFileHandle f = n.f; n = Hnd(); throw Boom(); } catch (Boom &) {} } else n = Hnd(); }); }
	void closeOut(int h) { Hnd n = hs[h]; IOutputStream *o = n.s != nil ? static_cast<IOutputStream *>(n.s.get()) : dynamic_cast<IOutputStream *>(n.f.get()); if (!n.com && n.mode == 3) return;
		E e("op"); e.t("op", "close").i("h", h); op(e, [&]() { if (r(2) && n.s != nil) { SeqFileOutput x(o); x.closeOutput(); } else o->closeOutput(); }); }
	void io() { if (hs.empty()) return; auto it = hs.begin(); std::advance(it, r(hs.size())); int h = it->first; for (int k = 1 + r(4); k--;) io(h); }
	void io(int h) { Hnd n = hs[h]; byte buf[200]; S d; long q = 0, at = 0; V y, w;
		if (n.s != nil) switch (r(12)) {
			case 0: case 1: case 2: { long k = 1 + r(9); E e("op"); e.t("op", "read").i("h", h).i("n", k); op(e, [&]() { q = n.s->read(buf, k); }); e.v("y", bv(buf, q)); break; }
			case 3: { long k = 1 + r(9); E e("op"); e.t("op", "peek").i("h", h).i("n", k); op(e, [&]() { q = n.s->peek(buf, k); }); e.v("y", bv(buf, q)); break; }
			case 4: { E e("op"); e.t("op", "canread").i("h", h); op(e, [&]() { q = r(2) ? n.s->canRead() : SeqFileInput(static_cast<IInputStream *>(n.s.get())).hasItems(); }); e.i("r", q); break; }
			case 5: { E e("op"); e.t("op", "canwrite").i("h", h); op(e, [&]() { q = n.s->canWrite(); }); e.i("r", q); break; }
			case 6: { E e("op"); e.t("op", "flush").i("h", h); op(e, [&]() { n.s->flush(); }); break; }
			case 7: closeOut(h); break;
			default: { w = data(d, 1 + r(20)); E e("op"); e.t("op", "write").i("h", h).v("w", w); op(e, [&]() { q = r(2) ? n.s->write(d.data(), d.size()) : n.s->writeAll(d.data(), d.size()); }); e.i("r", q); break; }
		} else switch (r(9)) {
			case 0: case 1: case 2: { long k = 1 + r(9); at = r(30); E e("op"); e.t("op", "readat").i("h", h).i("n", k).i("at", at); op(e, [&]() { q = n.f->read(buf, k, at); }); e.v("y", bv(buf, q)); break; }
			case 3: { E e("op"); e.t("op", "size").i("h", h); op(e, [&]() { if (n.com && n.mode == 2) q = n.f->size(); else q = n.f->size(); }); e.i("r", q); break; }
			case 4: { long k = r(40); E e("op"); e.t("op", "setsize").i("h", h).i("n", k); op(e, [&]() { n.f->setSize(k); }); break; }
			case 5: if (n.com) closeOut(h); break;
			default: { w = data(d, 1 + r(9)); at = r(30); E e("op"); e.t("op", "writeat").i("h", h).i("at", at).v("w", w); op(e, [&]() { q = n.f->write(d.data(), d.size(), at); }); e.i("r", q); break; }
		} }
	void make() { P p = some(); S d; V w = data(d, 1 + r(30)); if (hs.size() >= 4) return; int h = next++; Hnd n; n.com = false; n.mode = 2; n.path = p;
		{ E e("op"); e.t("op", "open").k("p", jp(p)).t("m", "w").i("h", h).t("kind", "seq").k("fl", "[\"create\",\"trunc\"]"); op(e, [&]() { n.s = svc.openSeqFile(W(real(p)), IFileIOServices::fileOpenWrite, OpenFlags::create | OpenFlags::truncate); hs[h] = n; }); }
		if (n.s == nil) return; long q = 0;
		{ E e("op"); e.t("op", "write").i("h", h).v("w", w); op(e, [&]() { q = n.s->write(d.data(), d.size()); }); e.i("r", q); }
		n = Hnd(); drop(h); }
	void tree() { P p = some(), q = some(); bool b = r(2); S how; PFolderIterator via;
		switch (r(15)) {
		case 0: case 1: case 2: { E e("op"); e.t("op", "mkdir").k("p", jp(p)).b("b", b); op(e, [&]() { svc.createFolder(W(real(p) + (r(8) ? "" : "/")), b); }); break; }
		case 3: { E e("op"); e.t("op", "rmdir").k("p", jp(p)).b("b", b); op(e, [&]() { svc.removeFolder(W(real(p)), b); }); break; }
		case 4: { E e("op"); e.t("op", "remove").k("p", jp(p)); op(e, [&]() { svc.remove(W(real(p))); }); break; }
		case 5: { via = entry(p); if (via == nil) break; E e("op"); e.t("op", "erase").k("p", jp(p)).b("b", b); op(e, [&]() { PFolderIterator v = via; via = nil; v->remove(b); }); break; }
		case 6: case 7: { if (r(3) == 0) via = entry(p); E e("op"); e.t("op", "copy").k("p", jp(p)).k("q", jp(q)).b("b", b); op(e, [&]() { if (via != nil) { PFolderIterator v = via; via = nil; v->copy(W(real(q)), b); } else svc.copy(W(real(p)), W(real(q)), b); }); break; }
		case 8: case 9: { if (r(10) == 0) q = p; if (r(3) == 0) via = entry(p); E e("op"); e.t("op", "move").k("p", jp(p)).k("q", jp(q)).b("b", b); op(e, [&]() { if (via != nil) { PFolderIterator v = via; via = nil; v->move(W(real(q)), b); } else svc.move(W(real(p)), W(real(q)), b); }); break; }
		case 10: { E e("op"); e.t("op", "link").k("p", jp(p)).k("q", jp(q)).b("b", b); op(e, [&]() { svc.link(W(real(p)), W(real(q)), b); }); break; }
		case 11: { struct stat st; E e("op"); e.t("op", "chmod").k("p", jp(p)).b("b", b); op(e, [&]() { if (stat(real(p).c_str(), &st) == 0 && S_ISREG(st.st_mode)) chmod(real(p).c_str(), b ? 0444 : 0666); }); break; }
		case 12: { int m = r(5); long q2 = 0; E e("op"); e.t("op", "can").k("p", jp(p)).t("m", mname(m)); op(e, [&]() { q2 = svc.canOpenFile(W(real(p)), (IFileIOServices::FileOpenMode)m); }); e.i("r", q2); break; }
		case 13: find(); break;
		case 14: { E e("op"); e.t("op", "info").k("p", jp(p)); S i = "{}"; bool ok = true; op(e, [&]() { PFolderIterator v = svc.getFileInfo(W(real(p))); i = jinfo(v.get(), false); ok = U(v->getFullPath()) == real(p) && U(v->entryName) == realName(p.back()) && !v->getNext(); }); e.k("i", i).b("b", ok); break; }
		} }
	void list() { P p = some(); if (r(4) == 0) p.clear(); else if (r(2)) { std::vector<P> d; for (auto &x : paths()) { struct stat st; if (stat(real(x).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) d.push_back(x); } if (!d.empty()) p = d[r(d.size())]; }
		E e("op"); e.t("op", "list").k("p", jp(p)); S is = "["; bool ok = true;
		op(e, [&]() { PFolderIterator i = svc.openFolder(W(real(p))); 
			if (r(3) == 0) { for (int k = r(4); k-- && i->getNext();) ; i->rewind(); }
			while (i->getNext()) { if (is.size() > 1) is += ","; is += jinfo(i.get(), true); ok = ok && U(i->getFullPath()) == real(p) + "/" + U(i->entryName) && U(i->source) == real(p); } 
			ok = ok && !i->getNext(); });
		e.k("is", is + "]").b("b", ok); }
	void find() { std::vector<P> ds; S list, js = "["; for (int i = 0, k = 1 + r(4); i < k; i++) { P p = some(); p.resize(std::min<size_t>(p.size(), 1 + r(2))); if (r(4) == 0) p.clear(); ds.push_back(p); if (i) { list += ":"; js += ","; } list += real(p) + (r(2) ? "/" : ""); js += jp(p); }
		S n = name(); int pos = r(4); long q = 0; E e("op"); e.t("op", "find").t("m", n).i("n", pos).k("dirs", js + "]");
		op(e, [&]() { S f = U(pos == 1 && r(2) ? svc.findFile(W(realName(n)), W(list)) : svc.findFile(W(realName(n)), W(list), pos)); q = f == realName(n) ? 0 : -1; for (size_t i = 0; i < ds.size() && q < 0; i++) if (f == real(ds[i]) + "/" + realName(n)) q = i + 1; });
		e.i("r", q); }
	void map() { P p = some(); struct stat st; if (stat(real(p).c_str(), &st) == 0 && !S_ISREG(st.st_mode)) return; long sz = st.st_size; if (stat(real(p).c_str(), &st)) sz = 0;
		int fm = 1 + r(3), rm = 1 + r(3); bool cow = r(3) == 0, whole = r(2) || sz == 0; long at = whole ? 0 : r(sz), n = whole ? sz : 1 + r(sz - at), k = 0; V w, y, y2; S d;
		if (rm != 1 && n > 0 && r(3)) { k = r(n); w = data(d, 1 + r(n - k)); }
		E e("op"); e.t("op", "map").k("p", jp(p)).t("m", mname(fm)).t("rm", mname(rm)).b("b", cow).i("at", at).i("n", n).i("k", k).v("w", w);
		op(e, [&]() { PFolderIterator via; PMappedFile m = svc.mapFile(W(real(p)), (IFileIOServices::FileOpenMode)fm); typedef IMappedFile::MappedRegion R;
			R *a = whole ? new R(m->map((IFileIOServices::FileOpenMode)rm, cow)) : new R(m->map(at, n, (IFileIOServices::FileOpenMode)rm, cow)); m = nil;
			if (r(2)) { R *b = new R(*a); delete a; a = b; }
			if ((long)a->offset > at || (long)(a->offset + a->size) < at + n) throw Boom();
			byte *q = (byte *)a->address + (at - a->offset); if (rm != 2 && n) y = bv(q, n); for (size_t i = 0; i < d.size(); i++) q[k + i] = d[i]; if (rm != 2 && n) y2 = bv(q, n); if (r(3) == 0) a->sync(); if (r(5) == 0) { a->lock(); a->unlock(); } delete a; });
		e.v("y", y).v("y2", y2); }
	void tmp() { 
		if (ts.size() < 2 && r(2)) { P d = some(); d.pop_back(); bool fixed = r(2); for (auto &x : d) if (x == "L") return; int t = next++, h = next++; S tok = fixed ? name() : "t" + std::to_string(t); if (tok == "L") return; T x; x.h = h; long q = 0; S rel = real(d).substr(5) + "/" + (fixed ? realName(tok) : S("tm")); P p = d; p.push_back(tok);
			if (!fixed) tmpNames[tok] = "tm~0~0"; 
			E e("op"); e.t("op", "tmp").i("t", t).i("h", h).k("p", jp(p)).b("b", fixed);
			S xx; try { x.t = svc.createTempFile(W(rel), !fixed); x.path = p; S f = U(x.t->getFilename()); size_t k = f.rfind('/'); if (!fixed) tmpNames[tok] = f.substr(k + 1); q = x.t->getStream() != nil ? 1 : 0; if (f.substr(0, k) != real(d) || f.substr(k + 1) != realName(tok)) q = 9; ts[t] = x; } catch (Exception &ex) { xx = "err"; if (!fixed) tmpNames.erase(tok); }
			done(e, xx); e.i("r", q); return; }
		if (ts.empty()) return; auto it = ts.begin(); std::advance(it, r(ts.size())); int t = it->first; T x = it->second; it->second.t = nil;
		switch (r(7)) {
		case 0: { E e("op"); e.t("op", "tmpclose").i("h", x.h); op(e, [&]() { x.t->close(); }); it->second = x; break; }
		case 1: { P q = some(); bool b = r(2); E e("op"); e.t("op", "tmprename").i("t", t).i("h", x.h).k("p", jp(q)).b("b", b); op(e, [&]() { x.t->rename(W(real(q)), b); }); it->second = x; break; }
		case 2: { E e("op"); e.t("op", "tmpdetach").i("t", t); op(e, [&]() { x.t->detach(); }); it->second = x; break; }
		case 3: case 4: { it->second = x; if (x.t->getStream() == nil) break; S d; V w = data(d, 1 + r(9)); long q = 0; E e("op"); e.t("op", "write").i("h", x.h).v("w", w); op(e, [&]() { q = x.t->getStream()->write(d.data(), d.size()); }); e.i("r", q); break; }
		default: { ts.erase(it); E e("op"); e.t("op", "tmpdrop").i("t", t).i("h", x.h); op(e, [&]() { x.t = nil; }); }
		} }
	void end() { while (!hs.empty()) drop(hs.begin()->first); while (!ts.empty()) { int t = ts.begin()->first; T x = ts.begin()->second; ts.erase(ts.begin()); E e("op"); e.t("op", "tmpdrop").i("t", t).i("h", x.h); op(e, [&]() { x.t = nil; }); } }
};
static void history(Rnd &r, int kind, int len) {
	seq::next(seq::cfgb("priv", geteuid() == 0)); 
	tmpNames.clear(); purge(root); if (mkdir(root.c_str(), 0755)) _exit(78);
	{ World w(r);
	for (int i = 0; i < len; i++) switch (r(kind == 0 ? 10 : 14)) {
		case 0: case 1: case 2: w.tree(); break;
		case 3: w.list(); break; case 4: w.make(); break; case 5: w.map(); break;
		case 6: w.tmp(); break; 
		case 7: w.open(); break; case 8: w.io(); break; case 9: if (!w.hs.empty() && r(3) == 0) w.drop(w.hs.begin()->first); break;
		case 10: w.open(); break; default: w.io(); break; }
	w.end(); }
	purge(root);
}
int main(int argc, char **argv) {
	char b[] = "/tmp/vfdisk.XXXXXX"; if (!mkdtemp(b)) return 3;
	S top = b, out; for (int i = 1; i < argc - 1; i++) if (S(argv[i]) == "--out") out = argv[i + 1];
	for (int g = 0; g < 8; g++) seq::add("disk_" + std::to_string(g), "", [=]() {
		signal(SIGPIPE, SIG_IGN); umask(022);
		root = top + "/s" + std::to_string(g) + "\xc3\xa9";
		if (geteuid() == 0) { setgroups(0, 0); if (setgid(65534) || setuid(65534)) _exit(78); }
		Rnd r(g, 77); for (int h = 0; h < seq::count(32); h++) history(r, g % 2, 40 + r(60)); }, 60);
	if (chmod(b, 0777)) return 3;
	int rc = seq::main(argc, argv);
	purge(top); return rc;
}
