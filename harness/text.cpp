// PARTS 3
// Texts: written by a pattern, read by a pattern, numbers and lines.
#include "seq.h"
#include <lightspeed/base/types.h>
#include <lightspeed/base/text/textFormat.tcc>
#include <lightspeed/base/text/textOut.tcc>
#include <lightspeed/base/text/textParser.tcc>
#include <lightspeed/base/text/textIn.tcc>
#include <lightspeed/base/text/textLineReader.h>
#include <lightspeed/base/text/toString.tcc>
#include <lightspeed/base/exceptions/throws.tcc>
#include <lightspeed/base/containers/autoArray.tcc>
#include <cmath>
#include <algorithm>
#include <memory>
using namespace LightSpeed; using seq::E; using seq::Rnd; using std::to_string;
typedef std::wstring W; typedef std::string S;
namespace {
S js(const W &w) { S s = "["; for (auto c : w) { if (s.size() > 1) s += ","; s += to_string((long)c); } return s + "]"; }
S js(const S &w) { return seq::bytes(w); }
template<class T> S js(ConstStringT<T> c) { return js(std::basic_string<T>(c.data(), c.length())); }
S jb(bool b) { return b ? "true" : "false"; }
S jl(const std::vector<S> &v) { S s = "["; for (auto &x : v) { if (s.size() > 1) s += ","; s += x; } return s + "]"; }
W wide(const S &s) { return W(s.begin(), s.end()); }
// text in memory which is not ours follows the text
template<class T> struct Mem { std::basic_string<T> s; size_t n; std::unique_ptr<T[]> exact;
	Mem(const W &w, bool tight = false):s(w.begin(), w.end()),n(s.size()) { if (tight) { exact.reset(new T[n ? n : 1]); std::copy(s.begin(), s.end(), exact.get()); } for (auto c : "a1%_ \n") s += c; }
	operator ConstStringT<T>() const { return ConstStringT<T>(exact ? exact.get() : s.data(), n); } };
S mag(unsigned long long v) { S s = "["; for (int i = 7; i >= 0; i--) s += (s.size() > 1 ? "," : "") + to_string((int)((v >> (8 * i)) & 255)); return s + "]"; }
unsigned long long bigNum(Rnd &r) { static const unsigned long long e[] = {0, 1, 9, 10, 35, 36, 255, 256, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL, 10000000000000000000ULL};
	switch (r(3)) { case 0: return e[r(16)]; case 1: return r(200); default: return r.raw() >> r(64); } }

// ------------------------------------------------------------- writing
template<class T> struct Out: AutoArray<T> {};
struct Piece { W t; S j; };
struct Fmt {
	Rnd &r; bool wideT; std::vector<Piece> ps; Fmt(Rnd &r, bool w):r(r),wideT(w) {}
	W num(int n) { return wide(to_string(n)); }
	void gen(int nargs, bool simple) { 
		int n = 1 + r(6); wchar_t nx = 0; // made from the end, the next character decides about the closing %
		for (int i = 0; i < n; i++) { Piece p; int k = r(10);
			if (i == 0 && k == 9) { p.t = L"%"; p.j = "{\"t\":\"lone\"}"; }
			else if (k < 5) { int sg = 0, fill = 0, w = 0, post = 0; W f; if (!simple && r(2)) { w = 1 + r(12); if (r(2)) sg = "+-"[r(2)]; if (r(2)) fill = "0 *x._"[r(6)]; if (r(5) == 0) post = "*x."[r(3)];
					f = L"{"; if (sg) f += (wchar_t)sg; if (fill) f += (wchar_t)fill; f += num(w); if (post) f += (wchar_t)post; f += L"}"; }
				int id = r(8) ? 1 + r(nargs + 1) : r(2) * 40; bool pct = nx == '%' || (nx >= '0' && nx <= '9') || r(2);
				p.t = L"%" + f + num(id) + (pct ? L"%" : L"");
				p.j = "{\"t\":\"arg\",\"id\":" + to_string(id) + ",\"pct\":" + jb(pct) + ",\"f\":{\"sg\":" + to_string(sg) + ",\"fill\":" + to_string(fill) + ",\"w\":" + to_string(w) + ",\"post\":" + to_string(post) + "}}"; }
			else if (k == 5) { p.t = L"%%"; p.j = "{\"t\":\"pct\"}"; }
			else if (k == 6) { p.t = r(2) ? L"\n" : L"%\n"; p.j = p.t.size() == 1 ? "{\"t\":\"nl\"}" : "{\"t\":\"rawnl\"}"; }
			else { int c = r(12) == 0 && wideT ? 0x17e : "abc1 ,{}-\t\r"[r(11)]; p.t = W(1, c); p.j = "{\"t\":\"lit\",\"c\":" + to_string(c) + "}"; }
			nx = p.t[0]; ps.insert(ps.begin(), p); } }
	W text() { W s; for (auto &p : ps) s += p.t; return s; }
	S json() { std::vector<S> v; for (auto &p : ps) v.push_back(p.j); return jl(v); }
};
W someText(Rnd &r, int max, bool odd) { W s; for (int i = r(max + 1); i > 0; i--) s += odd && r(6) == 0 ? (wchar_t)(r(2) ? 0x159 : 0x20ac) : (wchar_t)"ab1,-+%\nz "[r(10)]; return s; }
S utf8(const W &w) { S s; for (unsigned c : w) if (c < 128) s += (char)c; else if (c < 2048) { s += (char)(192 + c / 64); s += (char)(128 + c % 64); } else { s += (char)(224 + c / 4096); s += (char)(128 + c / 64 % 64); s += (char)(128 + c % 64); } return s; }
template<class T> std::basic_string<T> conv(const W &w);
template<> W conv<wchar_t>(const W &w) { return w; }
template<> S conv<char>(const W &w) { return utf8(w); }

struct RealNo { bool neg; int n, m; double v() const { double x = ldexp((double)n, -m); return neg ? -x : x; }
	RealNo(Rnd &r, int mm):n(r(6) ? r(2000) : r(10) * (int)pow(10, r(3))),m(r(mm + 1)) { neg = n && r(2); }
	S json() const { return "\"neg\":" + jb(neg) + ",\"n\":" + to_string(n) + ",\"m\":" + to_string(m); } };
// F: a formatter or the sink of an output
template<class T> struct Args {
	Rnd &r; std::vector<S> j; std::vector<std::unique_ptr<Mem<T>>> keep; std::vector<std::unique_ptr<std::basic_string<T>>> keepz; int &base, &dec; bool &sci;
	Args(Rnd &r, int &base, int &dec, bool &sci):r(r),base(base),dec(dec),sci(sci) {}
	void txt(bool wd, const S &c) { j.push_back("{\"t\":\"txt\",\"wide\":" + jb(wd) + ",\"c\":" + c + "}"); }
	void num(bool neg, unsigned long long m) { j.push_back("{\"t\":\"num\",\"neg\":" + jb(neg) + ",\"mag\":" + mag(m) + ",\"base\":" + to_string(base) + "}"); }
	template<class F> void add(F &f) {
		const bool WT = sizeof(T) > 1;
		switch (r(14)) {
		case 0: { W w = someText(r, 6, WT); keep.emplace_back(new Mem<T>(w)); f << (ConstStringT<T>)*keep.back(); txt(WT, js(std::basic_string<T>(w.begin(), w.end()))); break; }
		case 1: { auto w = conv<T>(someText(r, 6, true)); keepz.emplace_back(new std::basic_string<T>(w)); f << keepz.back()->c_str(); txt(WT, js(w)); break; }
		case 2: { S w = utf8(someText(r, 6, true)); { ConstStrA a(w.data(), w.length()); if (WT) f << a; else { keep.emplace_back(new Mem<T>(W())); keep.back()->s.assign(w.begin(), w.end()); keep.back()->n = w.size(); f << (ConstStringT<T>)*keep.back(); } } txt(false, js(w)); break; }
		case 3: { W w = someText(r, 6, true); if (WT) { keepz.emplace_back(new std::basic_string<T>(w.begin(), w.end())); f << keepz.back()->c_str(); } else { W tmp = w; f << tmp.c_str(); tmp.assign(tmp.size(), L'?'); } txt(true, js(w)); break; }
		case 4: { T c = "ab-+9"[r(5)]; f << c; txt(WT, js(std::basic_string<T>(1, c))); break; }
		case 5: { wchar_t c = r(2) ? 0x159 : L'q'; f << c; txt(true, js(W(1, c))); break; }
		case 6: { int x = (int)bigNum(r); f << x; num(x < 0, x < 0 ? 0ULL - (unsigned long long)(long long)x : x); break; }
		case 7: { unsigned x = (unsigned)bigNum(r); f << x; num(false, x); break; }
		case 8: { integer x = (integer)bigNum(r); f << x; num(x < 0, x < 0 ? 0ULL - (unsigned long long)x : x); break; }
		case 9: { natural x = bigNum(r); f << x; num(false, x); break; }
		case 10: { long long x = (long long)bigNum(r); f << (linteger)x; num(x < 0, x < 0 ? 0ULL - (unsigned long long)x : x); break; }
		case 11: { lnatural x = bigNum(r); f << x; num(false, x); break; }
		default: { RealNo x(r, sci ? 10 : 8); if (r(2)) f << x.v(); else f << (float)x.v(); j.push_back("{\"t\":\"real\"," + x.json() + ",\"p\":" + to_string(dec) + ",\"sci\":" + jb(sci) + "}"); break; }
		} }
};
template<class T> void fmtRun(Rnd &r, int n) {
	const bool WT = sizeof(T) > 1;
	TextFormat<T> f; TextFormatBuff<T> fb; typedef Out<T> O; O outArr; typename O::WriteIter wi = outArr.getWriteIterator(); TextOut<typename O::WriteIter &> to(wi); W nls[3] = {L"\n", L"\n", L"\n"}; int base[3] = {10, 10, 10}, dec[3] = {6, 6, 6}; bool sci[3] = {false, false, false};
	std::basic_string<T> keepNl[3];
	for (int i = 0; i < n; i++) {
		int which = r(3), na = r(6); Fmt g(r, WT); bool none = r(6) == 0; if (!none) g.gen(na, r(3) == 0); W pt = g.text(); Mem<T> pm(pt); Args<T> a(r, base[which], dec[which], sci[which]);
		if (r(5) == 0) { int b = 2 + r(35); base[which] = r(3) ? b : 10; if (which == 0) f.setBase(base[which]); else if (which == 1) fb << setBase(base[which]); else to.setBase(base[which]); }
		if (r(5) == 0) { dec[which] = r(6); sci[which] = which == 2 ? true : r(2); if (which == 0) { if (sci[0]) f.setSci(dec[0]); else f.setFixed(dec[0]); } else if (which == 1) { if (sci[1]) fb << setSci(dec[1]); else fb.setFixed(dec[1]); } else to.setSci(dec[which]); }
		if (r(5) == 0) { dec[which] = r(6); if (which == 0) f.setPrecision(dec[0]); else if (which == 1) fb << setPrecision(dec[1]); else to.setPrecision(dec[2]); }
		if (r(8) == 0) { nls[which] = r(2) ? L"\r\n" : r(2) ? L"<br>" : L"\n"; keepNl[which].assign(nls[which].begin(), nls[which].end()); ConstStringT<T> s(keepNl[which].data(), keepNl[which].size()); if (which == 0) f.setNL(s); else if (which == 1) fb.setNL(s); else to.setNL(s); }
		std::basic_string<T> out; int nulls = 0; S narrow = WT ? utf8(pt) : S(pt.begin(), pt.end()); bool viaNarrow = r(3) == 0; std::basic_string<T> pz = conv<T>(pt); S tmp;
		if (which == 2) {
			natural at = outArr.length();
			{ if (none) { auto s = to(); for (int k = 0; k < na; k++) a.add(s); }
			  else if (viaNarrow) { auto s = to(narrow.c_str()); for (int k = 0; k < na; k++) a.add(s); }
			  else { auto s = to((ConstStringT<T>)pm); for (int k = 0; k < na; k++) { auto s2 = s; a.add(s2); } } }
			ConstStringT<T> o = outArr; o = o.offset(at); out.assign(o.data(), o.length());
		} else {
			TextFormat<T> &x = which == 0 ? f : (TextFormat<T> &)fb;
			if (none) x(); else if (viaNarrow) { if (r(2)) x(narrow.c_str()); else { tmp = narrow; x(ConstStrA(tmp.data(), tmp.length())); if (WT) tmp.assign(tmp.size(), '?'); } }
			else if (r(2)) x((ConstStringT<T>)pm); else x(pz.c_str());
			for (int k = 0; k < na; k++) a.add(x);
			if (which == 0) { AutoArrayStream<T> s; f.output(s); ConstStringT<T> o = s.getArray(); out.assign(o.data(), o.length()); }
			else if (r(2)) { ConstStringT<T> o = fb.write(); out.assign(o.data(), o.length()); }
			else { const T *z = fb.writeCStr(); nulls = z[fb.length() - 1]; out.assign(z, fb.length() - 1); }
		}
		if (nulls) out += 'Z';
		E("fmt").k("pat", g.json()).k("text", js(none ? W() : pt)).b("wide", WT).k("args", jl(a.j)).k("nl", js(nls[which])).k("out", js(out));
	}
}
template<class T, class N> void tosT(Rnd &r, bool neg, unsigned long long m, N v) {
	int base = r(2) ? 10 : 2 + r(35); bool up = r(2); ToString<N, T> s(v, base, up); ConstStringT<T> c = s;
	E("tos").b("neg", neg).k("mag", mag(m)).i("base", base).b("up", up).k("out", js(c)).i("z", c.data()[c.length()]);
}
template<class T, class N> void torT(Rnd &r) {
	RealNo x(r, 8); int p = r(6), k = r(4); N v = (N)x.v(); std::unique_ptr<ToString<N, T>> s; const char *st;
	if (k == 0) { s.reset(new ToString<N, T>(v, p)); st = "f"; } else if (k == 1) { s.reset(new ToString<N, T>(v, p, true)); st = "E"; } else if (k == 2) { s.reset(new ToString<N, T>(v)); p = 6; st = "g"; } else { p = 1 + r(6); s.reset(new ToString<N, T>(v, -p)); st = "g"; }
	ConstStringT<T> c = *s; E e("tor"); e.k("neg", jb(x.neg)).i("n", x.n).i("m", x.m).i("p", p).t("st", st).k("out", js(c)).i("z", c.data()[c.length()]);
}
void numRun(Rnd &r, int n) {
	for (int i = 0; i < n; i++) { unsigned long long m = bigNum(r); long long sv = (long long)m; bool neg = sv < 0; unsigned long long sm = neg ? 0ULL - m : m;
		switch (r(6)) { case 0: tosT<char, natural>(r, false, m, (natural)m); break; case 1: tosT<wchar_t, natural>(r, false, m, (natural)m); break;
			case 2: tosT<char, integer>(r, neg, sm, (integer)sv); break; case 3: tosT<wchar_t, integer>(r, neg, sm, (integer)sv); break;
			case 4: if (r(2)) torT<char, double>(r); else torT<wchar_t, double>(r); break; default: if (r(2)) torT<char, float>(r); else torT<wchar_t, float>(r); } }
}

// ------------------------------------------------------------- reading
struct El { W t; S j; W smp; };
struct Gen {
	Rnd &r; bool wd; std::vector<int> ids; int budget;
	Gen(Rnd &r, bool wd):r(r),wd(wd),budget(3) { for (int i = 1; i <= 5; i++) ids.push_back(i); if (r(4) == 0) ids.push_back(10 + r(3)); for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r(i)]); }
	wchar_t ch() { if (wd && r(12) == 0) return 0x17e; return L"aab1,-bA"[r(8)]; }
	static S c(int x) { return to_string(x); }
	// items of a field; w: what it might take
	std::vector<El> items(bool &plain) {
		std::vector<El> v; plain = true; int n = r(4) ? 1 : r(2) ? 0 : 2; int lo = 1, hi = 1000000000;
		for (int i = 0; i <= n; i++) {
			if (r(3) == 0) { El e; int s = 0, l = -1, h = -1; switch (r(7)) { 
				case 0: s = "*+?."[r(4)]; l = s == '*' || s == '?' ? 0 : 1; h = s == '?' || s == '.' ? 1 : 1000000000; break;
				case 1: l = r(3); if (l > hi) hi = h = l; break; case 2: h = 1 + r(4); if (h < lo) l = h; break; case 3: l = r(3); h = 1000000000; break; default: l = r(3); h = l + r(3); if (!h) h = 1; }
				if (l >= 0) lo = l; if (h >= 0) hi = h;
				e.t = L"("; if (s) e.t += (wchar_t)s; else { if (l >= 0) e.t += wide(c(l)); if (h >= 0) e.t += L"," + (h == 1000000000 ? W(L"*") : wide(c(h))); } e.t += L")";
				e.j = "{\"t\":\"rng\",\"lo\":" + c(l) + ",\"hi\":" + c(h) + ",\"short\":" + c(s) + "}"; v.push_back(e); }
			if (i == n) break;
			El e; int cnt = lo + r(3); if (cnt > hi) cnt = hi; plain = false;
			switch (r(6)) {
			case 0: case 1: case 2: { bool star = r(3) == 0, neg = r(3) == 0, esc = false; std::vector<std::pair<wchar_t, wchar_t>> set; 
				int m = 1 + r(3); for (int k = 0; k < m; k++) { wchar_t a; 
					if (k == 0) { a = L"ab1,]^*\\-a"[r(10)]; esc = a == '^' || a == '*' || a == '\\' || r(9) == 0; if (a == '-') { set.push_back(std::make_pair(a, a)); continue; } }
					else a = L"ab1,^*\\+"[r(8)];
					wchar_t b = a; if (r(3) == 0) b = a == 'a' ? 'c' : a == 'b' ? 'z' : a == '1' ? '9' : a == '+' ? '.' : a; set.push_back(std::make_pair(a, b)); }
				if (r(7) == 0 && set.back().first != '-') set.push_back(std::make_pair(L'-', L'-'));
				if (set.size() == 2 && set[0].first == '-' && set[1].first == '-') set.pop_back();
				e.t = L"["; if (star) e.t += L"*"; if (neg) e.t += L"^"; if (esc) e.t += L"\\"; e.j = "{\"t\":\"cls\",\"star\":" + jb(star) + ",\"neg\":" + jb(neg) + ",\"esc\":" + jb(esc) + ",\"set\":[";
				for (size_t k = 0; k < set.size(); k++) { e.t += set[k].first; if (set[k].first != set[k].second) { e.t += L'-'; e.t += set[k].second; } e.j += (k ? ",[" : "[") + c(set[k].first) + "," + c(set[k].second) + "]"; }
				e.t += L"]"; e.j += "]}";
				for (int k = 0; k < cnt; k++) { auto &p = set[r(set.size())]; wchar_t x = p.first + r(p.second - p.first + 1); if (neg) x = L"abz19,-Aq"[r(9)]; e.smp += x; }
				break; }
			case 3: { e.t = L"*"; e.j = "{\"t\":\"star\"}"; for (int k = 0; k < cnt; k++) e.smp += ch(); break; }
			case 4: { wchar_t q = L"\"'"[r(2)], x = r(2) ? q : L"\\/"[r(2)], mk = L"'q"[r(2)]; e.t = W(1, mk) + q + x; e.j = "{\"t\":\"quo\",\"mark\":" + c(mk) + ",\"q\":" + c(q) + ",\"e\":" + c(x) + "}";
				e.smp = W(1, q); for (int k = r(4); k > 0; k--) { if (r(3) == 0) { e.smp += x; e.smp += r(3) ? q : L'a'; } else e.smp += ch(); } if (r(6)) e.smp += q; break; }
			default: { wchar_t k = L"dufxoidd"[r(8)]; e.t = W(1, k); e.j = "{\"t\":\"num\",\"k\":" + c(k) + "}"; 
				if (k == 'i') { e.smp = L"_aB1"; e.smp = e.smp.substr(r(4)); } else { if (r(3) == 0) e.smp += L"+-"[r(2)]; for (int z = 1 + r(2); z > 0; z--) e.smp += L"10779a"[r(k == 'x' ? 6 : 5)]; if (k == 'f') { if (r(2)) e.smp += r(5) ? L".5" : L"."; if (r(3) == 0) e.smp += r(2) ? L"e1" : r(2) ? L"E-2" : L"e"; } }
				break; }
			}
			v.push_back(e); }
		return v; }
	El elem(wchar_t nx, int depth, bool last) {
		El e; int k = r(20);
		if (last && depth == 0 && k < 4) { e.t = L"%"; e.j = "{\"t\":\"rest\"}"; if (r(2)) e.smp = L"zb"; return e; }
		if (k < 5) { wchar_t x = ch(); e.t = W(1, x); e.smp = e.t; e.j = "{\"t\":\"lit\",\"c\":" + c(x) + "}"; return e; }
		if (k < 7) { wchar_t x = L" _\t\b\n "[r(6)]; e.t = W(1, x); e.j = "{\"t\":\"lit\",\"c\":" + c(x) + "}"; if (x == '\n') e.smp = L"\n"; else for (int i = r(3); i > 0; i--) e.smp += L"  \t\n"[r(x == '\b' ? 4 : 3)]; return e; }
		if (k < 8) { wchar_t x = L"%_ \t\n\b"[r(6)]; e.t = W(L"%") + x; e.j = "{\"t\":\"esc\",\"c\":" + c(x) + "}"; e.smp = W(1, x); return e; }
		if (k < 10 && depth < 2 && budget > 0) { budget--; int n = 1 + r(3); std::vector<S> js; e.t = L"%<"; int pick = r(n + 1); for (int i = 0; i < n; i++) { El b = list(r(3), depth + 1); if (i) e.t += L"%|"; e.t += b.t; js.push_back(b.j); if (i == pick) e.smp = b.smp; } e.t += L"%>"; e.j = "{\"t\":\"alt\",\"bs\":" + jl(js) + "}"; return e; }
		bool plain; auto is = items(plain); bool any = !is.empty(); int id = -2; 
		if (any && r(6) == 0) id = -1; else if (r(8) == 0 || ids.empty()) id = 0; else { id = ids.back(); ids.pop_back(); }
		bool pct = nx == '%' || (nx >= '0' && nx <= '9') || r(2); std::vector<S> js; e.t = L"%"; for (auto &i : is) { e.t += i.t; js.push_back(i.j); e.smp += i.smp; }
		if (plain) for (int i = 1 + r(3); i > 0; i--) e.smp += ch();
		if (id < 0) e.t += L"%"; else { e.t += wide(c(id)); if (pct) e.t += L"%"; }
		e.j = "{\"t\":\"fld\",\"items\":" + jl(js) + ",\"id\":" + c(id) + ",\"pct\":" + jb(id < 0 || pct) + "}"; return e; }
	El list(int n, int depth) { std::vector<S> js(n); El l; wchar_t nx = depth ? L'%' : 0; for (int i = n - 1; i >= 0; i--) { El e = elem(nx, depth, i == n - 1); js[i] = e.j; l.t = e.t + l.t; l.smp = e.smp + l.smp; nx = e.t[0]; } l.j = jl(js); return l; }
	W spoil(W s) { for (int k = r(3); k > 0; k--) { int at = r(s.size() + 1); switch (r(3)) { case 0: s.insert(at, 1, ch()); break; case 1: if (at < (int)s.size()) s.erase(at, 1); break; default: if (at < (int)s.size()) s[at] = ch(); } } return s; }
};
struct NoCase { template<class T> static T f(T c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; } static bool less(const char &a, const char &b) { return f(a) < f(b); } static bool equal(const char &a, const char &b) { return f(a) == f(b); } };
template<class P> S fields(P &p) { S s = "["; for (int i = 1; i <= 12; i++) { try { auto x = p[i].str(); s += (s.size() > 1 ? ",[" : "[") + to_string(i) + "," + js(x) + "]"; } catch (Exception &) {} } return s + "]"; }
// can be read once, and a copy reads the same
template<class T> struct Once: IteratorBase<T, Once<T>> { struct St { std::vector<T> s; size_t at; }; std::shared_ptr<St> st; mutable T cur;
	Once(const W &w):st(new St) { st->s.assign(w.begin(), w.end()); st->at = 0; }
	bool hasItems() const { return st->at < st->s.size(); }
	const T &getNext() { if (!hasItems()) throwIteratorNoMoreItems(THISLOCATION, typeid(T)); cur = st->s[st->at++]; return cur; }
	const T &peek() const { if (!hasItems()) throwIteratorNoMoreItems(THISLOCATION, typeid(T)); cur = st->s[st->at]; return cur; } };
template<class T, class P> void parseT(Rnd &r, P &p, bool ci, int n, W &ws, W &nl, Mem<T> *&kw, Mem<T> *&kn) {
	for (int i = 0; i < n; i++) {
		if (r(12) == 0) { nl = r(2) ? L"\r\n" : L"\n"; kn = new Mem<T>(nl); p.setNL((ConstStringT<T>)*kn); }
		if (r(12) == 0) { ws = r(2) ? L"" : L" ,\n"; kw = new Mem<T>(ws); p.setWS((ConstStringT<T>)*kw); }
		Gen g(r, sizeof(T) > 1); El l = g.list(r(6), 0); W src = r(3) ? l.smp : g.spoil(l.smp); if (ci && r(2)) for (auto &c : src) if (c >= 'a' && c <= 'z' && r(2)) c -= 32;
		Mem<T> pm(l.t), sm(src, r(2)); bool ok; ConstStringT<T> sc = sm; int k = r(3);
		if (k == 0) ok = p((ConstStringT<T>)pm, sc); else if (k == 1) ok = p((ConstStringT<T>)pm, sc.getFwIter()); else { AutoArray<T> a(sc); ok = p((ConstStringT<T>)pm, a); a.clear(); }
		S f = ok ? fields(p) : S("[]");
		E("parse").k("pat", l.j).k("text", js(l.t)).k("src", js(src)).k("ws", js(ws)).k("nl", js(nl)).b("ci", ci).b("r", ok).k("f", f);
	}
}
void parseRun(Rnd &r, int n, int k) { W ws, nl = L"\n";
	if (k == 0) { TextParser<char> p; Mem<char> *a = 0, *b = 0; parseT<char>(r, p, false, n, ws, nl, a, b); } else if (k == 1) { TextParser<wchar_t> p; Mem<wchar_t> *a = 0, *b = 0; parseT<wchar_t>(r, p, false, n, ws, nl, a, b); }
	else { TextParser<char, StdAlloc, NoCase> p; Mem<char> *a = 0, *b = 0; parseT<char>(r, p, true, n, ws, nl, a, b); } }
template<class T> void inRun(Rnd &r, int n) {
	for (int h = 0; h < n; h++) {
		if (h) seq::next();
		// several patterns one after another
		std::vector<El> ls; W src; for (int i = 0; i < 6; i++) { Gen g(r, sizeof(T) > 1); ls.push_back(g.list(r(4), 0)); if (r(3)) { src += g.spoil(ls.back().smp); } else src += ls.back().smp; if (r(3) == 0) src += r(3) ? L"\n" : L"\r\n\r"; }
		W nl = r(2) ? L"\n" : r(3) ? L"\r\n" : L"aab", ws = r(3) ? L"" : L" b"; Mem<T> kn(nl), kw(ws);
		E("open").k("src", js(src)).k("nl", js(nl)).k("ws", js(ws));
		TextIn<Once<T>> in((Once<T>(src))); in.setNL(kn); in.setWS(kw);
		int pat = 0; for (int i = 0; i < 16; i++) { int k = r(16);
			if (k < 5) { El &l = ls[r(3) ? pat++ % 6 : r(6)]; Mem<T> pm(l.t); bool pk = r(3) == 0; bool ok = pk ? in.peek((ConstStringT<T>)pm) : in((ConstStringT<T>)pm); S f = ok ? fields(in) : S("[]"); E("in").t("op", pk ? "peek" : "read").k("pat", l.j).k("text", js(l.t)).b("r", ok).k("f", f); }
			else if (k < 7) { in.commit(); E("in").t("op", "commit"); }
			else if (k < 9) { T c = 0; bool x = false; try { if (r(2)) c = in.getNext(); else { c = in.peek(); in.skip(); } } catch (Exception &) { x = true; } E("in").t("op", "get").b("x", x).i("c", x ? 0 : (long)c); }
			else if (k < 10) { T c = 0; bool x = false; try { c = in.peek(); } catch (Exception &) { x = true; } E("in").t("op", "look").b("x", x).i("c", x ? 0 : (long)c); }
			else if (k < 11) { bool b = in.hasItems(); E("in").t("op", "has").b("r", b); }
			else if (k < 12) { natural c = in.getCharCount(); E("in").t("op", "count").i("n", c); }
			else { bool pk = r(3) == 0; bool ok = pk ? in.peekLine() : in.readLine(); E("in").t("op", pk ? "peekline" : "line").b("r", ok).k("y", js(in[1].str())); } }
	}
}
template<class T> void lineRun(Rnd &r, int n) {
	for (int h = 0; h < n; h++) {
		if (h) seq::next();
		W nl = r(3) == 0 ? L"\n" : r(2) ? L"\r\n" : L"aab", src; for (int i = r(14); i > 0; i--) if (r(4) == 0) src += nl; else src += nl == L"aab" ? L"aab"[r(3)] : L"\r\nab"[r(4)];
		Mem<T> kn(nl); E("open").k("src", js(src)).k("nl", js(nl)).k("ws", "[]");
		auto run = [&](TextLineReader<Once<T>> &lr) { for (int i = 0; i < 14; i++) { int k = r(4);
			if (k == 0) { bool b = lr.hasItems(); E("in").t("op", "has").b("r", b); }
			else { S y = "[]"; bool x = false; try { ConstStringT<T> s = k == 1 ? lr.peek() : lr.getNext(); y = js(s); } catch (Exception &) { x = true; } E("in").t("op", k == 1 ? "lookline" : "nextline").b("x", x).k("y", y); } } };
		if (nl == L"\n" && r(2)) { TextLineReader<Once<T>> lr((Once<T>(src))); run(lr); } else { TextLineReader<Once<T>> lr(Once<T>(src), (ConstStringT<T>)kn); run(lr); }
	}
}
// numbers read from texts
template<class T> W digits(Rnd &r, unsigned long long m, int base) { ToString<natural> s((natural)m, base, r(2)); ConstStrA c = s; W w; for (int i = r(3); i > 0; i--) w += L'0'; for (natural i = 0; i < c.length(); i++) w += (wchar_t)(unsigned char)c[i]; return w; }
template<class T, class N> void conv1(Rnd &r, bool sg, int bits) {
	unsigned long long m = bigNum(r); bool neg = sg && r(2); unsigned long long top = sg ? (neg ? 1ULL << (bits - 1) : (1ULL << (bits - 1)) - 1) : bits == 64 ? ~0ULL : (1ULL << bits) - 1; if (m > top) m = r(2) ? top : top - r(1000); if (!m) neg = false;
	W w = digits<T>(r, m, 10); if (neg) w = L"-" + w; else if (r(4) == 0) w = L"+" + w;
	if (r(4) == 0) switch (r(5)) { case 0: w.insert(r(w.size() + 1), 1, L"a.,/:"[r(5)]); break; case 1: w = L""; break; case 2: w = L"-"; break; case 3: w = L"+"; break; default: if (!sg && w[0] != '-') w = L"-" + w; else w += L' '; }
	if (w.size() > 1 && w[0] == '+' && w[1] == '+') return;
	TextParser<T> p; Mem<T> pm(L"%(0,*)1"), sm(w, true); p((ConstStringT<T>)pm, (ConstStringT<T>)sm); bool ok = true; N v = 0; try { v = p[1]; } catch (Exception &) { ok = false; }
	bool vn = sg && v < 0; unsigned long long um = (unsigned long long)(long long)v; if (!sg) um = (unsigned long long)v; if (vn) um = 0ULL - um;
	E("conv").k("s", js(w)).i("base", 10).b("signed", sg).b("r", ok).b("neg", vn).k("mag", mag(um));
}
template<class T> void convReal(Rnd &r) {
	RealNo x(r, 3); int e = r(2) ? 0 : (int)r(7) - 3; // the digits of the number and where the point is
	long long d = x.n; int f = x.m; for (int i = 0; i < x.m; i++) d *= 5; // n/2^m = d/10^m
	f += e; while (f < 0) { d *= 10; f++; } S s = to_string(d); while ((int)s.size() <= f) s = "0" + s; if (f) s.insert(s.size() - f, "."); else if (r(5) == 0) s += "."; if (r(6) == 0 && f && s[0] == '0') s.erase(0, 1);
	if (r(6) == 0) s.insert(0, r(25), '0'); if (r(6) == 0 && s.find('.') != S::npos) s.append(r(25), '0'); if (r(20) == 0 && f == 0) { s += '.'; s.append(r(25), '0'); }
	if (e || r(5) == 0) { s += "eE"[r(2)]; if (e >= 0 && r(2)) s += "+"; s += to_string(e); }
	W w = wide(s); if (x.neg) w = L"-" + w; else if (r(4) == 0) w = L"+" + w; if (r(8) == 0) w = L" " + w;
	if (r(5) == 0) switch (r(4)) { case 0: w.insert(r(w.size() + 1), 1, L"x,/."[r(s.find('.') == S::npos ? 3 : 4)]); break; case 1: w = L""; break; case 2: w = r(2) ? L"-" : L"."; break; default: w += L' '; }
	TextParser<T> p; Mem<T> pm(L"%(0,*)1"), sm(w, true); p((ConstStringT<T>)pm, (ConstStringT<T>)sm); bool ok = true; double v = 0; try { if (r(2)) v = (float)p[1]; else v = (double)p[1]; } catch (Exception &) { ok = false; }
	int m = 0; double a = fabs(v); while (m < 12 && a != floor(a)) { a *= 2; m++; } if (a != floor(a) || a > 2e6) { a = 0; m = 20; }
	E("convr").k("s", js(w)).b("r", ok).b("neg", v < 0).i("n", (long)a).i("m", m);
}
template<class T> void iterRun(Rnd &r) {
	int base = r(2) ? 10 : 2 + r(35); bool sg = r(2), neg = sg && r(2); unsigned long long m = bigNum(r) >> 1; W w = digits<T>(r, m, base); if (neg) w = L"-" + w; else if (sg && r(4) == 0) w = L"+" + w; if (r(2)) w += someText(r, 3, false); if (r(6) == 0) w.insert(0, 1, L"-x ,"[r(4)]);
	{ size_t g = sg && !w.empty() && (w[0] == '-' || w[0] == '+'), i = g; unsigned __int128 v = 0; for (; i < w.size(); i++) { int c = w[i], d = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'Z' ? c - 55 : c >= 'a' && c <= 'z' ? c - 87 : 99; if (d >= base) break; v = v * base + d; if (v >> 63) return; } }
	Mem<T> sm(w, true); ConstStringT<T> c = sm; typename ConstStringT<T>::Iterator it = c.getFwIter(); bool ok; bool vn = false; unsigned long long um = 0; natural left;
	if (r(3) == 0) { TextParser<T> p; Mem<T> pm(L"%(0,*)1"); p((ConstStringT<T>)pm, c); if (sg) return; um = base == 16 ? p[1].hex() : p[1].basedNum(base); natural q; ok = parseUnsignedNumber(it, q, base); if (ok && q != um) um = ~um; left = it.getRemain(); if (!ok) um = 0; }
	else if (sg) { integer v = 0; ok = parseSignedNumber(it, v, base); vn = v < 0; um = vn ? 0ULL - (unsigned long long)v : v; left = it.getRemain(); } else { natural v = 0; ok = parseUnsignedNumber(it, v, base); um = v; left = it.getRemain(); }
	E("iter").k("s", js(w)).i("base", base).b("signed", sg).b("r", ok).b("neg", vn).k("mag", mag(um)).i("left", left);
}
template<class T> void convRun(Rnd &r, int n) {
	for (int i = 0; i < n; i++) switch (r(8)) {
	case 0: conv1<T, int>(r, true, 32); break; case 1: conv1<T, unsigned int>(r, false, 32); break; case 2: conv1<T, linteger>(r, true, 64); break; case 3: conv1<T, lnatural>(r, false, 64); break;
	case 4: { W w = someText(r, 2, false); TextParser<T> p; Mem<T> pm(L"%(0,*)1"), sm(w, true); p((ConstStringT<T>)pm, (ConstStringT<T>)sm); bool ok = true; T v = 0; try { v = p[1]; } catch (Exception &) { ok = false; } E("convc").k("s", js(w)).b("r", ok).i("c", (long)v); break; }
	case 5: convReal<T>(r); break; default: iterRun<T>(r); }
}
}
#if PART == 0
void reg0() {
	for (int i = 0; i < seq::count(24); i++) seq::add("fmt" + to_string(i), "", [i]() { Rnd r(1000 + i); if (i % 2) fmtRun<wchar_t>(r, 40); else fmtRun<char>(r, 40); }, 20);
	for (int i = 0; i < seq::count(8); i++) seq::add("num" + to_string(i), "", [i]() { Rnd r(2000 + i); numRun(r, 60); }, 20);
}
void reg1(); void reg2();
int main(int argc, char **argv) { reg0(); reg1(); reg2(); return seq::main(argc, argv); }
#elif PART == 1
void reg1() { for (int i = 0; i < seq::count(60); i++) seq::add("parse" + to_string(i), "", [i]() { Rnd r(3000 + i); parseRun(r, 40, i % 3); }, 20); }
#else
void reg2() {
	for (int i = 0; i < seq::count(24); i++) seq::add("in" + to_string(i), "", [i]() { Rnd r(4000 + i); if (i % 3) inRun<char>(r, 20); else inRun<wchar_t>(r, 20); }, 20);
	for (int i = 0; i < seq::count(6); i++) seq::add("line" + to_string(i), "", [i]() { Rnd r(5000 + i); if (i % 2) lineRun<char>(r, 25); else lineRun<wchar_t>(r, 25); }, 20);
	for (int i = 0; i < seq::count(12); i++) seq::add("conv" + to_string(i), "", [i]() { Rnd r(6000 + i); if (i % 2) convRun<char>(r, 60); else convRun<wchar_t>(r, 60); }, 20);
}
#endif
