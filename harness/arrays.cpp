// PARTS 6: the views are heavy templates
// Views over arrays: every view expression is evaluated by the real code and its content and
// the answers of all read operations are recorded; the specification evaluates the same expression.
#include "seq.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/constStr.h"
#include "lightspeed/base/containers/arrayt.h"
#include "lightspeed/base/containers/arrayref.h"
#include "lightspeed/base/exceptions/iterator.h"
using namespace LightSpeed;
namespace {
using std::string; using std::vector; using std::to_string;

template<class T> struct Code; // items are logged as small numbers
template<> struct Code<long> { static long en(int x) { return x * 10 + 5; } static int de(long v) { return (v - 5) / 10; } };
template<> struct Code<char> { static char en(int x) { return 'a' + x; } static int de(char v) { return v - 'a'; } };

static long N(natural n) { return n == naturalNull ? -1 : (long)n; }
static string js(const vector<long> &v) { return seq::arr(v); }
static string jss(const vector<vector<long> > &v) { string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += js(v[i]); } return s + "]"; }

template<class T> struct Collect { vector<long> &o; int stop; Collect(vector<long> &o, int stop = -1):o(o),stop(stop) {}
	bool operator()(const T &x) const { o.push_back(Code<T>::de(x)); return (int)o.size() == stop; } };

template<class T> struct World {
	AutoArray<T> x, y; vector<AutoArray<T> > pats; // patterns
	int alpha; seq::Rnd r; int full;
	World(seq::Rnd r, int alpha, int full):alpha(alpha),r(r),full(full) {}
	static string show(const AutoArray<T> &a) { vector<long> v; for (natural i = 0; i < a.length(); i++) v.push_back(Code<T>::de(a[i])); return js(v); }

};

// the interface of ArrayT<T,X>, through a reference to that base
template<class T, class X> void probe(World<T> &w, const string &ex, const ArrayT<T, X> &v) {
	typedef Code<T> C;
	vector<long> at, each; long L = v.length();
	for (natural i = 0; (long)i < L && i < 64; i++) at.push_back(C::de(v.at(i)));
	bool st = v.forEach(Collect<T>(each));
	seq::E e("view");
	e.k("x", ex).i("len", L).b("empty", v.empty()).v("at", at).v("each", each).b("st", st);
	if (L > 20) return;
	{ // partial traversals, also stopped by the functor
		vector<vector<long> > sub; vector<long> stf;
		for (long f = 0; f <= L + 1; f++) for (long c = 0; c <= L + 1; c += w.full || c < 2 ? 1 : 2) { vector<long> o; bool s = v.forEach(Collect<T>(o), f, c); if (s && o.size()) o.push_back(-9); sub.push_back(o); }
		vector<vector<long> > stp;
		for (int k = 1; k <= L + 1; k++) { vector<long> o; if (v.forEach(Collect<T>(o, k)) && o.size()) o.push_back(-9); stp.push_back(o); }
		e.b("full", w.full).k("sub", jss(sub)).k("stp", jss(stp));
	}
	{ // searching an item
		vector<long> f, fp, l, lp;
		for (int a = 0; a <= w.alpha; a++) { T it = C::en(a);
			f.push_back(N(v.find(it))); l.push_back(N(v.findLast(it)));
			for (long p = 0; p <= L + 1; p++) { fp.push_back(N(v.find(it, p))); lp.push_back(N(v.findLast(it, p))); }
		}
		e.v("f", f).v("fp", fp).v("l", l).v("lp", lp);
	}
	{ // searching patterns and sets
		vector<long> f, fp, l, lp, l2, o, op, ol, olp, cmp; string rel = "[";
		for (size_t k = 0; k < w.pats.size(); k++) { const AutoArray<T> &q = w.pats[k];
			f.push_back(N(v.find(q))); l.push_back(N(v.findLast(q))); l2.push_back(N(v.findLastArr(q)));
			o.push_back(N(v.findOneOf(q))); ol.push_back(N(v.findLastOneOf(q)));
			for (long p = 0; p <= L + 1; p++) { fp.push_back(N(v.find(q, p))); lp.push_back(N(v.findLast(q, p))); op.push_back(N(v.findOneOf(q, p))); olp.push_back(N(v.findLastOneOf(q, p))); }
			CompareResult c = v.compare(q), d = q.compare(v);
			cmp.push_back(c == cmpResultLess ? -1 : c == cmpResultEqual ? 0 : c == cmpResultGreater ? 1 : 9);
			cmp.push_back(d == cmpResultLess ? -1 : d == cmpResultEqual ? 0 : d == cmpResultGreater ? 1 : 9);
			int m = (v == q ? 1 : 0) + (v != q ? 2 : 0) + (v < q ? 4 : 0) + (v <= q ? 8 : 0) + (v > q ? 16 : 0) + (v >= q ? 32 : 0);
			cmp.push_back(m);
		}
		e.v("pf", f).v("pfp", fp).v("pl", l).v("pl2", l2).v("plp", lp).v("po", o).v("pop", op).v("pol", ol).v("polp", olp).v("cmp", cmp);
	}
	{ // rendering into another array, whole and into one too small
		AutoArray<T> t; typename AutoArray<T>::WriteIter wi = t.getWriteIterator(); long n = v.render(wi);
		vector<long> o; for (natural i = 0; i < t.length(); i++) o.push_back(C::de(t[i]));
		e.i("rn", n).v("r", o);
		AutoArray<T> u(v); o.clear(); for (natural i = 0; i < u.length(); i++) o.push_back(C::de(u[i])); e.v("cp", o);
	}
	{ // splitting
		vector<vector<long> > s; vector<vector<long> > rest;
		for (int a = 0; a <= w.alpha; a++) { T it = C::en(a);
			typename ArrayT<T, X>::SplitIterator si = v.split(it); vector<long> cnt; cnt.push_back(-1); s.push_back(cnt);
			int g = 0;
			while (si.hasItems() && g < 40) { const typename ArrayT<T, X>::ConstMid &m = si.getNext(); vector<long> o; for (natural i = 0; i < m.length(); i++) o.push_back(C::de(m.at(i))); s.push_back(o); g++; }
			typename ArrayT<T, X>::SplitIterator s2 = v.split(it); g = 0;
			s2.getNext();
			if (s2.hasItems()) { const typename ArrayT<T, X>::ConstMid &m = s2.getRest(); vector<long> o; for (natural i = 0; i < m.length(); i++) o.push_back(C::de(m.at(i))); rest.push_back(o); } else { vector<long> o; o.push_back(-1); rest.push_back(o); }
		}
		e.k("sp", jss(s)).k("rest", jss(rest));
	}
	{ // iterators
		vector<long> a, b; int g = 0;
		typename ArrayT<T, X>::Iterator i = v.getFwIter(); while (i.hasItems() && g++ < 40) { int p = C::de(i.peek()), q = C::de(i.getNext()); a.push_back(p == q ? p : -5); }
		typename ArrayT<T, X>::Iterator j = v.getBkIter(); g = 0; while (j.hasItems() && g++ < 40) { long rm = j.getRemain(); int p = C::de(j.getNext()); b.push_back(rm == (long)(L - b.size()) ? p : -5); }
		e.v("fw", a).v("bk", b);
		// seeking: [direction, offset, returned, position, can seek before, remaining]
		vector<long> sk;
		typename ArrayT<T, X>::Iterator s = v.getFwIter();
		for (int k = 0; k < 14; k++) { int d = w.r(3); long o = w.r(L + 2);
			Direction::Type t = d == 0 ? Direction::forward : d == 1 ? Direction::backward : Direction::absolute;
			long before = N(s.tell());
			bool cs = s.canSeek(t); long ret = s.seek(o, t);
			sk.push_back(before); sk.push_back(d); sk.push_back(o); sk.push_back(cs); sk.push_back(ret); sk.push_back(N(s.tell()));
			if (s.tell() == naturalNull) s.seek(0, Direction::absolute);
		}
		e.v("sk", sk);
	}
}

static string xn(const char *k) { return string("{\"k\":\"") + k + "\"}"; }
static string xu(const char *k, const string &a) { return string("{\"k\":\"") + k + "\",\"a\":" + a + "}"; }
static string xu(const char *k, const string &a, long p) { return string("{\"k\":\"") + k + "\",\"a\":" + a + ",\"p\":" + to_string(p) + "}"; }
static string xu(const char *k, const string &a, long p, long q) { return string("{\"k\":\"") + k + "\",\"a\":" + a + ",\"p\":" + to_string(p) + ",\"q\":" + to_string(q) + "}"; }
static string xb(const char *k, const string &a, const string &b) { return string("{\"k\":\"") + k + "\",\"a\":" + a + ",\"b\":" + b + "}"; }
static string xt(const char *k, const string &a, const string &b, const char *dir) { return string("{\"k\":\"") + k + "\",\"a\":" + a + ",\"b\":" + b + ",\"d\":\"" + dir + "\"}"; }

// all one-step views of v (m: mutable interface available)
template<class T, class V> void views(World<T> &w, const string &ex, V &v) {
	long L = v.length(); seq::Rnd &r = w.r; typedef Code<T> C;
	long p = r(L + 2), q = r(L + 2); int it = r(w.alpha);
	AutoArray<T> set; set.add(C::en(it)); int it2 = r(w.alpha); set.add(C::en(it2));
	string sets = "[" + to_string(it) + "," + to_string(it2) + "]", sing = "[" + to_string(it) + "]";
	const V &c = v;
	switch (r(24)) {
	case 0: probe<T>(w, xu("mid", ex, p, q), c.mid(p, q)); break;
	case 1: probe<T>(w, xu("head", ex, p), c.head(p)); break;
	case 2: probe<T>(w, xu("offset", ex, p), c.offset(p)); break;
	case 3: probe<T>(w, xu("tail", ex, p), c.tail(p)); break;
	case 4: probe<T>(w, xu("roffset", ex, p), v.roffset(p)); break;
	case 5: probe<T>(w, xu("crop", ex, p / 2, q / 2), c.crop(p / 2, q / 2)); break;
	case 6: probe<T>(w, xt("trim", ex, sets, "both"), c.trim(set)); break;
	case 7: probe<T>(w, xt("trim", ex, sets, "left"), c.trim(set, Direction::left)); break;
	case 8: probe<T>(w, xt("trim", ex, sets, "right"), c.trim(set, Direction::right)); break;
	case 9: probe<T>(w, xt("trim", ex, sing, "both"), c.trim(C::en(it))); break;
	case 10: probe<T>(w, xt("trim", ex, sing, "left"), c.trim(C::en(it), Direction::left)); break;
	case 11: probe<T>(w, xt("trim", ex, sing, "right"), c.trim(C::en(it), Direction::right)); break;
	case 12: probe<T>(w, xu("rev", ex), c.reverse()); break;
	case 13: probe<T>(w, xu("rep", ex, p % 3 + 1), c.repeat(p % 3 + 1)); break;
	case 14: probe<T>(w, xb("cat", ex, xn("y")), c + w.y); break;
	case 15: probe<T>(w, xb("cat", xn("y"), ex), w.y.concat(c)); break;
	case 16: probe<T>(w, xu("mid", xb("cat", ex, xn("y")), p, q), (c + w.y).mid(p, q)); break;
	case 17: probe<T>(w, xu("rev", xb("cat", ex, xn("y"))), (c + w.y).reverse()); break;
	case 18: probe<T>(w, xu("mid", xu("rev", ex), p, q), c.reverse().mid(p, q)); break;
	case 19: probe<T>(w, xu("rev", xu("mid", ex, p, q)), c.mid(p, q).reverse()); break;
	case 20: probe<T>(w, xu("mid", xu("mid", ex, p, q), q / 2, p), c.mid(p, q).mid(q / 2, p)); break;
	case 21: probe<T>(w, xu("offset", xb("cat", xb("cat", ex, xn("y")), ex), p), (c + w.y + c).offset(p)); break;
	case 22: probe<T>(w, xu("mid", xu("rep", ex, 3), p, q), c.repeat(3).mid(p, q)); break;
	case 23: probe<T>(w, xu("rev", xu("rev", ex)), c.reverse().reverse()); break;
	}
}
// PART selects what the views are built upon
template<class T, int P> struct Views { static void go(World<T> &w, AutoArray<T> &x) { views<T>(w, xn("x"), x); } };
template<class T> struct Views<T, 1> { static void go(World<T> &w, AutoArray<T> &x) { long p = w.r(x.length() + 2), q = w.r(x.length() + 2); typename AutoArray<T>::Mid m = x.mid(p, q); views<T>(w, xu("mid", xn("x"), p, q), m); } };
template<class T> struct Views<T, 2> { static void go(World<T> &w, AutoArray<T> &x) { typename AutoArray<T>::Rev m = x.reverse(); views<T>(w, xu("rev", xn("x")), m); } };
template<class T> struct Views<T, 3> { static void go(World<T> &w, AutoArray<T> &x) { auto m = x + w.y; views<T>(w, xb("cat", xn("x"), xn("y")), m); } };
template<class T> struct Views<T, 4> { static void go(World<T> &w, AutoArray<T> &x) { int n = 1 + w.r(2); auto m = x.repeat(n); views<T>(w, xu("rep", xn("x"), n), m); } };
template<class T> static void history(const char *ty, int k) {
	seq::Rnd r(77 + sizeof(T), k);
	World<T> w(r, 3, k % 4 == 0);
	int lx = r(8), ly = r(5), al = 1 + r(3);
	string pj = "[";
	for (int i = 0; i < lx; i++) w.x.add(Code<T>::en(r(al)));
	for (int i = 0; i < ly; i++) w.y.add(Code<T>::en(r(al)));
	for (int i = 0; i < 5; i++) { AutoArray<T> p; int n = i == 0 ? 0 : 1 + r(3); if (i == 4) { for (natural j = 0; j < w.x.length(); j++) p.add(w.x[j]); if (w.x.length() && r.p(50)) p.trunc(1); else if (r.p(30)) p.add(Code<T>::en(r(al))); } else for (int j = 0; j < n; j++) p.add(Code<T>::en(r(al))); w.pats.push_back(p); if (i) pj += ","; pj += World<T>::show(p); }
	seq::next(seq::cfgs("t", ty) + ",\"x\":" + World<T>::show(w.x) + ",\"y\":" + World<T>::show(w.y) + ",\"pats\":" + pj + "],\"alpha\":3");
	w.r = r;
	probe<T>(w, xn("x"), w.x);
	for (int i = 0; i < 5; i++) Views<T, PART>::go(w, w.x);
	// writing through a view
	for (int i = 0; i < 6; i++) { long L = w.x.length(); long p = r(L + 2), q = r(L + 2); int val = r(3); string ex; long at = -1;
		typename AutoArray<T>::Mid m = w.x.mid(p, q); typename AutoArray<T>::Rev v = w.x.reverse(); auto s = w.x.concat(w.y);
		switch (i % 3) {
		case 0: ex = xu("mid", xn("x"), p, q); if (m.length()) { at = r(m.length()); if (r.p(50)) m(at) = Code<T>::en(val); else m.mutableAt(at) = Code<T>::en(val); } break;
		case 1: ex = xu("rev", xn("x")); if (v.length()) { at = r(v.length()); v(at) = Code<T>::en(val); } break;
		case 2: ex = xb("cat", xn("x"), xn("y")); if (s.length()) { at = r(s.length()); if (r.p(50)) s(at) = Code<T>::en(val); else s.set(at, Code<T>::en(val)); } break;
		}
		if (at >= 0) seq::E("write").k("x", ex).i("i", at).i("v", val).k("nx", World<T>::show(w.x)).k("ny", World<T>::show(w.y));
	}
}
static void strings(int k) { // the same through plain strings and references to foreign memory
	typedef char T; seq::Rnd r(991, k); World<T> w(r, 3, 0);
	string a, b; int la = r(9), lb = r(5), al = 1 + r(3);
	for (int i = 0; i < la; i++) a += Code<T>::en(r(al)); for (int i = 0; i < lb; i++) b += Code<T>::en(r(al));
	for (char c : b) w.y.add(c); string pj = "[";
	for (int i = 0; i < 5; i++) { AutoArray<T> p; int n = i == 0 ? 0 : 1 + r(3); for (int j = 0; j < n; j++) p.add(Code<T>::en(r(al))); w.pats.push_back(p); if (i) pj += ","; pj += World<T>::show(p); }
	AutoArray<T> xx; for (char c : a) xx.add(c);
	seq::next(seq::cfgs("t", "str") + ",\"x\":" + World<T>::show(xx) + ",\"y\":" + World<T>::show(w.y) + ",\"pats\":" + pj + "],\"alpha\":3");
	w.r = r;
	char *m = (char *)malloc(a.size() ? a.size() : 1); memcpy(m, a.data(), a.size()); // exact bounds for the sanitizer
	ArrayRef<char> ar(m, a.size());
	probe<T>(w, xn("x"), ar);
	for (int i = 0; i < 3; i++) views<T>(w, xn("x"), ar);
	{
		ConstStrA cs(m, a.size()), cb(b.data(), b.size());
		seq::E e("str");
		long L = a.size(); long p = r(L + 2), q = r(L + 2);
		ConstStrA md = cs.mid(p, q), hd = cs.head(p), of = cs.offset(p), tl = cs.tail(p), cr = cs.crop(p / 2, q / 2), tr = cs.trim('a');
		auto S = [](ConstStrA x) { vector<long> v; for (natural i = 0; i < x.length(); i++) v.push_back(x[i] - 'a'); return v; };
		e.i("p", p).i("q", q).v("mid", S(md)).v("head", S(hd)).v("offset", S(of)).v("tail", S(tl)).v("crop", S(cr)).v("trim", S(tr));
		e.i("find", N(cs.find(cb))).i("findl", N(cs.findLast('b'))).i("oneof", N(cs.findOneOf(cb)));
		e.i("rel", (cs == cb ? 1 : 0) + (cs != cb ? 2 : 0) + (cs < cb ? 4 : 0) + (cs <= cb ? 8 : 0) + (cs > cb ? 16 : 0) + (cs >= cb ? 32 : 0));
		e.i("lit", (cs == "ab" ? 1 : 0) + (cs != "ab" ? 2 : 0) + (cs < "ab" ? 4 : 0) + (cs <= "ab" ? 8 : 0) + (cs > "ab" ? 16 : 0) + (cs >= "ab" ? 32 : 0));
		vector<long> sp; for (ConstStrA::SplitIterator i = cs.split('b'); i.hasItems();) { ConstStrA z = i.getNext(); sp.push_back(-1); for (long c : S(z)) sp.push_back(c); }
		e.v("split", sp);
	}
	free(m);
}
static struct Reg { Reg() {
	for (int g = 0; g < 4; g++) { string sfx = to_string(PART) + "-" + to_string(g); int n = seq::count(45);
#if PART < 5
		seq::add("long-" + sfx, "", [g, n] { for (int k = 0; k < n; k++) history<long>("long", k * 8 + g); }, 60);
#else
		seq::add("char-" + sfx, "", [g, n] { for (int k = 0; k < n; k++) history<char>("char", k * 8 + g); }, 60);
		seq::add("str-" + sfx, "", [g, n] { for (int k = 0; k < n; k++) strings(k * 8 + g); }, 60);
#endif
	}
} } reg;
}
#if PART == 0
int main(int argc, char **argv) { return seq::main(argc, argv); }
#endif
