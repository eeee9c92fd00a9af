// JSON trees: histories of operations over several variables; every step tells what all the variables hold.
#include "seq.h"
#include <map>
#include "lightspeed/utils/json/json.h"
#include "lightspeed/base/interface.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/memory/stdAlloc.h"
using namespace LightSpeed;
using namespace seq;
using std::string; using std::vector; using std::to_string;

static string S(ConstStrA s) { return string(s.data(), s.length()); }
static ConstStrA C(const string &s) { return ConstStrA(s.data(), s.length()); }
enum { N = 5, K = 15 };
// names in their order; the numbers of names are places here, from 1
static const string &name(int k) { static vector<string> n; if (n.empty()) { n = { "", "a", "aa", "ab", "b" }; for (int i = 0; i < 9; i++) n.push_back("unnamed" + to_string(i)); n.push_back("z" + string(70, 'z')); } return n[k - 1]; }
static int numOf(const string &s) { for (int k = 1; k <= K; k++) if (name(k) == s) return k; return 99; }

static int how; // way to enumerate
static string leaf(const JSON::INode *n) {
	char b[80];
	switch (n->getType()) {
	case JSON::ndNull: return n->isNull() && !n->getBool() ? "n" : "odd";
	case JSON::ndBool: return n->getBool() ? "b:1" : "b:0";
	case JSON::ndInt: return n->getInt() == n->getLongInt() && n->getFloat() == (double)n->getLongInt() && S(n->getStringUtf8()) == to_string((long)n->getLongInt()) && n->getBool() == (n->getLongInt() != 0) ? "i:" + to_string((long)n->getLongInt()) : "odd";
	case JSON::ndFloat: snprintf(b, 80, "f:%.17g", n->getFloat()); return b;
	case JSON::ndString: { string s = S(n->getStringUtf8()); std::wstring w(n->getString().data(), n->getString().length()), x; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c < 128) x += wchar_t(c); else { x += wchar_t((c & 31) << 6 | (s[i + 1] & 63)); i++; } } return w == x && n->getBool() == !s.empty() ? "s:" + s : "odd"; }
	default: return "odd";
	}
}
static string dump(const JSON::INode *n);
static string dumpAll(const vector<std::pair<int, const JSON::INode *>> &v, bool obj) {
	string o = obj ? "{\"t\":\"obj\",\"v\":[" : "{\"t\":\"arr\",\"v\":[", k; for (size_t i = 0; i < v.size(); i++) { o += (i ? "," : "") + dump(v[i].second); k += (i ? "," : "") + to_string(v[i].first); }
	return o + "]" + (obj ? ",\"k\":[" + k + "]" : "") + "}";
}
static string dump(const JSON::INode *n) {
	if (!n) return "{\"t\":\"nil\"}";
	bool obj = n->isObject();
	if (!obj && !n->isArray()) return "{\"t\":\"leaf\",\"x\":\"" + esc(leaf(n)) + "\"}";
	vector<std::pair<int, const JSON::INode *>> v; natural at = 0; bool odd = false;
	switch (how) {
	case 0: for (JSON::ConstIterator i = n->getFwConstIter(); i.hasItems();) { const JSON::ConstKeyValue &kv = i.getNext(); odd |= kv.getIndex() != at++; v.push_back({ numOf(S(kv.getStringKey())), kv.get() }); } break;
	case 1: for (JSON::Iterator i = const_cast<JSON::INode *>(n)->getFwIter(); i.hasItems();) { JSON::KeyValue kv = i.getNext(); odd |= kv->isNull() && kv.getIndex() != at; at++; v.push_back({ numOf(S(kv.getStringKey())), kv.get() }); } break;
	case 2: n->forEach([&](const JSON::INode *x, ConstStrA k, natural idx) { odd |= idx != at++; v.push_back({ numOf(S(k)), x }); return false; }); break;
	default: if (obj) { for (int k = 1; k <= K; k++) if (const JSON::INode *x = n->getVariable(C(name(k)))) v.push_back({ k, x }); } else for (natural i = 0; i < n->getEntryCount(); i++) v.push_back({ 0, &(*n)[i] });
		at = v.size(); }
	if (odd || at != n->length() || n->length() != n->getEntryCount() || n->empty() != (at == 0)) return "{\"t\":\"leaf\",\"x\":\"odd\"}";
	return dumpAll(v, obj);
}
static void reach(const JSON::INode *n, std::map<const JSON::INode *, int> &s, long &size) {
	size++; if (!n) return; s[n]++;
	if (n->isObject() || n->isArray()) n->forEach([&](const JSON::INode *x, ConstStrA, natural) { reach(x, s, size); return size > 400; });
}
static bool reaches(const JSON::INode *from, const JSON::INode *what) { std::map<const JSON::INode *, int> s; long z = 0; reach(from, s, z); return s.count(what); }
static long sizeOf(const JSON::INode *n) { std::map<const JSON::INode *, int> s; long z = 0; reach(n, s, z); return z; }
static bool cont(const JSON::INode *n) { return n && (n->isObject() || n->isArray()); }
static JSON::Value makeLeaf(JSON::PFactory f, Rnd &r, string &x) {
	static const long ints[] = { 0, 1, -5, 7, 1099511627776L, -2147483648L, 0 }; static const double fl[] = { 0.5, -2.25, 1e300 };
	static const char *st[] = { "", "0", "1", "abc", "\xc5\xbelu\xc5\xa5", "true", "b", "a longer text which does not fit a small buffer" };
	switch (r(6)) {
	case 0: x = "n"; return r.p(50) ? f->newValue(null) : JSON::getConstant(JSON::constNull);
	case 1: { bool b = r.p(50); x = b ? "b:1" : "b:0"; return r.p(50) ? f->newValue(b) : JSON::getConstant(b ? JSON::constTrue : JSON::constFalse); }
	case 2: case 3: { long v = ints[r(7)]; x = "i:" + to_string(v); if (v >= 0 && r.p(40)) return f->newValue((natural)v); if (v == (int)v && r.p(40)) return f->newValue((int)v); return f->newValue((linteger)v); }
	case 4: { double v = fl[r(3)]; char b[64]; snprintf(b, 64, "f:%.17g", v); x = b; return f->newValue(v); }
	default: { string s = st[r(8)]; x = "s:" + s; if (r.p(40)) { std::wstring w; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c < 128) w += wchar_t(c); else { w += wchar_t((c & 31) << 6 | (s[i + 1] & 63)); i++; } } return f->newValue(ConstStrW(w.data(), w.length())); } return f->newValue(C(s)); }
	}
}
struct St { bool n; int k; };
static string steps(const vector<St> &p) { string o = "["; for (size_t i = 0; i < p.size(); i++) o += string(i ? "," : "") + "{\"n\":" + (p[i].n ? "true" : "false") + ",\"k\":" + to_string(p[i].k) + "}"; return o + "]"; }
static vector<St> randPath(Rnd &r, int max) { vector<St> p; int n = r(max + 1); for (int i = 0; i < n; i++) { bool nm = r.p(60); p.push_back(St{ nm, nm ? 1 + (int)r(5) : 1 + (int)r(3) }); } return p; }
// a path lives on the stack of those who build it
template<class F> static void withPath(const vector<St> &p, size_t i, const JSON::Path &at, const F &f) {
	if (i == p.size()) { f(at); return; }
	if (p[i].n) withPath(p, i + 1, JSON::Path(at, C(name(p[i].k))), f); else withPath(p, i + 1, JSON::Path(at, natural(p[i].k - 1)), f);
}
static void history(Rnd &r, JSON::PFactory *fs) {
	vector<JSON::Value> v(N); next(); int len = 15 + r(60); bool few = r.p(50);
	for (int s = 0; s < len; s++) {
		JSON::PFactory f = fs[r(3)]; int a = r(N), b = r(N), n = few ? 1 + r(3) : r.p(20) ? 1 + r(K) : 1 + r(5), i = 1 + r(4); how = r(4);
		// mostly containers and names which are there
		vector<int> cs; for (int q = 0; q < N; q++) if (cont(v[q])) cs.push_back(q);
		if (!cs.empty() && r.p(60)) { a = cs[r(cs.size())]; if (r.p(50)) b = cs[r(cs.size())]; }
		int kind = r(30); if (!cs.empty() && kind < 9 && r.p(50)) kind = 9 + r(21);
		if (kind >= 9 && kind <= 16 && v[b] == nil && r.p(85)) { for (int q = 0; q < N; q++) if (q != a && v[q] != nil && (v[a] == nil || !reaches(v[q], v[a])) && (v[b] == nil || r.p(40))) b = q; }
		if (kind >= 20 && r.p(70)) for (int q : cs) if (v[q]->length() > 0 && r.p(50)) { a = q; if (kind < 26) b = q; }
		if (kind == 8 && r.p(60)) continue;
		if ((kind < 9 || kind == 20 || kind == 22 || kind == 24 || kind == 25) && cont(v[a]) && v[a]->length() > 0 && r.p(75)) { for (int q = 0; q < N; q++) if (!cont(v[q])) a = q; if (cont(v[a])) continue; }
		if (r.p(60)) { const JSON::INode *o = kind == 20 ? v[b] : v[a]; if (o && o->isObject() && !o->empty()) { JSON::ConstIterator it = o->getFwConstIter(); int sk = r(o->length()); while (sk-- && it.hasItems()) it.getNext(); if (it.hasItems()) n = numOf(S(it.getNext().getStringKey())); } if (o && o->isArray() && o->length()) i = 1 + r(o->length()); }
		string op, x, res, vs; bool exc = false, y = false; vector<St> p; JSON::Value &A = v[a], &B = v[b];
		try {
			switch (kind) {
			case 0: case 1: op = "obj"; A = f->object(); break;
			case 2: op = "arr"; A = r.p(50) ? f->array() : f->newArray(); break;
			case 3: { op = "arrof"; vector<JSON::Value> w; int m = r(4); for (int j = 0; j < m; j++) { int q = r(N); if (v[q] == nil || sizeOf(v[q]) > 25) continue; vs += (w.empty() ? "" : ",") + to_string(q + 1); w.push_back(v[q]); } A = f->newValue(ConstStringT<JSON::Value>(w.data(), w.size())); break; }
			case 4: case 5: case 6: op = "leaf"; A = makeLeaf(f, r, x); break;
			case 7: op = "let"; A = B; break;
			case 8: op = "drop"; A = nil; break;
			case 9: case 10: case 11: op = "set"; if (A == nil || !cont(A) || (a != b && A != B && reaches(B, A)) || sizeOf(B) > 25 || sizeOf(A) > 40) continue; { JSON::Value was = B; if (r.p(30)) A->replace(C(name(n)), was); else if (r.p(40)) static_cast<JSON::Container &>(A).set(C(name(n)), was); else A.set(C(name(n)), was); } break;
			case 12: op = "replace"; if (A == nil || A == B || !cont(A) || reaches(B, A) || sizeOf(B) > 25 || sizeOf(A) > 40) continue; { JSON::Value was; A->replace(C(name(n)), B, &was); res = dump(was); } break;
			case 13: op = "add"; if (A == nil || (A != B && reaches(B, A)) || sizeOf(B) > 25 || sizeOf(A) > 40) continue; if (r.p(50)) A->add(C(name(n)), B); else A.add(C(name(n)), B); break;
			case 14: case 15: op = "push"; if (A == nil || (A != B && reaches(B, A)) || sizeOf(B) > 25 || sizeOf(A) > 40 || (cont(A) && A->length() > 6)) continue; if (r.p(50)) A->add(B); else A.add(B); break;
			case 16: op = "seti"; if (A == nil || A == B || reaches(B, A) || sizeOf(B) > 25 || sizeOf(A) > 40) continue; if (r.p(50)) A.set(natural(i - 1), B); else A->replace(natural(i - 1), B); break;
			case 17: op = "erase"; if (A == nil) continue; if (r.p(50)) A->erase(C(name(n))); else A.unset(C(name(n))); break;
			case 18: op = "erasei"; if (A == nil) continue; if (r.p(50)) A->erase(natural(i - 1)); else A.erase(natural(i - 1)); break;
			case 19: op = "clear"; if (A == nil || r.p(60)) continue; A.clear(); break;
			case 20: op = "get"; if (B == nil) continue; { JSON::Value g = r.p(30) ? B[C(name(n))] : r.p(30) ? JSON::Value(B->getPtr(C(name(n)))) : r.p(30) ? B[name(n).c_str()] : JSON::Value(const_cast<JSON::INode *>(static_cast<const JSON::ConstValue &>(B)[C(name(n))].get())); A = g; } break;
			case 21: if (A == nil) continue; if (r.p(50)) { op = "need"; res = "x"; res = dump(&(*A)[C(name(n))]); } else { op = "or"; const JSON::INode *g = (*A)(C(name(n)), (const JSON::INode *)B.get()); res = dump(g); } break;
			case 22: op = "geti"; if (B == nil) continue; { JSON::Value g = r.p(50) ? B[natural(i - 1)] : B[int(i - 1)]; res = dump(g); A = g; } break;
			case 23: op = r.p(60) ? "load" : "merge"; if (A == nil || B == nil || A == B || !cont(A) || !cont(B) || reaches(B, A) || sizeOf(B) + sizeOf(A) > 40 || (A->isObject() && !B->isObject())) continue; if (op == "load") A.load(B); else A->copy(JSON::ConstValue(B)); break;
			case 24: case 25: op = "copy"; if (B == nil) continue; i = r.p(40) ? -1 : r(3); { JSON::Value g = i < 0 ? r.p(50) ? B->clone(f) : B->copy(f, naturalNull, r.p(30)) : B->copy(f, i, r.p(30)); A = g; } break;
			case 26: case 27: op = "eq"; if (A == nil || B == nil) continue; y = *A == *B; if (y == (*A != *B)) y = !y; break;
			case 28: if (A == nil) continue; if (r.p(35)) { op = "iso"; if (!cont(A)) continue; JSON::ConstValue c = A; A = nil; JSON::INode *keep = const_cast<JSON::INode *>(c.get()); try { JSON::Container m(c); A = keep; } catch (...) { A = keep; throw; } }
				else if (r.p(50)) { op = "len"; i = A.length(); y = A.empty() && cont(A); }
				else { op = "snap"; if (!cont(A)) continue; JSON::ConstIterator it = A->getFwConstIter(); A.clear(); bool fst = true; while (it.hasItems()) { const JSON::ConstKeyValue &kv = it.getNext(); vs += (fst ? "" : ",") + dump(kv); fst = false; } } break;
			default: op = "path"; if (A == nil) continue; p = randPath(r, 3); { bool cp = r.p(40); JSON::Value g; try { withPath(p, 0, JSON::Path::root, [&](const JSON::Path &q) { if (cp) { JSON::Path *z = q.copy(); try { g = (*z)(A); } catch (...) { delete z; throw; } delete z; } else if (r.p(50)) g = q(A); else g = JSON::Value(const_cast<JSON::INode *>(q(JSON::ConstValue(A)).get())); }); } catch (LightSpeed::Exception &) { exc = true; } res = dump(g); } break;
			}
		} catch (LightSpeed::Exception &) { exc = true; if (op == "need" || op == "geti") res = "{\"t\":\"nil\"}"; }
		E e("op"); e.t("op", op).b("exc", exc).i("a", a + 1).i("b", b + 1).i("n", n).i("i", i).b("y", y).k("vs", "[" + vs + "]").k("r", res.empty() ? "{\"t\":\"nil\"}" : res).t("x", x).k("p", steps(p));
		string h = "["; for (int q = 0; q < N; q++) h += (q ? "," : "") + dump(v[q]); if (h.size() < 3000) e.k("h", h + "]");
	}
}
static void order(Rnd &r) {
	next();
	for (int i = 0; i < 12; i++) {
		vector<St> p = randPath(r, 3), q = r.p(30) ? p : randPath(r, 3); if (r.p(20) && !q.empty()) q.back().k = 1 + r(3);
		long res = 9, len = -1;
		withPath(p, 0, JSON::Path::root, [&](const JSON::Path &a) { withPath(q, 0, JSON::Path::root, [&](const JSON::Path &b) {
			JSON::Path *c = r.p(50) ? a.copy() : 0; const JSON::Path &x = c ? *c : a; len = x.length();
			CompareResult z = x.compare(b); res = z == cmpResultEqual ? 0 : z == cmpResultLess ? -1 : 1;
			if ((x < b) != (res < 0) || (x == b) != (res == 0) || (x > b) != (res > 0)) res = 9;
			if (c && !c->isRoot()) delete c; }); });
		E("pcmp").k("p", steps(p)).k("q", steps(q)).i("r", res).i("len", len);
	}
}
int main(int argc, char **argv) {
	for (int sh = 0; sh < 8; sh++) add("tree/" + to_string(sh), "", [sh] {
		JSON::PFactory fs[3] = { JSON::create(), JSON::createFast(), JSON::create(StdAlloc::getInstance()) };
		for (int i = 0; i < count(250); i++) { Rnd r(i * 8 + sh, 901); history(r, fs); if (i % 4 == 0) order(r); }
	}, 60);
	return seq::main(argc, argv);
}
