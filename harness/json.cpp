// JSON: values built through the factories and written, texts read; every text is judged by the specification.
#include "seq.h"
#include "lightspeed/utils/json/json.h"
#include "lightspeed/base/interface.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/iter/vtiterator.h"
#include "lightspeed/base/streams/memfile.tcc"
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/base/text/textstream.tcc"
using namespace LightSpeed;
using namespace seq;
using std::string; using std::vector; using std::to_string;

static string S(ConstStrA s) { return string(s.data(), s.length()); }
static ConstStrA C(const string &s) { return ConstStrA(s.data(), s.length()); }
static string utf8(unsigned c) { string o;
	if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	return o; }
// ---- what the test knows about a value
struct JV { enum T { Null, Bool, Num, Str, Arr, Obj } t; bool b; string s; std::wstring w; vector<string> k; vector<JV> v; JV(T t = Null):t(t),b(false) {} };
static string dumpM(const JV &v) {
	switch (v.t) {
	case JV::Null: return "{\"t\":\"null\"}";
	case JV::Bool: return string("{\"t\":\"bool\",\"b\":") + (v.b ? "true}" : "false}");
	case JV::Num: return "{\"t\":\"num\",\"s\":" + bytes(v.s) + "}";
	case JV::Str: return "{\"t\":\"str\",\"s\":" + bytes(v.s) + "}";
	default: { string o = v.t == JV::Arr ? "{\"t\":\"arr\",\"v\":[" : "{\"t\":\"obj\",\"v\":["; for (size_t i = 0; i < v.v.size(); i++) o += (i ? "," : "") + dumpM(v.v[i]); o += "]";
		if (v.t == JV::Obj) { o += ",\"k\":["; for (size_t i = 0; i < v.k.size(); i++) o += (i ? "," : "") + bytes(v.k[i]); o += "]"; } return o + "}"; }
	}
}
static bool sane(const string &s) { for (size_t i = 0; i < s.size(); ) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0; if (!n || i + n > s.size()) return false; for (int k = 1; k < n; k++) if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false; i += n; } return true; }
// ---- what the real value looks like
static string num(double d) { char b[64]; snprintf(b, 64, "%.14e", d); string s = b; size_t e = s.find('e'); string x = s.substr(e + 1); if (x[0] == '+') x = x.substr(1); return s.substr(0, e) + "e" + x; }
static string dump(const JSON::INode *n) {
	if (!n) return "{\"t\":\"undef\"}";
	switch (n->getType()) {
	case JSON::ndNull: return n->isNull() ? "{\"t\":\"null\"}" : "{\"t\":\"odd\"}";
	case JSON::ndBool: return string("{\"t\":\"bool\",\"b\":") + (n->getBool() ? "true}" : "false}");
	case JSON::ndInt: { string x = to_string((long long)n->getLongInt()); if ((long long)n->getInt() != (long long)n->getLongInt()) x = "0"; if ((double)n->getLongInt() != n->getFloat()) x = "0"; return "{\"t\":\"num\",\"s\":" + bytes(x) + ",\"txt\":" + bytes(S(n->getStringUtf8())) + "}"; }
	case JSON::ndFloat: { string x = num(n->getFloat()); return "{\"t\":\"num\",\"s\":" + bytes(x) + ",\"txt\":" + bytes(x) + "}"; }
	case JSON::ndString: { string s = S(n->getStringUtf8()); string o = "{\"t\":\"str\",\"s\":" + bytes(s); if (sane(s)) { ConstStrW w = n->getString(); o += ",\"w\":["; for (natural i = 0; i < w.length(); i++) o += (i ? "," : "") + to_string((long)w[i]); o += "]"; } return o + "}"; }
	case JSON::ndArray: { string o = "{\"t\":\"arr\",\"v\":["; bool f = true; for (JSON::ConstIterator i = n->getFwConstIter(); i.hasItems();) { const JSON::ConstKeyValue &kv = i.getNext(); if (!f) o += ","; f = false; o += dump(kv); } return o + "]}"; }
	case JSON::ndObject: { string o = "{\"t\":\"obj\",\"v\":[", k; bool f = true; for (JSON::ConstIterator i = n->getFwConstIter(); i.hasItems();) { const JSON::ConstKeyValue &kv = i.getNext(); if (!f) { o += ","; k += ","; } f = false; o += dump(kv); k += bytes(S(kv.getStringKey())); } return o + "],\"k\":[" + k + "]}"; }
	default: return "{\"t\":\"odd\"}";
	}
}
// ---- generators
static unsigned point(Rnd &r) { switch (r(12)) { case 0: return r(32); case 1: return '"'; case 2: return '\\'; case 3: return '/'; case 4: return 127; case 5: return 0x80 + r(0x700); case 6: return 0x800 + r(0xD000); case 7: return 0xE000 + r(0x1FFE); case 8: return 0x10000 + r(0x100000); default: return 32 + r(95); } }
static string number(Rnd &r) {
	string s = r.p(35) ? "-" : "";
	switch (r(9)) {
	case 0: return s + "0";
	case 1: return s + to_string(r(1000));
	case 2: return s + to_string(r.raw() % 1000000000000000000ULL);
	case 3: { static const char *edge[] = { "9223372036854775807", "9223372036854775806", "1000000000000000000", "2147483647", "2147483648", "4294967295", "4294967296", "999999999999999999" }; return s + edge[r(8)]; }
	case 4: return s + to_string(r(100)) + "." + to_string(1 + r(99999));
	case 5: { static const char *edge[] = { "0.1", "0.001", "1.5", "0.000001", "0.0000005", "123456.789", "100000.5", "0.3", "99999.99999" }; return s + edge[r(9)]; }
	case 6: return s + to_string(1 + r(9)) + "." + to_string(r(999999)) + (r.p(50) ? "e" : "E") + (r.p(50) ? "-" : r.p(50) ? "+" : "") + to_string(r(240));
	case 7: return s + to_string(1 + r(99)) + "e" + (r.p(50) ? "-" : "") + to_string(r(30));
	default: return s + to_string(1 + r(9999)) + string(1 + r(22), '0');
	}
}
static JV value(Rnd &r, int depth) {
	int k = r(depth > 0 ? 9 : 5); JV v;
	if (k == 0) { v.t = r.p(40) ? JV::Null : JV::Bool; v.b = r.p(50); }
	else if (k == 1 || k == 2) { v.t = JV::Num; v.s = number(r); }
	else if (k <= 4) { v.t = JV::Str; int n = r.p(10) ? 0 : 1 + r(6); for (int i = 0; i < n; i++) { unsigned c = point(r); v.s += utf8(c); v.w += wchar_t(c); } }
	else if (k <= 6) { v.t = JV::Arr; int n = r(4); for (int i = 0; i < n; i++) v.v.push_back(value(r, depth - 1)); }
	else { v.t = JV::Obj; int n = r(4); std::set<string> ks; for (int i = 0; i < n; i++) { string x; int m = r(4); for (int j = 0; j < m; j++) x += utf8(r.p(60) ? 'a' + r(3) : point(r)); ks.insert(x); } v.k.assign(ks.begin(), ks.end()); for (auto &x : v.k) v.v.push_back(value(r, depth - 1)); }
	return v;
}
// an integer number, if it is one
static bool integral(const string &s) { return s.find_first_of(".eE") == string::npos && s.size() <= 19; }
static JSON::Value build(JSON::PFactory f, const JV &v, Rnd &r) {
	switch (v.t) {
	case JV::Null: return f->newValue(null);
	case JV::Bool: return f->newValue(v.b);
	case JV::Num: if (integral(v.s)) { long long x = strtoll(v.s.c_str(), 0, 10); switch (r(4)) { case 0: return f->newValue((integer)x); case 1: return f->newValue((linteger)x); case 2: if (x >= 0) return f->newValue((natural)x); return f->newValue((linteger)x); default: if (x == (int)x) return f->newValue((int)x); return f->newValue((linteger)x); } }
		return f->newValue(strtod(v.s.c_str(), 0));
	case JV::Str: if (r.p(50)) return f->newValue(ConstStrW(v.w.data(), v.w.length())); return f->newValue(C(v.s));
	case JV::Arr: { if (r.p(30)) { vector<JSON::Value> a; for (auto &x : v.v) a.push_back(build(f, x, r)); return f->newValue(ConstStringT<JSON::Value>(a.data(), a.size())); }
		JSON::Value a = f->array(); for (auto &x : v.v) a->add(build(f, x, r)); return a; }
	default: { JSON::Value o = f->object(); vector<int> ord; for (size_t i = 0; i < v.k.size(); i++) ord.insert(ord.begin() + r(ord.size() + 1), (int)i);
		for (int i : ord) { if (r.p(50)) o->add(C(v.k[i]), build(f, v.v[i], r)); else o.set(C(v.k[i]), build(f, v.v[i], r)); } return o; }
	}
}
// the number a double or an integer really holds: the text may have more digits than fit
static void exact(JV &v) { if (v.t == JV::Num && !integral(v.s)) { v.s = num(strtod(v.s.c_str(), 0)); } for (auto &x : v.v) exact(x); }
static string ws(Rnd &r) { string s; if (r.p(60)) return s; int n = r(3); for (int i = 0; i < n; i++) s += " \t\r\n"[r(4)]; return s; }
static string hex4(unsigned c, bool up) { char b[8]; snprintf(b, 8, up ? "\\u%04X" : "\\u%04x", c); return b; }
static string quoted(Rnd &r, const string &s) {
	string o = "\""; size_t i = 0;
	while (i < s.size()) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; unsigned p = n == 1 ? c : c & (0xFF >> (n + 1)); for (int k = 1; k < n; k++) p = p << 6 | (s[i + k] & 63); string raw = s.substr(i, n); i += n;
		static const char from[] = { '"', '\\', '/', '\b', '\f', '\n', '\r', '\t' }, nm[] = "\"\\/bfnrt"; int q = 0; while (q < 8 && (unsigned)from[q] != p) q++;
		if (q < 8 && r.p(60)) { o += '\\'; o += nm[q]; }
		else if (p < 32 || p == '"' || p == '\\' || r.p(20)) { bool up = r.p(50); if (p < 0x10000) o += hex4(p, up); else { o += hex4(0xD800 + ((p - 0x10000) >> 10), up); o += hex4(0xDC00 + ((p - 0x10000) & 1023), up); } }
		else o += raw; }
	return o + "\"";
}
static string print(Rnd &r, const JV &v) {
	string a = ws(r), b = ws(r);
	switch (v.t) {
	case JV::Null: return a + "null" + b;
	case JV::Bool: return a + (v.b ? "true" : "false") + b;
	case JV::Num: return a + v.s + b;
	case JV::Str: return a + quoted(r, v.s) + b;
	case JV::Arr: { string o = a + "["; if (v.v.empty()) o += ws(r); for (size_t i = 0; i < v.v.size(); i++) o += (i ? "," : "") + print(r, v.v[i]); return o + "]" + b; }
	default: { string o = a + "{"; if (v.v.empty()) o += ws(r); vector<int> ord; for (size_t i = 0; i < v.k.size(); i++) ord.insert(ord.begin() + r(ord.size() + 1), (int)i); bool f = true; for (int i : ord) { if (!f) o += ","; f = false; o += ws(r) + quoted(r, v.k[i]) + ws(r) + ":" + print(r, v.v[i]); } return o + "}" + b; }
	}
}
// ---- runs
static JSON::Value readBy(int how, JSON::PFactory f, const string &t) {
	switch (how) {
	case 0: return f->fromString(C(t));
	case 1: { ConstStrA c = C(t); ConstStrA::Iterator it = c.getFwIter(); VtIterator<ConstStrA::Iterator &> vt(it); return f->fromCharStream(vt); }
	default: { MemFileStr *m = new MemFileStr(C(t)); PInputStream p = m; SeqFileInput in(p); return f->fromStream(in); }
	}
}
static void parse(int how, JSON::PFactory f, const string &t) {
	bool ok = true; string d = "{\"t\":\"undef\"}";
	try { JSON::Value v = readBy(how, f, t); d = dump(v); } catch (LightSpeed::Exception &) { ok = false; }
	E("parse").y("y", t).b("ok", ok).k("v", d).i("how", how);
}
static void write(Rnd &r) {
	JSON::PFactory f = r.p(60) ? JSON::create() : JSON::createFast();
	{ JV m = value(r, r(4)); JSON::Value v = build(f, m, r); exact(m); string d = dumpM(m);
	bool esc = r.p(50); string t;
	switch (r(3)) { case 0: t = S(JSON::toString(v, esc)); break;
	case 1: f->getIfc<JSON::IFactoryToStringProperty>().enableUTFEscaping(esc); t = S(f->toString(*v)); break;
	default: { esc = true; MemFile<> *m2 = new MemFile<>; PInOutStream p = m2; { SeqFileOutput o(p.get()); f->toStream(*v, o); } t = string((const char *)m2->getBuffer().data(), m2->getBuffer().length()); } }
	E("ser").y("y", t).b("esc", esc).k("v", d);
	parse(r(3), f, t); }
}
static void read(Rnd &r) {
	JSON::PFactory f = r.p(60) ? JSON::create() : JSON::createFast();
	JV m = value(r, r(4)); string t = print(r, m); if (t.size() > 150) return; int how = r(3);
	parse(how, f, t);
	static const string junk = "[]{},:\"\\0123456789-+.eEtrufalsn /xuD \n\t";
	for (int k = 0; k < 4; k++) { string u = t; int e = 1 + (r.p(25) ? 1 : 0); while (e-- && !u.empty()) { size_t p = r(u.size()); switch (r(4)) { case 0: u.erase(p, 1); break; case 1: u.insert(p, 1, junk[r(junk.size())]); break; case 2: u[p] = junk[r(junk.size())]; break; default: u = u.substr(0, p); } } parse(how, f, u); }
}
static void stream(Rnd &r) {
	JSON::PFactory f = JSON::create(); int n = 1 + r(4); string all; vector<string> ts; for (int i = 0; i < n; i++) { JV m = value(r, 2); string t = print(r, m); if (t.size() > 60) t = "[]"; ts.push_back(t); all += t; if (r.p(50) || m.t == JV::Num) all += "\n"; }
	bool ok = true; string vs = "[", ys = "["; int got = 0;
	for (int i = 0; i < n; i++) ys += (i ? "," : "") + bytes(ts[i]);
	try { ConstStrA c = C(all); ConstStrA::Iterator it = c.getFwIter(); VtIterator<ConstStrA::Iterator &> vt(it); for (int i = 0; i < n; i++) { JSON::Value v = f->fromCharStream(vt); vs += (i ? "," : "") + dump(v); got++; } } catch (LightSpeed::Exception &) { ok = false; }
	E("stream").b("ok", ok).i("n", n).k("vs", vs + "]").k("ys", ys + "]");
}
int main(int argc, char **argv) {
	for (int sh = 0; sh < 8; sh++) add("json/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(40); i++) { Rnd r(i * 8 + sh, 900); next(); for (int k = 0; k < 4; k++) write(r); next(); for (int k = 0; k < 4; k++) read(r); next(); stream(r); }
	}, 60);
	// every sequence of a few tokens
	static const char *tok[] = { "[", "]", "{", "}", ",", ":", "\"a\"", "1", " ", "null" };
	for (int sh = 0; sh < 10; sh++) add("json/tokens/" + to_string(sh), "", [sh] {
		JSON::PFactory f = JSON::create(); int len = thorough() ? 5 : 4; long tot = 1; for (int i = 1; i < len; i++) tot *= 10;
		for (long q = 0; q < tot; q++) { if (q % 100 == 0) next(); string t = tok[sh]; long z = q; for (int i = 1; i < len; i++) { t += tok[z % 10]; z /= 10; } parse(0, f, t); }
	}, 60);
	// the words and the escapes, whole, cut and misspelled
	add("json/words", "", [] {
		JSON::PFactory f = JSON::create(); static const char *w[] = { "true", "false", "null", "\"\\u00e9\"", "\"\\ud83d\\ude00\"", "\"\\n\\t\\r\\b\\f\\/\\\\\\\"\"", "-12.5e+3", "{\"a\":1}", "[[]]", "\"\xf0\x9f\x98\x80\"", "-9223372036854775808", "1.7976931348623157e308", "0.0", "-0", "1e5" };
		for (auto x : w) { next(); string t = x; for (size_t n = 0; n <= t.size(); n++) { parse(0, f, t.substr(0, n)); parse(1, f, "[" + t.substr(0, n) + "]"); parse(2, f, "{\"k\":" + t.substr(0, n) + "}"); }
			for (size_t n = 0; n < t.size(); n++) for (char c : string("x0\"]}\\u")) { string u = t; u[n] = c; parse(0, f, u); parse(1, f, "[" + u + "]"); } }
	}, 60);
	return seq::main(argc, argv);
}
