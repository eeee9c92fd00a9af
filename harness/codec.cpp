// PARTS 3
// Converters and filters which encode and decode, driven item by item, in blocks and through
// reading and writing iterators.  The specification knows what the whole output must be.
#include "seq.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/constStr.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/utils/base16.h"
#include "lightspeed/utils/base32.h"
#include "lightspeed/utils/base64.tcc"
#include "lightspeed/utils/base85.h"
#include "lightspeed/utils/urlencode.h"
#include "lightspeed/base/streams/utf.tcc"
using namespace LightSpeed;
using namespace seq;
using std::string; using std::vector; using std::to_string;

namespace {
template<class T> struct Num { static long of(T x) { return (long)x; } };
template<> struct Num<char> { static long of(char x) { return (unsigned char)x; } };
template<class T> vector<long> nums(const vector<T> &v) { vector<long> w; for (auto x : v) w.push_back(Num<T>::of(x)); return w; }
template<class T> void out(const vector<T> &y, bool peeked = true) { if (!y.empty() || !peeked) E("out").v("y", nums(y)).b("peek", peeked); }
template<class T> void block(const string &kind, const vector<T> &src) { E("block").t("kind", kind).v("src", nums(src)); }

template<class C> void rawDrain(C &c, vector<typename C::ToType> &y, bool &pk) { while (c.hasItems) { typename C::ToType p = c.peek(); y.push_back(c.getNext()); if (y.back() != p) pk = false; } }
// the converter itself, several blocks one after another
template<class C> void convRaw(Rnd &r, C c, const string &kind, std::function<vector<typename C::FromType>()> gen, int blocks) {
	typedef typename C::ToType T;
	for (int b = 0; b < blocks; b++) {
		auto src = gen(); block(kind, src); bool dead = false;
		vector<T> y; bool pk = true;
		for (auto x : src) {
			try { c.write(x); } catch (InvalidUTF8Character &) { out(y, pk); E("refused"); dead = true; break; }
			rawDrain(c, y, pk); if (r.p(20)) { out(y, pk); y.clear(); }
		}
		if (dead) return;
		c.flush(); rawDrain(c, y, pk); out(y, pk); E("close");
	}
}
template<class It> void readAllOf(Rnd &r, It &it, bool blocks) {
	typedef typename It::ItemT T;
	try { for (int i = 0; i < 4000; i++) {
		if (blocks && r.p(40)) {
			size_t n = 1 + r(7); vector<T> b(n + 1); bool all = r.p(30); natural k = 0;
			try { k = it.blockRead(ArrayRef<T>(&b[0], n).ref(), all); } catch (IteratorNoMoreItems &) { E("nomore").i("n", all ? n : 0); return; }
			b.resize(k <= n ? k : 0); E("blk").v("y", nums(b)).i("n", n).i("k", k); if (k == 0) return; continue;
		}
		bool h = it.hasItems(); if (r.p(30)) h = it.hasItems();
		if (!h) { E("close"); return; }
		bool pk = true; T p = T(); bool did = r.p(40); if (did) p = it.peek();
		T x = it.getNext(); if (did && p != x) pk = false;
		E("out").v("y", vector<long>(1, Num<T>::of(x))).b("peek", pk);
	} } catch (InvalidUTF8Character &) { E("refused"); return; }
	E("never");
}
template<class T> struct Sink: AutoArray<T> {
	natural n; Sink():n(0) {}
	void show() { vector<T> y; for (; n < this->length(); n++) y.push_back((*this)[n]); out(y); }
};
template<class F, class W, class T> void writeAllTo(Rnd &r, W &w, Sink<T> &s, const vector<F> &src, bool &dead) {
	size_t i = 0;
	try { while (i < src.size()) {
		if (r.p(40)) {
			size_t n = 1 + r(9); if (n > src.size() - i) n = src.size() - i; bool all = r.p(70); natural k;
			if (r.p(50)) k = w.blockWrite(ConstStringT<F>(&src[i], n), all);
			else { vector<F> b(src.begin() + i, src.begin() + i + n); k = w.blockWrite(ArrayRef<F>(&b[0], n), all); }
			s.show(); if (all || k == 0 || k > n) E("wrote").i("n", n).i("k", k).b("all", all).i("at", i); i += k;
			if (k == 0) return;
		} else { w.write(src[i]); i++; if (r.p(30)) s.show(); }
	} } catch (InvalidUTF8Character &) { s.show(); E("refused"); dead = true; }
}
template<class C> void convRead(Rnd &r, C c, const string &kind, const vector<typename C::FromType> &src) {
	typedef typename C::FromType F; block(kind, src);
	ConstStringT<F> a(src.empty() ? (const F *)"" : &src[0], src.size()); typename ConstStringT<F>::Iterator it = a.getFwIter();
	ConvertReadIter<C, typename ConstStringT<F>::Iterator &> rd(c, it); readAllOf(r, rd, true);
}
template<class C> void convWrite(Rnd &r, C c, const string &kind, const vector<typename C::FromType> &src) {
	typedef typename C::FromType F; typedef typename C::ToType T; block(kind, src);
	Sink<T> s; bool dead = false;
	{ typename Sink<T>::WriteIter wi = s.getWriteIterator(); ConvertWriteIter<C, typename Sink<T>::WriteIter &> w(c, wi); writeAllTo<F>(r, w, s, src, dead); if (!dead && r.p(50)) w.flush(); }
	if (dead) return;
	s.show(); E("close");
}
template<class Fl> void fltRead(Rnd &r, Fl f, const string &kind, const vector<typename Fl::InputT> &src) {
	typedef typename Fl::InputT F; block(kind, src);
	ConstStringT<F> a(src.empty() ? (const F *)"" : &src[0], src.size());
	typename Filter<Fl>::template Read<typename ConstStringT<F>::Iterator> rd(a.getFwIter(), f); readAllOf(r, rd, true);
}
template<class Fl> void fltWrite(Rnd &r, Fl f, const string &kind, const vector<typename Fl::InputT> &src) {
	typedef typename Fl::InputT F; typedef typename Fl::OutputT T; block(kind, src);
	Sink<T> s; bool dead = false;
	{ typename Sink<T>::WriteIter wi = s.getWriteIterator(); typename Filter<Fl>::template Write<typename Sink<T>::WriteIter &> w(wi, f); writeAllTo<F>(r, w, s, src, dead); if (!dead && r.p(50)) w.flush(); }
	if (dead) return;
	s.show(); E("close");
}
template<class Fl> void fltRaw(Rnd &r, Fl f, const string &kind, const vector<typename Fl::InputT> &src) {
	typedef typename Fl::InputT F; typedef typename Fl::OutputT T; block(kind, src);
	vector<T> y; size_t i = 0;
	try { while (i < src.size()) {
		if (f.needItems() && r.p(70)) f.input(src[i++]);
		else if (f.hasItems()) { y.push_back(f.output()); if (r.p(30)) { out(y); y.clear(); } }
		else if (!f.needItems()) { out(y); E("never"); return; }
	} } catch (InvalidUTF8Character &) { out(y); E("refused"); return; }
	while (f.hasItems()) y.push_back(f.output());
	f.flush(); while (f.hasItems()) y.push_back(f.output());
	out(y); E("close");
}
template<class C> void convAll(int k, C c, const string &kind, std::function<vector<typename C::FromType>(Rnd &)> gen, bool multi) {
	Rnd r(k, kind.size() * 31 + kind[0] + kind[kind.size() - 1] * 7); next(cfgs("via", "conv")); string kd = kind;
	switch (k % 3) {
	case 0: convRaw(r, c, kd, [&] { return gen(r); }, multi ? 1 + r(3) : 1); break;
	case 1: convRead(r, c, kd, gen(r)); break;
	case 2: convWrite(r, c, kd, gen(r)); break;
	}
}
template<class Fl> void fltAll(int k, Fl f, const string &kind, std::function<vector<typename Fl::InputT>(Rnd &)> gen) {
	Rnd r(k, kind.size() * 37 + kind[0] + kind[kind.size() - 1] * 7); next(cfgs("via", "filter"));
	switch (k % 3) { case 0: fltRaw(r, f, kind, gen(r)); break; case 1: fltRead(r, f, kind, gen(r)); break; case 2: fltWrite(r, f, kind, gen(r)); break; }
}
size_t len(Rnd &r) { return r.p(70) ? r(14) : r(50); }
template<class T> vector<T> anyBytes(Rnd &r) { vector<T> v(len(r)); int m = r(3); for (auto &x : v) x = (T)(unsigned char)(m == 0 ? r(256) : m == 1 ? (r.p(50) ? 255 : 0) : "aZ09-_ +%/\x80\xff"[r(12)]); return v; }
template<class T> vector<T> fromAlpha(Rnd &r, const string &al, size_t n) { vector<T> v; for (size_t i = 0; i < n; i++) v.push_back((T)al[r(al.size())]); return v; }
const string B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", B64U = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", B32 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
const string B85 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.-:+=^!/*?&<>()[]{}@%$#";
// whole groups and one that is not
template<class T> vector<T> grouped(Rnd &r, const string &al, int g, const vector<int> &tails, int pad) {
	int t = tails[r(tails.size())]; auto v = fromAlpha<T>(r, al, g * r(6) + t);
	if (pad && t) { for (int i = t; i < g; i++) v.push_back((T)pad); }
	return v;
}
vector<wchar_t> wides(Rnd &r) {
	static const long edge[] = { 0, 0x7f, 0x80, 0x7fe, 0x7ff, 0x800, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x1ffffe, 0x1fffff, 0x200000, 0x3fffffe, 0x3ffffff, 0x4000000, 0x7fffffe, 0x7ffffff, 0x8000000, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff };
	vector<wchar_t> v(len(r)); for (auto &x : v) { int m = r(6); x = m == 0 ? r(128) : m == 1 ? r(0x900) : m == 2 ? r(0x10ffff) : m == 3 ? r(0x7fffffff) : edge[r(sizeof(edge) / sizeof(*edge))]; } return v;
}
vector<char> utf8(Rnd &r, bool broken) {
	vector<char> v; size_t n = len(r) / 2;
	for (size_t i = 0; i < n; i++) {
		int m = r(7), parts = m < 3 ? m : m == 3 ? 3 : r(broken ? 5 : 7);
		if (parts == 0) v.push_back(r(128)); else if (parts == 6) v.push_back((char)0xFE); else v.push_back((char)((0xFF00 >> (parts + 1)) | r(1 << (6 - parts))));
		if (parts == 6) v.push_back((char)(0x80 | r(2)));
		for (int j = parts == 6; j < parts; j++) v.push_back((char)(0x80 | r(64)));
	}
	if (broken && v.size()) { size_t at = r(v.size()); switch (r(4)) { case 0: v[at] = (char)r(256); break; case 1: v.erase(v.begin() + at); break; case 2: v.insert(v.begin() + at, (char)(0x80 | r(64))); break; case 3: v.insert(v.begin() + at, (char)0xff); break; }
		// the end is on the border of a character
		v.push_back('.'); v.push_back('.'); }
	return v;
}

#if PART == 0
template<class E> void hexAll() {}
void reg() {
	for (int sh = 0; sh < 8; sh++) add("base64/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(30); i++) { int k = i * 8 + sh; typedef ByteToBase64Convert C; typedef Base64ToByteConvert D;
			convAll<C>(k, C(), "e64", anyBytes<byte>, true);
			convAll<C>(k, C(C::forUrlTable, C::standardPadding), "e64u", anyBytes<byte>, true);
			convAll<C>(k, C(C::standardTable, C::noPadding), "e64n", anyBytes<byte>, true);
			convAll<C>(k, C(C::forUrlTable, C::noPadding), "e64un", anyBytes<byte>, true);
			convAll<D>(k, D(), "d64", [](Rnd &r) { return grouped<char>(r, r.p(50) ? B64 : B64U, 4, {0, 2, 3}, '='); }, true);
			convAll<D>(k, D(), "d64", [](Rnd &r) { return grouped<char>(r, B64, 4, {0, 2, 3}, 0); }, true);
			convAll<D>(k, D(D::forUrlTable, D::noPadding), "d64", [](Rnd &r) { return grouped<char>(r, B64U, 4, {0, 2, 3}, 0); }, true);
			convAll<D>(k, D(D::standardTable, '~'), "d64", [](Rnd &r) { return grouped<char>(r, B64, 4, {0, 2, 3}, '~'); }, true);
		}
	}, 60);
	for (int sh = 0; sh < 4; sh++) add("base64f/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(40); i++) { int k = i * 4 + sh;
			fltAll<Base64Encoder>(k, Base64Encoder(), "e64", anyBytes<byte>);
			fltAll<Base64Encoder>(k, Base64Encoder(true), "e64u", anyBytes<byte>);
			fltAll<Base64EncoderChr>(k, Base64EncoderChr(false, true), "e64n", anyBytes<char>);
			fltAll<Base64EncoderBin>(k, Base64EncoderBin(true, true), "e64un", anyBytes<byte>);
			fltAll<Base64Decoder>(k, Base64Decoder(), "d64", [](Rnd &r) { return grouped<char>(r, r.p(50) ? B64 : B64U, 4, {0, 2, 3}, "=.~"[r(3)]); });
			fltAll<Base64DecoderChr>(k, Base64DecoderChr(), "d64", [](Rnd &r) { return grouped<char>(r, B64, 4, {0, 2, 3}, 0); });
			fltAll<Base64DecoderBin>(k, Base64DecoderBin(), "d64", [](Rnd &r) { auto v = grouped<byte>(r, B64, 4, {0, 2, 3}, '='); for (int n = r(4); n-- && v.size(); ) v.insert(v.begin() + r(v.size()), "\r\n "[r(3)]); return v; });
		}
	}, 60);
}
#elif PART == 1
void reg() {
	for (int sh = 0; sh < 4; sh++) add("base16/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(30); i++) { int k = i * 4 + sh; typedef ByteToBase16Convert C; typedef Base16ToByteConvert D;
			convAll<C>(k, C(), "e16", anyBytes<byte>, true);
			convAll<C>(k, C(C::hexLowerCase), "e16l", anyBytes<byte>, true);
			convAll<D>(k, D(), "d16", [](Rnd &r) { return fromAlpha<char>(r, "0123456789ABCDEFabcdef", 2 * r(14)); }, true);
			convAll<D>(k, D(D::hexLowerCase), "d16", [](Rnd &r) { return fromAlpha<char>(r, "0123456789ABCDEFabcdef", 2 * r(14)); }, true);
			convAll<D>(k, D(D::hexLowerCase, true), "d16", [](Rnd &r) { return fromAlpha<char>(r, "0123456789abcdef", 2 * r(14)); }, true);
			fltAll<HexEncoder<> >(k, HexEncoder<>(), "e16l", anyBytes<byte>);
			fltAll<HexEncoder<char, byte> >(k, HexEncoder<char, byte>("0123456789ABCDEF"), "e16", anyBytes<char>);
			fltAll<HexDecoder<> >(k, HexDecoder<>(), "d16", [](Rnd &r) { return fromAlpha<char>(r, "0123456789abcdef", 2 * r(14)); });
			fltAll<HexDecoder<byte, char> >(k, HexDecoder<byte, char>("0123456789ABCDEF"), "d16", [](Rnd &r) { return fromAlpha<byte>(r, "0123456789ABCDEF", 2 * r(14)); });
		}
	}, 60);
	for (int sh = 0; sh < 4; sh++) add("base32/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(30); i++) { int k = i * 4 + sh; typedef ByteToBase32Convert C; typedef Base32ToByteConvert D;
			convAll<C>(k, C(), "e32", anyBytes<byte>, true);
			convAll<C>(k, C(C::standardTable, C::noPadding), "e32n", anyBytes<byte>, true);
			string low = B32; for (char &c : low) c = tolower(c);
			convAll<D>(k, D(), "d32", [&](Rnd &r) { return grouped<char>(r, r.p(50) ? B32 : low + B32, 8, {0, 2, 4, 5, 7}, '='); }, true);
			convAll<D>(k, D(D::standardTable, D::noPadding), "d32", [&](Rnd &r) { return grouped<char>(r, low, 8, {0, 2, 4, 5, 7}, 0); }, true);
			convAll<D>(k, D(D::standardTable, '=', true), "d32", [&](Rnd &r) { return grouped<char>(r, B32, 8, {0, 2, 4, 5, 7}, '='); }, true);
		}
	}, 60);
	for (int sh = 0; sh < 2; sh++) add("base85/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(40); i++) { int k = i * 2 + sh; typedef ByteToBase85Convert C; typedef Base85ToByteConvert D;
			convAll<C>(k, C(), "e85", anyBytes<byte>, true);
			convAll<D>(k, D(), "d85", [&](Rnd &r) { auto v = grouped<char>(r, B85, 5, {0, 2, 3, 4}, 0); for (size_t j = 0; j < v.size(); j += 5) v[j] = B85[r(81)]; for (int n = r(3); n-- && v.size(); ) v.insert(v.begin() + r(v.size()), "\n\t "[r(3)]); return v; }, true);
		}
	}, 60);
}
#else
void reg() {
	for (int sh = 0; sh < 4; sh++) add("url/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(30); i++) { int k = i * 4 + sh;
			auto text = [](Rnd &r) { vector<char> v; for (size_t n = len(r); n--; ) { if (r.p(60)) v.push_back("aZ09-_+ ./~*"[r(12)]); else { v.push_back('%'); for (int j = 0; j < 2; j++) v.push_back("0123456789ABCDEFabcdef"[r(22)]); } } return v; };
			convAll<UrlEncodeConvert>(k, UrlEncodeConvert(), "eurl", anyBytes<char>, true);
			convAll<UrlDecodeConvert>(k, UrlDecodeConvert(), "durl", text, true);
			fltAll<UrlEncoder>(k, UrlEncoder(), "eurl", anyBytes<char>);
			fltAll<UrlDecoder>(k, UrlDecoder(), "durl", text);
		}
	}, 60);
	for (int sh = 0; sh < 4; sh++) add("utf/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(40); i++) { int k = i * 4 + sh;
			convAll<WideToUtf8Convert>(k, WideToUtf8Convert(), "eutf", wides, true);
			convAll<Utf8ToWideConvert>(k, Utf8ToWideConvert(), "dutf", [](Rnd &r) { return utf8(r, false); }, true);
			convAll<Utf8ToWideConvert>(k, Utf8ToWideConvert(), "dutf", [](Rnd &r) { return utf8(r, true); }, true);
			fltAll<WideToUtf8Filter>(k, WideToUtf8Filter(), "eutf", wides);
			fltAll<Utf8ToWideFilter>(k, Utf8ToWideFilter(), "dutf", [](Rnd &r) { return utf8(r, false); });
			fltAll<Utf8ToWideFilter>(k, Utf8ToWideFilter(), "dutf", [](Rnd &r) { return utf8(r, true); });
			auto w16 = [](Rnd &r) { vector<wchar_t> v(len(r)); for (auto &x : v) { x = r(0xfd00); if (r.p(30)) x = r(3) * 256 + r(3); } return v; };
			fltAll<WideToBytes>(k, WideToBytes(), "ew16", w16);
			fltAll<WideToBytes>(k, WideToBytes(true), "ew16b", w16);
			auto b16 = [](Rnd &r) { vector<byte> v(2 * r(20)); for (auto &x : v) { x = r(256); if (r.p(30)) x = 0xfe + r(2); } v.push_back(65); v.push_back(66); return v; };
			fltAll<BytesToWide>(k, BytesToWide(), "dw16", b16);
			fltAll<BytesToWide>(k, BytesToWide(true), "dw16b", b16);
		}
	}, 60);
}
#endif
}
#if PART == 0
void reg0() { reg(); }
void reg1(); void reg2();
int main(int argc, char **argv) { reg0(); reg1(); reg2(); return seq::main(argc, argv); }
#elif PART == 1
void reg1() { reg(); }
#else
void reg2() { reg(); }
#endif
