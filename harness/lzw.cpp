// LZW: both converters step by step, and round trips through iterators in pieces of any size.
#include "seq.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/constStr.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/utils/lzw.h"
using namespace LightSpeed;
using namespace seq;
using std::string; using std::vector; using std::to_string;

template<class C> static void drain(C &c, vector<byte> &y) { while (c.hasItems) { byte p = c.peek(); byte g = c.getNext(); y.push_back(p == g ? g : g ^ 0x55); } }
static vector<byte> text(Rnd &r, size_t n, int letters) {
	vector<byte> v; int m = r(4);
	while (v.size() < n) {
		if (m == 0) v.push_back(r(letters));
		else if (m == 1) { byte c = r(letters); for (int k = r(20); k-- >= 0;) v.push_back(c); }
		else if (m == 2 && v.size() > 10 && r.p(50)) { size_t a = r(v.size() - 5), l = 2 + r(40); for (size_t i = 0; i < l && a + i < v.size(); i++) v.push_back(v[a + i]); }
		else v.push_back(r.p(80) ? r(letters) : 255 - r(letters));
	}
	v.resize(n); return v;
}
template<class C, class D> static void steps(Rnd &r, int bits, const char *kind, const vector<vector<byte> > &src) {
	next(cfgs("kind", kind) + "," + cfgi("max", (1 << bits) - 4));
	C c(bits); D d;
	for (auto &s : src) {
		vector<byte> all; size_t i = 0;
		while (i < s.size()) {
			size_t n = 1 + r(60); if (n > s.size() - i) n = s.size() - i; vector<byte> y;
			for (size_t j = 0; j < n; j++) { c.write(s[i + j]); drain(c, y); }
			E("c").v("in", vector<byte>(s.begin() + i, s.begin() + i + n)).v("y", y); all.insert(all.end(), y.begin(), y.end()); i += n;
		}
		{ vector<byte> y; c.flush(); drain(c, y); E("cf").v("y", y); all.insert(all.end(), y.begin(), y.end()); }
		i = 0;
		while (i < all.size()) {
			size_t n = 1 + r(60); if (n > all.size() - i) n = all.size() - i; vector<byte> y;
			for (size_t j = 0; j < n; j++) { d.write(all[i + j]); drain(d, y); }
			E("d").v("in", vector<byte>(all.begin() + i, all.begin() + i + n)).v("y", y); i += n;
		}
	}
}
typedef AutoArray<byte> Bytes;
template<class C, class D> static void pipes(Rnd &r, int bits, const vector<byte> &s) {
	next(cfgs("kind", "pipe") + "," + cfgi("max", 0));
	Bytes packed, back; C c(bits);
	if (r.p(50)) { Bytes::WriteIter wi = packed.getWriteIterator(); ConvertWriteIter<C, Bytes::WriteIter &> w(c, wi); size_t i = 0; while (i < s.size()) { size_t n = 1 + r(500); if (n > s.size() - i) n = s.size() - i; if (r.p(70)) i += w.blockWrite(ConstBin(&s[i], n), true); else w.write(s[i++]); } }
	else { ConstBin src(s.empty() ? (const byte *)"" : &s[0], s.size()); ConstBin::Iterator it = src.getFwIter(); ConvertReadIter<C, ConstBin::Iterator &> rd(c, it); while (rd.hasItems()) { if (r.p(50)) { byte b[300]; size_t n = 1 + r(299); natural k = rd.blockRead(ArrayRef<byte>(b, n).ref(), false); for (natural j = 0; j < k; j++) packed.add(b[j]); } else packed.add(rd.getNext()); } }
	D d;
	if (r.p(50)) { Bytes::WriteIter wi = back.getWriteIterator(); ConvertWriteIter<D, Bytes::WriteIter &> w(d, wi); size_t i = 0; while (i < packed.length()) { size_t n = 1 + r(500); if (n > packed.length() - i) n = packed.length() - i; if (r.p(70)) { natural k = w.blockWrite(ConstBin(packed.data() + i, n), true); if (k == 0) break; i += k; } else w.write(packed[i++]); } }
	else { Bytes::Iterator it = packed.getFwIter(); ConvertReadIter<D, Bytes::Iterator &> rd(d, it); while (rd.hasItems()) { if (r.p(50)) { byte b[300]; size_t n = 1 + r(299); natural k = rd.blockRead(ArrayRef<byte>(b, n).ref(), false); for (natural j = 0; j < k; j++) back.add(b[j]); } else back.add(rd.getNext()); } }
	E("rt").v("src", s).v("y", vector<byte>(back.data(), back.data() + back.length()));
}
// Inputs (fixed, not from VERIF_SEED) after which the dictionary kept by LZWp ends around the place where codes become one bit longer.
static vector<byte> edge(unsigned seed, size_t n) {
	unsigned x = seed; auto g = [&](unsigned k) { x = x * 1103515245u + 12345u; return (x >> 12) % k; }; vector<byte> s;
	while (s.size() < n) { if (s.size() > 10 && g(2)) { size_t a = g(s.size() - 5), l = 2 + g(12); for (size_t i = 0; i < l; i++) s.push_back(s[a + i % (s.size() - a)]); } else s.push_back(g(30)); }
	s.resize(n); return s;
}
static const unsigned EDGE[][3] = { { 10, 1229, 2863 }, { 10, 880, 2724 }, { 10, 2158, 2855 }, { 10, 2826, 2754 }, { 10, 1599, 2717 }, { 10, 744, 2826 }, { 10, 962, 2687 },
	{ 11, 956, 4470 }, { 11, 1133, 4358 }, { 11, 2875, 4436 }, { 11, 2101, 4430 }, { 11, 961, 4373 }, { 11, 1666, 4592 }, { 11, 2937, 4516 } };
int main(int argc, char **argv) {
	for (int sh = 0; sh < 8; sh++) add("steps/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(4); i++) { int k = i * 8 + sh; Rnd r(k, 500); static const int L[] = { 1, 2, 3, 10, 128, 256 };
			vector<vector<byte> > s; int nb = r.p(60) ? 1 : 2 + r(2); for (int b = 0; b < nb; b++) s.push_back(text(r, r.p(10) ? r(3) : r.p(50) ? r(200) : 400 + r(500), L[r(6)]));
			if (k & 1) steps<LZWCompress, LZWDecompress>(r, 9 + r(2), "plain", s); else steps<LZWpCompress, LZWpDecompress>(r, 9 + r(2), "keep", s);
		}
	}, 60);
	for (int sh = 0; sh < 8; sh++) add("pipes/" + to_string(sh), "", [sh] {
		for (int i = 0; i < count(12); i++) { int k = i * 8 + sh; Rnd r(k, 501); static const int L[] = { 1, 2, 3, 10, 128, 256 };
			auto s = text(r, r.p(10) ? r(3) : r.p(50) ? r(600) : 1000 + r(4000), L[r(6)]); int bits = 9 + r(r.p(70) ? 2 : 7);
			if (k & 1) pipes<LZWCompress, LZWDecompress>(r, bits, s); else pipes<LZWpCompress, LZWpDecompress>(r, bits, s);
		}
	}, 60);
	for (unsigned e = 0; e < sizeof EDGE / sizeof *EDGE; e++) add("edge/" + to_string(e), "", [e] {
		const unsigned *p = EDGE[e]; Rnd r(e, 502);
		for (int n = 0; n < 3; n++) { auto s = edge(p[1], p[2] + 300); pipes<LZWpCompress, LZWpDecompress>(r, p[0], s); pipes<LZWCompress, LZWDecompress>(r, p[0], s); }
		if (count(1) > 1 && p[0] == 10) steps<LZWpCompress, LZWpDecompress>(r, 10, "keep", { edge(p[1], p[2] + 100) });
	}, 60);
	return seq::main(argc, argv);
}
