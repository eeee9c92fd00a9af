// Counted references under the explorer: every thread works with its own handles, objects are shared.
#include <lightspeed/base/memory/refCntPtr.h>
#include <lightspeed/mt/thread.h>
#include "vsworker.h"
using namespace LightSpeed;
struct Obj : RefCntObj { int id; volatile int data; Obj(int i):id(i),data(7) {} ~Obj() { vs::evraw("\"e\":\"died\"," + vs::kv("t", vs::self()) + "," + vs::kv("o", id)); data = 0; } };
typedef RefCntPtr<Obj> P;
typedef RefCntPtr<const Obj> CP;
struct St { P h[5][3]; };
// g slot1 = handle of the master, c slot1 = slot0, m slot0 moved to slot1, w slot0 <-> slot1 through a third one, d/e/f clear slot 0/1/2, s slot0 shared?, u use slot0, k slot2 = slot0 through a handle to const,
// n slot0 = new object, x slot1 destroyed and built again empty, r manual count up and down of slot0, o slot0 = slot0
static void run(St *s, int t, const std::string &p) {
	P *h = s->h[t]; int fresh = 10 * t;
	for (char c : p) switch (c) {
		case 'g': OPV("copy", vs::kv("ft", 0) + "," + vs::kv("fs", 0) + "," + vs::kv("to", 1), h[1] = s->h[0][0]); break;
		case 'c': OPV("copy", vs::kv("ft", t) + "," + vs::kv("fs", 0) + "," + vs::kv("to", 1), h[1] = h[0]); break;
		case 'k': OPV("copy", vs::kv("ft", t) + "," + vs::kv("fs", 0) + "," + vs::kv("to", 2), CP q(h[0].get()); if (q != nil) (void)q->data; h[2] = P(const_cast<Obj *>(q.get()))); break;
		case 'o': OPV("copy", vs::kv("ft", t) + "," + vs::kv("fs", 0) + "," + vs::kv("to", 0), h[0] = *&h[0]); break;
		case 'm': OPV("move", vs::kv("fs", 0) + "," + vs::kv("to", 1), h[1] = std::move(h[0])); break;
		case 'w': OPV("swap", "", P q(std::move(h[0])); h[0] = std::move(h[1]); h[1] = std::move(q)); break;
		case 'd': OPV("drop", vs::kv("to", 0), h[0].clear()); break;
		case 'e': OPV("drop", vs::kv("to", 1), h[1] = nil); break;
		case 'f': OPV("drop", vs::kv("to", 2), h[2] = P()); break;
		case 'x': OPV("drop", vs::kv("to", 1), h[1].~P(); new(&h[1]) P); break;
		case 's': OPB("shared", "", h[0].isShared()); break;
		case 'r': OPV("copy", vs::kv("ft", t) + "," + vs::kv("fs", 0) + "," + vs::kv("to", 0), h[0].manualAddRef(); h[0].manualRelease()); break;
		case 'n': { int id = ++fresh; OPV("fresh", vs::kv("o", id), h[0] = new Obj(id)); } break;
		case 'u': if (h[0] != nil) { if (h[0]->data != 7) vs::evraw("\"e\":\"bad\""); } break;
	}
}
void vs::registerScenarios() {
	std::vector<Progs> ps = { {"d","d"}, {"d","d","d"}, {"cd","cd"}, {"cde","d"}, {"ds","sd"}, {"mx","d"}, {"gd","d"}, {"ge","ge"}, {"kdf","kdf"}, {"kdf","sds"}, {"n","n"}, {"nd","ud"}, {"wxd","ud"}, {"cwdx","de"}, {"rd","rd"}, {"od","od"}, {"cmx","d"}, {"cx","cx","d"}, {"ngd","ge"}, {"ce","ud"}, {"udcx","udge"} };
	for (int keep = 0; keep < 2; keep++) for (auto &p : ps) {
		vs::add(std::string(keep ? "RefK" : "Ref") + join(p), "{\"n\":0}", [p, keep]() {
			St *s = new St; s->h[0][0] = new Obj(1); std::string hs = "1";
			for (size_t i = 0; i < p.size(); i++) s->h[i + 1][0] = s->h[0][0];
			// either the master keeps its handle or it is empty from the beginning
			if (!keep) s->h[0][0] = nil;
			vs::emitBlock(false);
			vs::evraw(std::string("\"e\":\"init\",\"keep\":") + (keep ? "true," : "false,") + vs::kv("n", p.size()));
			for (size_t i = 0; i < p.size(); i++) { std::string x = p[i]; int t = i + 1; vs::spawn(worker([s, t, x]() { run(s, t, x); })); }
			vs::go();
			for (int t = 1; t < 5; t++) for (int i = 0; i < 3; i++) if (s->h[t][i] != nil) vs::evraw("\"e\":\"left\"," + vs::kv("t", t) + "," + vs::kv("s", i) + "," + vs::kv("o", s->h[t][i]->id));
			vs::evraw("\"e\":\"end\"");
		});
	}
}
