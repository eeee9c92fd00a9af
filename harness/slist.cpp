// The list shared by threads and the pool of memory over it, under the explorer.
#include <lightspeed/mt/slist.h>
#include <lightspeed/base/memory/poolalloc.h>
#include <lightspeed/mt/thread.h>
#include <malloc.h>
#include <map>
#include "vsworker.h"
using namespace LightSpeed;
struct alignas(16) Node { Node *next; int id; };
typedef SList<Node> L;
struct St { L list; L own[5]; Node node[40]; std::vector<int> hand[5]; int took[5]; };
static std::string ids(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
static std::vector<int> walk(L &l) { std::vector<int> v; for (Node *n = l.top(); n && v.size() < 50; n = n->next) v.push_back(n->id); return v; }
static std::string rn(long v) { return vs::kv("res", v); }
// p push a node in hand, o pop, b push the node popped first, t exchange with own list by take, s by swap, i/j/k exchange when node 1/none/the one just looked at is on the top,
// y look at the top, e empty?, P/O push/pop own list, R reverse own list
static void run(St *s, int t, const std::string &p) {
	std::vector<int> &h = s->hand[t]; Node *n; int seen = 0;
	for (char c : p) switch (c) {
		case 'p': if (!h.empty()) { int o = h.back(); h.pop_back(); vs::call("push", vs::kv("o", o)); s->list.push(&s->node[o]); vs::ret("push", rn(0)); } break;
		case 'b': if (!h.empty()) { int o = h.front(); h.erase(h.begin()); vs::call("push", vs::kv("o", o)); s->list.push(&s->node[o]); vs::ret("push", rn(0)); } break;
		case 'P': if (!h.empty()) { int o = h.back(); h.pop_back(); vs::call("lpush", vs::kv("o", o)); s->own[t].push_st(&s->node[o]); vs::ret("lpush", rn(0)); } break;
		case 'o': vs::call("pop"); n = s->list.pop(); vs::ret("pop", rn(n ? n->id : 0)); if (n) h.push_back(n->id); break;
		case 'O': vs::call("lpop"); n = s->own[t].pop_st(); vs::ret("lpop", rn(n ? n->id : 0)); if (n) h.push_back(n->id); break;
		case 't': vs::call("take"); s->own[t].take(s->list); vs::ret("take", rn(0)); break;
		case 's': vs::call("take"); s->list.swap(s->own[t]); vs::ret("take", rn(0)); break;
		case 'i': case 'j': case 'k': { int o = c == 'i' ? 1 : c == 'j' ? 0 : seen; vs::call("takeif", vs::kv("o", o)); bool b = s->list.swapWhenTopIs(s->own[t], o ? &s->node[o] : 0); vs::ret("takeif", rn(b)); } break;
		case 'y': vs::call("top"); n = s->list.top(); seen = n ? n->id : 0; vs::ret("top", rn(seen)); break;
		case 'e': { vs::call("empty"); bool b = s->list.empty(); vs::ret("empty", rn(b)); } break;
		case 'R': { vs::call("lrev"); L x; s->own[t].reverse_st(x); s->own[t].take(x); vs::ret("lrev", rn(0)); } break;
	}
}
// ---- the pool: A..D allocate 8, 24, 40, 200 bytes, 1..4 give back the n-th held block, f free what waits in the pool, r the owner gives the pool up
struct Pool { PoolAlloc *p; std::map<void *, int> ids; };
static void prun(Pool *s, int t, const std::string &p) {
	std::vector<std::pair<unsigned char *, int>> h; int fill = t * 40;
	for (char c : p) switch (c) {
		case 'A': case 'B': case 'C': case 'D': { static const int sz[] = {8, 24, 40, 200}; int n = sz[c - 'A'];
			vs::call("alloc"); IRuntimeAlloc *o = s->p; unsigned char *q = (unsigned char *)(fill & 1 ? s->p->alloc(n) : s->p->alloc(n, o)); int id; bool fits; 
			{ vs::Quiet z; int &r = s->ids[q]; if (!r) r = s->ids.size(); id = r; fits = ((unsigned long)q & 7) == 0 && malloc_usable_size(q - sizeof(natural)) >= n + sizeof(natural) && o == s->p; memset(q, ++fill, n); *(int *)q = fill; h.push_back(std::make_pair(q, n)); }
			vs::ret("alloc", rn(id) + ",\"fits\":" + (fits ? "true" : "false")); } break;
		case '1': case '2': case '3': case '4': { size_t i = c - '1'; if (i < h.size()) { unsigned char *q = h[i].first; int n = h[i].second, id; bool ok = true;
			{ vs::Quiet z; id = s->ids[q]; int f = *(int *)q; for (int k = 4; k < n; k++) if (q[k] != (unsigned char)f) ok = false; ok = ok && f / 40 == t; h.erase(h.begin() + i); }
			vs::call("dealloc", vs::kv("o", id) + ",\"whole\":" + (ok ? "true" : "false")); s->p->dealloc(q, n); vs::ret("dealloc", rn(0)); } } break;
		case 'f': vs::call("free"); s->p->freeExtra(); vs::ret("free", rn(0)); break;
		case 'r': vs::call("free"); s->p->release(); vs::ret("free", rn(0)); break;
	}
}
void vs::registerScenarios() {
	// first the nodes in the list (from the top), then the programs
	struct S { int n; Progs p; };
	std::vector<S> ss = { {0,{"p","p"}}, {0,{"po","po"}}, {1,{"o","o"}}, {2,{"o","ob"}}, {2,{"o","oob"}}, {2,{"oo","oo"}}, {2,{"o","oobo"}}, {3,{"o","ooob"}}, {3,{"o","ooobb"}}, {2,{"o","oob","p"}}, {2,{"o","ob","ob"}}, {3,{"o","oob","o"}}, {1,{"pe","oe"}}, {2,{"y","o"}},
		{2,{"o","t"}}, {2,{"o","tOOb"}}, {2,{"o","tOOpt"}}, {3,{"oo","tOOpb"}}, {2,{"t","pt"}}, {2,{"tp","po"}}, {2,{"Ps","o"}}, {2,{"PPs","ob"}}, {2,{"PtO","p"}}, {2,{"o","sOOb"}}, {2,{"s","p"}}, {1,{"Pi","o"}}, {2,{"Pyk","ob"}}, {2,{"Pyk","oobp"}}, {2,{"ykO","po"}}, {0,{"Pj","p"}}, {0,{"PPj","po"}}, {2,{"yk","yk"}}, {2,{"o","ykOOb"}}, {2,{"tRO","p"}}, {2,{"tRs","po"}}, {2,{"t","t","p"}}, {2,{"o","tOOb","p"}}, {3,{"o","PPtOb"}}, {2,{"i","oob"}}, {2,{"PiO","obp"}} };
	for (auto &x : ss) vs::add("List" + std::to_string(x.n) + join(x.p), "{\"n\":0}", [x]() {
		St *s = new St; for (int i = 0; i < 40; i++) s->node[i].id = i;
		std::string ls; std::vector<int> in; for (int i = x.n; i > 0; i--) { s->list.push(&s->node[i]); in.insert(in.begin(), i); }
		std::string hs = "["; for (size_t i = 0; i < x.p.size(); i++) { int t = i + 1; s->hand[t] = {t * 8 + 0, t * 8 + 1}; hs += (i ? "," : "") + ids(s->hand[t]); }
		vs::emitBlock(false); vs::evraw("\"e\":\"init\",\"list\":" + ids(in) + ",\"hand\":" + hs + "]");
		for (size_t i = 0; i < x.p.size(); i++) { std::string p = x.p[i]; int t = i + 1; vs::spawn(worker([s, t, p]() { run(s, t, p); })); }
		vs::go();
		std::string os = "["; for (size_t i = 0; i < x.p.size(); i++) os += (i ? "," : "") + ids(walk(s->own[i + 1]));
		vs::evraw("\"e\":\"end\",\"list\":" + ids(walk(s->list)) + ",\"own\":" + os + "]");
	});
	std::vector<S> ps = { {0,{"A1","A1"}}, {2,{"A","A"}}, {2,{"A1A","A1A"}}, {2,{"AA12","A"}}, {2,{"A1A","B1"}}, {2,{"B","A1"}}, {2,{"D1","AA12"}}, {3,{"AA11A","AB2"}}, {2,{"f","A1A"}}, {2,{"fA","AA1"}}, {1,{"A1A1","A1A1"}}, {2,{"AB1C","BA2D"}}, {2,{"A1","A1","A"}}, {2,{"AA","A1A","A"}}, {1,{"D","AB"}}, {2,{"r","A1"}} };
	for (auto &x : ps) vs::add("Pool" + std::to_string(x.n) + join(x.p), "{\"n\":0}", [x]() {
		vs::staleReads(true); Pool *s = new Pool; s->p = new PoolAlloc; std::vector<void *> pre;
		for (int i = 0; i < x.n; i++) pre.push_back(s->p->alloc(16)); for (void *q : pre) { s->ids[q] = s->ids.size(); } 
		int k = 0; for (auto &e : s->ids) e.second = ++k; for (void *q : pre) s->p->dealloc(q, 16);
		vs::emitBlock(false); vs::evraw("\"e\":\"start\"");
		for (size_t i = 0; i < x.p.size(); i++) { std::string p = x.p[i]; int t = i + 1; vs::spawn(worker([s, t, p]() { prun(s, t, p); })); }
		vs::go();
		vs::evraw("\"e\":\"stop\"");
	});
}
