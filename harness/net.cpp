// Network streams, sources of streams, datagrams and waiting for them, on the loopback only.
#include <lightspeed/base/types.h>
#include <lightspeed/base/streams/netio.h>
#include <lightspeed/base/exceptions/exception.h>
#include <lightspeed/base/exceptions/netExceptions.h>
#include <lightspeed/base/exceptions/throws.tcc>
#include <lightspeed/base/containers/string.tcc>
#include <lightspeed/base/interface.tcc>
#include <lightspeed/mt/thread.h>
#include <map>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <dirent.h>
#include <poll.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include "seq.h"
using namespace LightSpeed; using seq::E; using seq::Rnd; using std::to_string;
typedef std::string S; typedef std::chrono::steady_clock Clock;
namespace {
const int Long = 4000, Short = 3;
int fds() { int n = 0; DIR *x = opendir("/proc/self/fd"); while (readdir(x)) n++; closedir(x); return n; }
int sock(INetworkResource *r) { INetworkSocket *s = dynamic_cast<INetworkSocket *>(r); return s ? (int)s->getSocket(0) : -1; }
int portOf(int fd, bool peer) { sockaddr_storage a; socklen_t l = sizeof a; if ((peer ? getpeername(fd, (sockaddr *)&a, &l) : getsockname(fd, (sockaddr *)&a, &l)) < 0) return -1;
	return a.ss_family == AF_INET ? ntohs(((sockaddr_in *)&a)->sin_port) : ntohs(((sockaddr_in6 *)&a)->sin6_port); }
// equal bytes one after another are <<byte, how many>>
S runs(const byte *b, natural n) { S s = "["; for (natural i = 0; i < n;) { natural j = i; while (j < n && b[j] == b[i]) j++; if (s.size() > 1) s += ","; s += "[" + to_string((int)b[i]) + "," + to_string(j - i) + "]"; i = j; } return s + "]"; }
template<class F> const char *guard(F f) { try { return f(); } catch (NetworkTimeoutException &) { return "timeout"; } catch (NetworkIOError &) { return "error"; } catch (IteratorNoMoreItems &) { return "end"; } catch (Exception &) { return "other"; } }
int portNo(NetworkAddress a) { INetworkAddrEx *x = a.isNil() ? 0 : dynamic_cast<INetworkAddrEx *>(a.getHandle().get()); return x ? (int)x->getPortNumber() : -1; }

struct Obs: ISleepingObject { // one who waits for a notification
	std::mutex m; std::condition_variable c; std::vector<std::pair<int, Clock::time_point>> got;
	void wakeUp(natural reason) throw() { std::lock_guard<std::mutex> g(m); got.push_back(std::make_pair((int)reason, Clock::now())); c.notify_all(); }
	bool wait(int ms, std::pair<int, Clock::time_point> &r) { std::unique_lock<std::mutex> g(m); if (!c.wait_for(g, std::chrono::milliseconds(ms), [&] { return !got.empty(); })) return false; r = got.front(); got.erase(got.begin()); return true; }
};
struct Handler: INetworkResource::WaitHandler { mutable int calls, mask, tm; bool pass; Handler():calls(0),mask(0),tm(0),pass(true) {}
	natural wait(const INetworkResource *r, natural w, natural t) const { calls++; mask = (int)w; tm = t == naturalNull ? -1 : (int)t; return pass ? INetworkResource::WaitHandler::wait(r, w, t) : 0; } };

struct Lst { NetworkStreamSource s; int port, q; bool full; };
struct End { PNetworkStream s; bool open, gone; long in; bool fin, broken, big; int l; }; // in: bytes which wait for it, fin: the other side has finished
struct Reg { int x, mask, tm; Clock::time_point at; };
struct Net {
	Rnd &r; std::map<int, Lst> ls; std::map<int, End> es; std::map<int, int> byPort; int nl, nc; PNetworkEventListener el; Obs obs[3], req; std::map<int, Reg> regs; int base; byte val;
	Net(Rnd &r):r(r),nl(0),nc(0),base(fds()),val(0) {}
	static int other(int x) { return x % 2 ? x + 1 : x - 1; } // 2c-1 connects, 2c accepts
	INetworkResource *res(int x) { return x > 100 ? (INetworkResource *)ls[x - 100].s.getHandle().get() : (INetworkResource *)es[x].s.get(); }
	int ready(int x) { if (x > 100) return ls[x - 100].q > 0 ? 1 : 0; End &e = es[x]; return (e.in > 0 || e.fin ? 1 : 0) | 2; }
	bool any(int &x, bool accepted = false) { std::vector<int> v; for (auto &e : es) if (e.second.open) v.push_back(e.first); if (v.empty()) return false; x = v[r(v.size())]; return true; }
	bool used(int x) { for (auto &g : regs) if (g.second.x == x) return true; return false; }
	// what was expected has to be told before anything else happens
	void settle() { for (int o = 0; o < 3; o++) if (regs.count(o) && (ready(regs[o].x) & regs[o].mask)) collect(o, true); }
	void collect(int o, bool expect) { Reg g = regs[o]; std::pair<int, Clock::time_point> p; bool ok = obs[o].wait(expect ? Long : 8, p);
		if (ok) { int ms = std::chrono::duration_cast<std::chrono::milliseconds>(p.second - g.at).count(); E("sig").i("o", o).i("ev", p.first).i("ms", ms); regs.erase(o); } else { int ms = std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - g.at).count(); E("quiet").i("o", o).i("ms", ms); } }
	void listen() { int id = ++nl, lim = r(3) ? -1 : 1 + r(3), tm = Short; int mode = r(3); 
		const char *how = guard([&] { if (mode == 0) ls[id].s = NetworkStreamSource(0, lim < 0 ? naturalNull : lim, tm, Short, true); else ls[id].s = NetworkStreamSource(NetworkAddress("127.0.0.1", natural(0)), lim < 0 ? naturalNull : lim, tm, Short, StreamOpenMode::passive); return "ok"; });
		Lst &l = ls[id]; l.q = 0; l.full = false; l.port = how[0] == 'o' ? portNo(l.s.getLocalAddress()) : 0; bool right = l.port == portOf(sock(l.s.getHandle().get()), false);
		E("listen").i("l", id).i("lim", lim).t("r", how).b("port", right); 
		if (r(3) == 0) { const char *h = guard([&] { NetworkStreamSource x(NetworkAddress("127.0.0.1", (natural)l.port), 1, Short, Short, StreamOpenMode::passive); return "ok"; }); E("again").t("r", h); count(); } }
	void count() { E("fds").i("n", fds() - base - (el != nil ? 3 : 0)); }
	void connect() { std::vector<int> v; for (auto &l : ls) v.push_back(l.first); int dead = v.empty() || r(12) == 0 ? 1 : 0; int l = dead ? 0 : v[r(v.size())]; int port = 1; if (!dead) { port = ls[l].port; if (ls[l].q >= 8) return; }
		PNetworkStream s; NetworkStreamSource src; S peer; bool more = false; int async = r(3);
		const char *how = guard([&] { try { int lim = 1 + r(2); src = NetworkStreamSource(NetworkAddress::resolve("127.0.0.1", (natural)port), lim, Long, Short, r(2) ? StreamOpenMode::useAddress : StreamOpenMode::active); if (async == 0) src.wait(); s = src.getNext(); more = src.hasItems(); if (portNo(src.getRemoteAddress()) != port) return "peer"; if (more != (lim > 1)) return "limit"; return "ok"; } catch (NetworkConnectFailedException &) { return "refused"; } });
		int c = 0; if (s != nil) { c = 2 * ++nc - 1; byPort[portOf(sock(s.get()), false) * 1000 + l] = c; End &e = es[c]; e = End(); e.s = s; e.open = true; e.l = l; es[c + 1] = End(); if (l) ls[l].q++; }
		src = nil; E("connect").i("l", l).t("r", how).i("x", c); settle(); }
	void accept() { if (ls.empty()) return; auto i = ls.begin(); std::advance(i, r(ls.size())); Lst &l = i->second; if (!l.q && r(3)) return; l.s.getHandle()->setTimeout(l.q ? Long : Short);
		PNetworkStream s; int c = 0; bool has = l.s.hasItems(), same = true; const char *how = guard([&] { s = l.s.getNext(); return "ok"; });
		if (s != nil) { int p = portNo(l.s.getRemoteAddress()); same = p == portOf(sock(s.get()), true); int key = p * 1000 + i->first; c = byPort.count(key) ? byPort[key] + 1 : 0; l.q--; if (c) { es[c].s = s; es[c].open = true; } }
		E("accept").i("l", i->first).t("r", how).i("x", c).b("has", has).b("peer", same); }
	void closeL() { if (ls.empty() || r(5)) return; auto i = ls.begin(); std::advance(i, r(ls.size())); if (used(100 + i->first)) return; int id = i->first; for (auto &e : es) if (e.first % 2 && e.second.l == id && !es[e.first + 1].open && !es[e.first + 1].gone) { e.second.broken = e.second.fin = true; es[e.first + 1].gone = true; } E("closel").i("l", id); ls.erase(i); count(); }
	void write(int x) { End &e = es[x]; bool big = r(40) == 0; natural n = big ? 6000000 : 1 + r(r(3) ? 5 : 1500); val = val % 250 + 1; std::vector<byte> b(n, val); e.s->setTimeout(big || es[other(x)].big ? 20 : Long); natural got = 0;
		const char *how = guard([&] { got = e.s->write(b.data(), n); return "ok"; });
		E("write").i("x", x).i("v", val).i("n", n).i("got", got).t("r", how); int y = other(x); if (how[0] == 'o') { if (es[y].gone) e.broken = true; else es[y].in += got; } if (big) es[y].big = true; settle(); }
	long expect(int x) { End &e = es[x]; return e.broken ? -1 : e.in > 0 || e.fin; }
	void read(int x) { End &e = es[x]; long ex = expect(x); bool pk = r(4) == 0; natural n = r(12) == 0 ? 0 : r(8) == 0 || (e.big && r(2)) ? 200000 : 1 + r(r(2) ? 4 : 2000); std::vector<byte> b(n + 1, 0); if (n == 0 && r(2)) return; e.s->setTimeout(ex == 1 ? Long : ex == 0 ? Short : 30); natural got = 0;
		const char *how = guard([&] { got = pk ? e.s->peek(b.data(), n) : e.s->read(b.data(), n); return got ? "data" : n ? "eof" : "none"; }); E("read").i("x", x).i("n", n).b("pk", pk).k("d", runs(b.data(), got)).t("r", how); if (!pk) e.in -= got; }
	void ask(int x) { End &e = es[x]; long ex = expect(x); if (ex < 0) return; e.s->setTimeout(ex ? Long : Short); int k = r(3); bool v = false; natural n = 0;
		if (k == 0) { const char *how = guard([&] { v = e.s->canRead(); return "ok"; }); E("canread").i("x", x).b("v", v).t("r", how); }
		else if (k == 1) { v = e.s->canWrite(); E("canwrite").i("x", x).b("v", v); }
		else { if (ex) e.s->wait(1, Long); n = e.s->dataReady(); E("waits").i("x", x).i("n", n); } }
	void waitOn() { int x; if (!ls.empty() && r(4) == 0) { auto i = ls.begin(); std::advance(i, r(ls.size())); x = 100 + i->first; } else if (!any(x)) return; if (x < 100 && expect(x) < 0) return; int m = x > 100 ? r(2) : r(4); bool dflt = !m; if (dflt) m = 1; INetworkResource *q = res(x); Handler h; int how = r(4); bool sure = (ready(x) & m) && !(m == 2 && x < 100 && es[other(x)].big); int tm = sure ? Long : Short; natural v;
		if (how == 0) { h.pass = r(2); q->setWaitHandler(&h); }
		if (r(2)) { q->setTimeout(tm); v = dflt ? q->wait() : q->wait(m); } else v = q->wait(dflt ? 0 : m, tm);
		bool asked = how ? true : h.calls == 1 && h.mask == m && h.tm == tm; q->setWaitHandler(0); E("wait").i("x", x).i("m", m).i("v", v).b("asked", asked).b("pass", how ? true : h.pass); }
	void closeOut(int x) { End &e = es[x]; const char *how = guard([&] { e.s->closeOutput(); return "ok"; }); E("closeout").i("x", x).t("r", how); fin(x); settle(); }
	void fin(int x) { es[other(x)].fin = true; }
	void drop(int x) { if (used(x) || used(other(x))) return; End &e = es[x]; bool dirty = e.in > 0; e.s = nil; e.open = false; e.gone = true; E("drop").i("x", x); if (dirty) es[other(x)].broken = true; fin(x); if (r(3) == 0) count(); settle(); }
	// notifications by another thread
	bool free(int &x) { if (!ls.empty() && r(4) == 0) { auto i = ls.begin(); std::advance(i, r(ls.size())); x = 100 + i->first; return true; } if (!any(x) || es[x].broken || es[x].big || es[other(x)].big || es[other(x)].gone) return false; return true; }
	void elAdd() { int x; if (!free(x)) return; int o = r(3); if (regs.count(o) && (regs[o].x != x || regs[o].tm >= 0)) return; if (el == nil) el = INetworkServices::getNetServices().createEventListener(); int m = x > 100 ? 1 : r(3) ? 1 : 1 + r(3); bool fast = r(3) == 0; int tm = fast ? 5 + r(30) : -1; bool note = r(2);
		Reg g = {x, m, tm, Clock::now()}; regs[o] = g; el->add(res(x), &obs[o], x > 100 && r(2) ? 0 : m, tm < 0 ? naturalNull : tm, note ? &req : 0); if (note) { std::pair<int, Clock::time_point> p; note = req.wait(Long, p); if (!note) E("unheard").i("o", o); }
		E("eladd").i("o", o).i("x", x).i("m", m).i("tm", tm); settle(); }
	void elOp() { if (el == nil) return; int o = r(3); if (!regs.count(o)) { E("quiet").i("o", o).i("ms", 0); std::pair<int, Clock::time_point> p; if (obs[o].wait(1, p)) E("sig").i("o", o).i("ev", p.first).i("ms", 0); return; }
		if (r(3)) { collect(o, regs[o].tm >= 0); return; } 
		el->remove(res(regs[o].x), &obs[o], &req); std::pair<int, Clock::time_point> p; if (!req.wait(Long, p)) E("unheard").i("o", o); 
		if (obs[o].wait(0, p)) { int ms = std::chrono::duration_cast<std::chrono::milliseconds>(p.second - regs[o].at).count(); E("sig").i("o", o).i("ev", p.first).i("ms", ms); regs.erase(o); return; } regs.erase(o); E("elrem").i("o", o); }
	void end() { for (auto &g : regs) { el->remove(res(g.second.x), &obs[g.first], &req); std::pair<int, Clock::time_point> p; req.wait(Long, p); } regs.clear(); el = nil; ls.clear(); for (auto &e : es) e.second.s = nil; E("fin").i("n", fds() - base); }
};
void tcpRun(Rnd &r, int n, int mode) {
	Thread::getMaster(); Net t(r); t.listen();
	for (int i = 0; i < n; i++) { int x, k = r(34);
		if (k == 0 && t.ls.size() < 3) t.listen(); else if (k < 4) t.connect(); else if (k < 8) t.accept(); else if (k == 8) t.closeL();
		else if (k < 13) t.waitOn();
		else if (mode == 1 && k < 19) { if (r(2)) t.elAdd(); else t.elOp(); }
		else if (!t.any(x)) t.connect();
		else if (k < 21) t.write(x); else if (k < 26) t.read(x); else if (k < 28 || k > 29) t.ask(x); else if (k == 28 && r(3) == 0) t.closeOut(x); else if (r(3) == 0) t.drop(x); else t.read(x); }
	t.end();
}
// datagrams
struct Dg { PNetworkDatagram d; int src; };
void dgRun(Rnd &r, int n) {
	int base = fds(); std::vector<PNetworkDatagramSource> s; std::vector<int> ports; int seedp = 20000 + (getpid() * 7 + r(10000)) % 30000;
	for (int i = 0; i < 2; i++) for (int t = 0; t < 50; t++) { seedp = 20000 + (seedp - 20000 + 1) % 30000; const char *how = guard([&] { try { s.push_back(INetworkServices::getNetServices().createDatagramSource(seedp, Short)); return "ok"; } catch (NetworkPortOpenException &) { return "busy"; } }); if (how[0] == 'o') { ports.push_back(seedp); break; } }
	if (s.size() < 2) { s.clear(); return; } // no IPv6 here
	auto addr = [&](int i) { S t = "[::1]:" + to_string(ports[i]); return INetworkServices::getNetServices().createAddr(ConstStrA(t.data(), t.size()), natural(0)); };
	auto who = [&](PNetworkAddress a) { int p = portNo(NetworkAddress(a)); return p == ports[0] ? 1 : p == ports[1] ? 2 : p < 0 ? 0 : 9; };
	std::map<int, Dg> ds; int nd = 0; byte val = 0; int wait[2] = {0, 0};
	{ PNetworkDatagram p; bool works = true; try { p = s[0]->create(addr(1)); p->write("x", 1); p->send(); s[1]->setTimeout(Long); PNetworkDatagram q = s[1]->receive(); if (q->dataReady() != 1) works = false; } catch (Exception &) { works = false; } p = nil; if (!works) { s.clear(); return; } }
	for (int i = 0; i < n; i++) { int k = r(14), d = ds.empty() ? 0 : [&] { auto j = ds.begin(); std::advance(j, r(ds.size())); return j->first; }();
		if (k < 2 || !d) { int a = r(2), to = r(3) ? 1 + r(2) : 0; int id = ++nd; PNetworkDatagram p = to ? s[a]->create(addr(to - 1)) : s[a]->create(); ds[id] = {p, a}; E("dnew").i("d", id).i("s", a + 1).i("to", to); }
		else if (k < 5) { int a = r(2); if (!wait[a] && r(3)) continue; s[a]->setTimeout(wait[a] ? Long : Short); PNetworkDatagram p; const char *how = guard([&] { p = s[a]->receive(); return "ok"; }); int id = 0; if (p != nil) { id = ++nd; ds[id] = {p, a}; wait[a]--; } E("drecv").i("s", a + 1).i("d", id).t("r", how).i("from", p != nil ? who(p->getTarget()) : 0).i("n", p != nil ? (int)p->size() : 0); }
		else if (k < 7) { natural m = r(4) ? 1 + r(20) : r(900); val = val % 250 + 1; std::vector<byte> b(m + 1, val); natural g = ds[d].d->write(b.data(), m); ConstStringT<byte> o = ds[d].d->peekOutputBuffer(); E("dwrite").i("d", d).i("v", val).i("n", m).i("got", g).k("out", runs(o.data(), o.length())); }
		else if (k < 9) { natural m = 1 + r(400); std::vector<byte> b(m); bool pk = r(4) == 0; natural g = pk ? ds[d].d->peek(b.data(), m) : ds[d].d->read(b.data(), m); E("dread").i("d", d).i("n", m).b("pk", pk).k("y", runs(b.data(), g)); }
		else if (k == 9) { int w = r(3); if (w == 0) ds[d].d->rewind(); else if (w == 1) ds[d].d->clear(); else ds[d].d->resetTarget(); E("dop").i("d", d).t("op", w == 0 ? "rewind" : w == 1 ? "clear" : "reset"); }
		else if (k == 10) { int u = ds[d].d->getUID(), u2 = ds[d].d->getUID(); E("duid").i("d", d).i("u", u).i("u2", u2); }
		else if (k == 11) { bool c[2] = {ds[d].d->checkAddress(addr(0)), ds[d].d->checkAddress(addr(1))}; int t = ds[d].d->getTarget() == nil ? 0 : who(ds[d].d->getTarget()); E("dto").i("d", d).i("to", t).b("c1", c[0]).b("c2", c[1]); }
		else if (k == 12) { int to = r(2) ? 0 : 1 + r(2); if (!ds[d].d->peekOutputBuffer().length()) continue; const char *how = guard([&] { int t = to; if (to) ds[d].d->sendTo(addr(to - 1)); else { t = ds[d].d->getTarget() == nil ? 0 : who(ds[d].d->getTarget()); ds[d].d->send(); } if (t == 1 || t == 2) wait[t - 1]++; return "ok"; }); E("dsend").i("d", d).i("to", to).t("r", how); }
		else { E("ddrop").i("d", d); ds.erase(d); } 
		if (wait[0] > 20 || wait[1] > 20) break; }
	ds.clear(); s.clear(); E("fin").i("n", fds() - base);
}
// addresses
void addrRun(Rnd &r, int n) { struct A { int ip[4], port; NetworkAddress a; }; std::vector<A> v;
	for (int i = 0; i < n; i++) { if (v.size() < 2 || r(3) == 0) { A a; a.ip[0] = 127; for (int k = 1; k < 4; k++) a.ip[k] = r(2) ? r(3) : r(256); a.port = r(2) ? 80 + r(3) : r(65536); S ip; for (int k = 0; k < 4; k++) ip += (k ? "." : "") + to_string(a.ip[k]); int how = r(4);
			S full = ip + ":" + to_string(a.port), pt = to_string(a.port); ConstStrA ipc(ip.data(), ip.size()), fullc(full.data(), full.size()), ptc(pt.data(), pt.size());
			a.a = how == 0 ? NetworkAddress(ipc, (natural)a.port) : how == 1 ? NetworkAddress(fullc, (natural)99) : how == 2 ? NetworkAddress(ipc, ptc) : NetworkAddress::ipRemote(ipc, a.port);
			if (r(3) == 0) { char b[100]; natural l = a.a.getHandle()->getSockAddress(0, 0), l2 = a.a.getHandle()->getSockAddress(b, sizeof b); if (l == l2) a.a = NetworkAddress(INetworkServices::getNetServices().createAddr(b, l2)); }
			StringA t = a.a.asString(); E("addr").v("ip", std::vector<int>(a.ip, a.ip + 4)).i("port", a.port).y("t", S(t.data(), t.length())).i("p", portNo(a.a)); v.push_back(a); if (v.size() > 6) v.erase(v.begin()); }
		else { A &a = v[r(v.size())], &b = v[r(v.size())]; E("addrcmp").v("ip", std::vector<int>(a.ip, a.ip + 4)).i("port", a.port).v("ip2", std::vector<int>(b.ip, b.ip + 4)).i("port2", b.port).b("eq", a.a == b.a).b("lt", a.a.getHandle()->lessThan(*b.a.getHandle())).b("gt", b.a.getHandle()->lessThan(*a.a.getHandle())); } } }
bool reg() {
	for (int i = 0; i < 8; i++) {
		seq::add("tcp" + to_string(i), "", [i] { Rnd r(i, 300); for (int k = 0; k < seq::count(24); k++) { if (k) seq::next(); tcpRun(r, 40 + r(80), 0); } }, seq::count(40));
		seq::add("tell" + to_string(i), "", [i] { Rnd r(i, 301); for (int k = 0; k < seq::count(16); k++) { if (k) seq::next(); tcpRun(r, 40 + r(80), 1); } }, seq::count(40));
		seq::add("dgram" + to_string(i), "", [i] { Rnd r(i, 303); for (int k = 0; k < seq::count(16); k++) { if (k) seq::next(); dgRun(r, 40 + r(60)); } }, seq::count(40)); }
	for (int i = 0; i < 2; i++) seq::add("addr" + to_string(i), "", [i] { Rnd r(i, 304); for (int k = 0; k < 4; k++) { if (k) seq::next(); addrRun(r, 60); } });
	return true;
}
}
int main(int argc, char **argv) { reg(); return seq::main(argc, argv); }
