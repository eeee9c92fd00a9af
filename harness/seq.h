#ifndef SEQ_H
#define SEQ_H
// Sequential histories of the real code: every scenario runs in a forked child which
// writes its events to shared memory, so that a crash, a sanitizer report or a hang becomes
// the event "Crash" at the end of the history it happened in.
#include <string>
#include <vector>
#include <functional>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <typeinfo>
#include <exception>

extern "C" __attribute__((weak)) const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:print_legend=0:print_full_thread_history=0:fast_unwind_on_malloc=1:malloc_context_size=3:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0"; }

namespace seq {

struct Scn { std::string name, cfg; std::function<void()> fn; int secs; };
inline std::vector<Scn> &scns() { static std::vector<Scn> x; return x; }
inline void add(const std::string &name, const std::string &cfg, std::function<void()> fn, int secs = 8) { scns().push_back(Scn{name, cfg, fn, secs}); }

struct Shared { size_t used; size_t cap; char data[1]; };
inline Shared *&shm() { static Shared *s = 0; return s; }
inline void put(const std::string &s) {
	Shared *b = shm();
	if (b->used + s.size() + 1 > b->cap) { static const char m[] = "\n#over"; if (b->used + 8 < b->cap) { memcpy(b->data + b->used, m, sizeof(m) - 1); b->used += sizeof(m) - 1; } _exit(77); }
	memcpy(b->data + b->used, s.data(), s.size());
	b->used += s.size();
	b->data[b->used++] = '\n';
}
// starts another history of the same scenario, optionally with another configuration
inline void next(const std::string &cfg = "") { put("#next " + cfg); }

inline std::string esc(const std::string &s) {
	std::string o; char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
	return o;
}
template<class V> inline std::string arr(const V &v) { std::string s = "["; bool f = true; for (auto x : v) { if (!f) s += ","; f = false; s += std::to_string(x); } return s + "]"; }
inline std::string bytes(const std::string &v) { std::string s = "["; bool f = true; for (unsigned char x : v) { if (!f) s += ","; f = false; s += std::to_string((int)x); } return s + "]"; }

// one event; written when the temporary dies
struct E {
	std::string s;
	E(const char *e) { s = std::string("{\"e\":\"") + e + "\""; }
	~E() { if (!std::uncaught_exception()) put(s + "}"); }
	E &k(const char *n, const std::string &raw) { s += std::string(",\"") + n + "\":" + raw; return *this; }
	E &i(const char *n, long v) { return k(n, std::to_string(v)); }
	E &b(const char *n, bool v) { return k(n, v ? "true" : "false"); }
	E &t(const char *n, const std::string &v) { return k(n, "\"" + esc(v) + "\""); }
	E &y(const char *n, const std::string &v) { return k(n, bytes(v)); }
	template<class V> E &v(const char *n, const V &x) { return k(n, arr(x)); }
};
inline std::string cfgi(const char *n, long v) { return std::string("\"") + n + "\":" + std::to_string(v); }
inline std::string cfgs(const char *n, const std::string &v) { return std::string("\"") + n + "\":\"" + v + "\""; }
inline std::string cfgb(const char *n, bool v) { return std::string("\"") + n + "\":" + (v ? "true" : "false"); }

inline bool thorough() { const char *t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
inline int count(int n) { return thorough() ? n * 8 : n; }
inline unsigned long seed() { const char *t = getenv("VERIF_SEED"); return t ? atol(t) : 1; }
struct Rnd { unsigned long s;
	Rnd(unsigned long x, unsigned long y = 0):s((x + seed() * 1000003UL + y * 7919UL) * 2654435761UL + 88172645463325252UL) { for (int i = 0; i < 6; i++) (*this)(2); }
	unsigned long raw() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
	unsigned operator()(unsigned n) { return (raw() >> 11) % n; }
	bool p(unsigned percent) { return (*this)(100) < percent; }
};

// element type whose life cycle is watched
struct Boom {};
struct Watch { static long &boom() { static long b = 0; return b; } // the n-th copy from now on throws
	static void copying() { if (boom() && --boom() == 0) throw Boom(); }
	static long &live() { static long l = 0; return l; } static long &bad() { static long b = 0; return b; } };
struct Elem {
	int v, tag; unsigned magic; Elem *self;
	enum { ALIVE = 0x5ea1beef, DEAD = 0xdeaddead };
	void birth() { magic = ALIVE; self = this; Watch::live()++; }
	void alive() const { if (magic != ALIVE || self != this) Watch::bad()++; }
	Elem():v(0),tag(0) { birth(); }
	Elem(int v):v(v),tag(0) { birth(); }
	Elem(int v, int tag):v(v),tag(tag) { birth(); }
	Elem(const Elem &o):v(o.v),tag(o.tag) { o.alive(); Watch::copying(); birth(); }
	Elem &operator=(const Elem &o) { alive(); o.alive(); v = o.v; tag = o.tag; return *this; }
	~Elem() { alive(); magic = DEAD; self = 0; Watch::live()--; v = -77; }
	bool operator<(const Elem &o) const { alive(); o.alive(); return v < o.v; }
	bool operator>(const Elem &o) const { alive(); o.alive(); return v > o.v; }
	bool operator==(const Elem &o) const { alive(); o.alive(); return v == o.v; }
	bool operator!=(const Elem &o) const { return !(*this == o); }
};
// ends a history: every element created since begin() was destroyed exactly once
inline void begin() { Watch::live() = 0; Watch::bad() = 0; }
inline void end() { E("end").i("live", Watch::live()).i("bad", Watch::bad()); }

inline int main(int argc, char **argv) {
	std::string only, out = "/dev/stdout"; int sh = 0, nsh = 1; size_t cap = 24 << 20; bool list = false;
	for (int i = 1; i < argc; i++) { std::string a = argv[i];
		if (a == "--list") list = true;
		else if (a == "--scn") only = argv[++i];
		else if (a == "--shard") sscanf(argv[++i], "%d/%d", &sh, &nsh);
		else if (a == "--out") out = argv[++i];
	}
	if (list) { for (auto &s : scns()) printf("%s\n", s.name.c_str()); return 0; }
	FILE *f = fopen(out.c_str(), "w"); if (!f) return 3;
	shm() = (Shared *)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (shm() == MAP_FAILED) return 3;
	char errf[64]; snprintf(errf, sizeof errf, "/tmp/seqerr.%d", (int)getpid());
	long n = 0, crashes = 0, hangs = 0;
	for (size_t i = 0; i < scns().size(); i++) {
		Scn &s = scns()[i];
		if (!only.empty() ? s.name != only : (int)(i % nsh) != sh) continue;
		shm()->used = 0; shm()->cap = cap - sizeof(Shared) - 64;
		fflush(f);
		pid_t p = fork();
		if (p < 0) return 3;
		if (p == 0) {
			int e = open(errf, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (e >= 0) { dup2(e, 2); if (e != 2) close(e); }
			int z = open("/dev/null", O_RDWR); dup2(z, 0); dup2(z, 1);
			alarm(s.secs);
			bool ok = true;
			try { s.fn(); }
			catch (std::exception &x) { ok = false; std::string w; try { w = x.what(); } catch (...) {} E("Crash").t("what", std::string("exception ") + typeid(x).name()).t("msg", w.substr(0, 200)); }
			catch (...) { ok = false; E("Crash").t("what", "exception"); }
			_exit(0);
		}
		int st = 0;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR);
		std::string crash;
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hangs++;
		if (WIFSIGNALED(st)) crash = WTERMSIG(st) == SIGALRM ? "hang" : "signal " + std::to_string(WTERMSIG(st));
		else if (WEXITSTATUS(st) == 77) return 77;
		else if (WEXITSTATUS(st)) {
			crash = "exit " + std::to_string(WEXITSTATUS(st));
			if (FILE *e = fopen(errf, "r")) { char l[512]; while (fgets(l, sizeof l, e)) { char *q = strstr(l, "AddressSanitizer: "); if (q) { std::string w(q + 18); crash = "sanitizer " + w.substr(0, w.find_first_of(" \n")); break; } } fclose(e); }
		}
		// split into histories
		std::string d(shm()->data, shm()->used);
		std::string cfg = s.cfg; std::string ev; int k = 0; bool any = false;
		auto flush = [&](bool last) {
			if (last && !crash.empty()) { if (!ev.empty()) ev += ","; ev += "{\"e\":\"Crash\",\"what\":\"" + esc(crash) + "\"}"; crashes++; }
			if (ev.empty()) return;
			fprintf(f, "{\"scn\":\"%s\",\"k\":%d,\"cfg\":{%s},\"ev\":[%s]}\n", s.name.c_str(), k, cfg.c_str(), ev.c_str()); n++; k++; ev.clear();
		};
		size_t a = 0;
		while (a < d.size()) {
			size_t b = d.find('\n', a); if (b == std::string::npos) b = d.size();
			std::string l = d.substr(a, b - a); a = b + 1;
			if (l.compare(0, 5, "#next") == 0) { flush(false); if (l.size() > 6) cfg = l.substr(6); }
			else if (!l.empty()) { if (!ev.empty()) ev += ","; ev += l; }
		}
		flush(true);
		if (hangs >= 3 && only.empty()) break;
	}
	if (!getenv("SEQ_KEEP")) unlink(errf);
	fclose(f);
	printf("{\"traces\":%ld,\"crashes\":%ld}\n", n, crashes);
	return 0;
}
} // namespace seq
#endif
