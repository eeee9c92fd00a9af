// see vsched.h.  This file is compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <atomic>
#include <map>
#include <set>
#include <random>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>

typedef unsigned char u8; typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t uptr;

// ---------------------------------------------------------------- allocator
// bump allocator; blocks are never reused, freed blocks are poisoned for good.
static const size_t HEAP_SZ = size_t(256) << 20;
static char *heapBase = 0; static size_t heapPos = 0;
static u8 *heapShadow = 0;      // 1 byte / 8 bytes: 0 = never allocated (redzone), 1 = live, 2 = freed
static bool heapChecks = false;

static void heapInit() {
	if (heapBase) return;
	heapBase = (char *)mmap((void *)0x100000000000ULL, HEAP_SZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
	heapShadow = (u8 *)mmap((void *)0x110000000000ULL, HEAP_SZ/8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
	if (heapBase == MAP_FAILED || heapShadow == MAP_FAILED) { static const char m[]="vsched: heap map failed\n"; if (write(2,m,sizeof m-1)){} _exit(97); }
}
static inline bool inHeap(uptr a) { return heapBase && a >= (uptr)heapBase && a < (uptr)heapBase + HEAP_SZ; }
struct Hdr { u64 size; u64 magic; };
static void *heapAlloc(size_t n, size_t al) {
	heapInit();
	if (al < 16) al = 16;
	size_t p = heapPos + sizeof(Hdr);
	p = (p + al - 1) & ~(al - 1);
	size_t end = p + ((n + 7) & ~size_t(7)) + 8; // 8 bytes redzone at least
	if (end > HEAP_SZ) { static const char m[]="vsched: heap exhausted\n"; if (write(2,m,sizeof m-1)){} _exit(96); }
	heapPos = end;
	Hdr *h = (Hdr *)(heapBase + p) - 1; h->size = n; h->magic = 0xA110CA7EDULL;
	size_t g = (n + 7) / 8; if (g == 0) g = 1;
	memset(heapShadow + p / 8, 1, g);
	return heapBase + p;
}
static void fault(const char *what, uptr a);
static void heapFree(void *q) {
	if (!q) return;
	if (!inHeap((uptr)q)) return;
	Hdr *h = (Hdr *)q - 1;
	size_t p = (char *)q - heapBase;
	if (h->magic != 0xA110CA7EDULL || heapShadow[p/8] != 1) { fault(h->magic == 0xF4EEDULL ? "double free" : "bad free", (uptr)q); return; }
	h->magic = 0xF4EEDULL;
	size_t g = (h->size + 7) / 8; if (g == 0) g = 1;
	memset(heapShadow + p / 8, 2, g);
	if (heapChecks) memset(q, 0xDD, h->size);
}
// the explorer itself (parent process) uses libc's allocator, so that the addresses seen by
// the executions do not depend on how much exploring was done before
static bool inParent = false;
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { return inParent ? __libc_malloc(n) : heapAlloc(n, 16); }
void free(void *p) { if (!p) return; if (inHeap((uptr)p)) heapFree(p); else if (inParent) __libc_free(p); }
void *calloc(size_t a, size_t b) { if (inParent) return __libc_calloc(a, b); void *p = heapAlloc(a * b, 16); memset(p, 0, a * b); return p; }
void *realloc(void *q, size_t n) {
	if (inParent && !inHeap((uptr)q)) return __libc_realloc(q, n);
	if (!q) return heapAlloc(n, 16);
	if (!inHeap((uptr)q)) { void *p = heapAlloc(n, 16); memcpy(p, q, n); return p; }
	void *p = heapAlloc(n, 16);
	size_t o = ((Hdr *)q - 1)->size;
	memcpy(p, q, o < n ? o : n); heapFree(q); return p;
}
void *memalign(size_t al, size_t n) { return inParent ? __libc_memalign(al, n) : heapAlloc(n, al); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { *o = memalign(al < 8 ? 8 : al, n); return 0; }
size_t malloc_usable_size(void *q) { return q ? ((Hdr *)q - 1)->size : 0; }
}

// ---------------------------------------------------------------- shared area
static const int MAXT = 24, MAXPT = 60000, MAXDEV = 64, MAXEV = 1 << 18;
struct Point { u32 alts; u32 timeouts; u8 self; u8 selfRunnable; u8 chosen; u8 pad; };
struct Dev { u32 pt; u32 th; };
struct LearnEnt { u64 addr; u32 threads; u32 written; };
static const u32 LEARN = 1 << 16;
struct Shm {
	volatile int mode;           // 0 = all accesses are points, 1 = filter with frozen table
	u32 ndev; Dev dev[MAXDEV];
	u32 npt; Point pt[MAXPT];
	u32 evlen; char ev[MAXEV];
	u32 status;                  // 0 running/crashed, 1 finished, 2 stuck, 3 fault, 4 too long
	u64 steps;
	u32 nlearn; LearnEnt learn[LEARN];
	u32 nfrozen; u64 frozen[LEARN]; // open-addressed sets
	u64 rnd; u32 rndPer;         // learning phase: random switching, one in rndPer
};
static Shm *shm = 0;

// ---------------------------------------------------------------- threads
enum St { S_UNUSED, S_RUN, S_SEM, S_MUTEX, S_COND, S_SLEEP, S_GO, S_JOINALL, S_DONE, S_GUARD };
struct Thr {
	St st; void *obj; bool timed; u64 deadline; bool fired; bool daemon;
	std::atomic<int> fut; uptr sp; char *stkLo, *stkHi;
	void *(*fn)(void *); void *arg; bool worker; u64 order;
};
static Thr thr[MAXT]; static int nthr = 1;
static __thread int vsSelf = -1;
static int cur = 0;
static bool active = false;       // child is running under control
static bool exploring = false;
static bool blockEvents = false;
static bool started = false;
static u32 nextDev = 0; static u64 spin = 0; static u64 blockOrder = 1;
static u64 vtime = 0; // us
static int quiet = 0;
static const u64 MAXSTEPS = 400000;
static std::vector<std::function<void()> > *workerFns = 0;

static void evAppend(const char *s, size_t n) {
	if (shm->evlen + n + 2 >= (u32)MAXEV) return;
	if (shm->evlen) shm->ev[shm->evlen++] = ',';
	memcpy(shm->ev + shm->evlen, s, n); shm->evlen += n; shm->ev[shm->evlen] = 0;
}
static void die(u32 status) { shm->status = status; _exit(0); }
static void fault(const char *what, uptr a) {
	if (!active || !shm) { return; }
	char b[160]; int region = 0; (void)a; (void)region;
	int n = snprintf(b, sizeof b, "{\"e\":\"Fault\",\"t\":%d,\"what\":\"%s\"}", vsSelf, what);
	evAppend(b, n); 
	if (getenv("VS_ABORT")) { active = false; abort(); }
	die(3);
}
static long futex(std::atomic<int> *a, int op, int v) { return syscall(SYS_futex, (int *)a, op, v, 0, 0, 0); }
static void park(int me) {
	Thr &t = thr[me];
	while (t.fut.load() == 0) futex(&t.fut, FUTEX_WAIT, 0);
	t.fut.store(0);
}
static void unpark(int o) { thr[o].fut.store(1); futex(&thr[o].fut, FUTEX_WAKE, 1); }
static inline uptr getsp() { return (uptr)__builtin_frame_address(0); }

static void switchTo(int o) {
	int me = vsSelf;
	if (o == me) return;
	thr[me].sp = getsp();
	spin = 0; cur = o;
	unpark(o);
	if (thr[me].st != S_DONE) park(me);
}
static inline bool runnable(int i) { return thr[i].st == S_RUN; }
static void fire(int o) { // fire timeout of o
	Thr &t = thr[o];
	if (vtime < t.deadline) vtime = t.deadline;
	t.fired = true; t.st = S_RUN;
}
static void stuck() {
	std::string s = "{\"e\":\"Stuck\",\"blk\":["; bool f = true;
	for (int i = 0; i < nthr; i++) if (thr[i].st != S_DONE && thr[i].st != S_RUN && i != 0) { if (!f) s += ","; f = false; char b[16]; snprintf(b, 16, "%d", i); s += b; }
	s += "]}"; evAppend(s.data(), s.size());
	die(2);
}
// choose who runs next; called by the running thread, which may be blocked now
static void schedule(bool voluntary) {
	int me = vsSelf;
	u32 run = 0, tmo = 0;
	for (int i = 0; i < nthr; i++) {
		if (thr[i].st == S_RUN) run |= 1u << i;
		else if (thr[i].timed && (thr[i].st == S_SEM || thr[i].st == S_COND || thr[i].st == S_MUTEX || thr[i].st == S_SLEEP)) tmo |= 1u << i;
	}
	bool meRun = thr[me].st == S_RUN;
	int def = -1;
	if (meRun && !voluntary) def = me;
	else {
		for (int k = 1; k <= nthr && def < 0; k++) { int i = (me + k) % nthr; if (run & (1u << i)) def = i; }
		if (def < 0 && tmo) { // earliest deadline
			for (int i = 0; i < nthr; i++) if (tmo & (1u << i)) if (def < 0 || thr[i].deadline < thr[def].deadline) def = i;
		}
	}
	if (def < 0) { stuck(); return; }
	u32 alts = run | tmo;
	int chosen = def;
	if (exploring && !quiet && (alts & ~(1u << def))) {
		u32 p = shm->npt;
		if (p < (u32)MAXPT) {
			if (nextDev < shm->ndev && shm->dev[nextDev].pt == p) {
				u32 th = shm->dev[nextDev].th; nextDev++;
				if (th < (u32)MAXT && (alts & (1u << th))) chosen = th;
			} else if (shm->rndPer) {
				shm->rnd = shm->rnd * 6364136223846793005ULL + 1442695040888963407ULL;
				if ((shm->rnd >> 33) % shm->rndPer == 0) {
					u32 c = __builtin_popcount(alts), k = (shm->rnd >> 40) % c;
					for (int i = 0; i < nthr; i++) if (alts & (1u << i)) { if (k == 0) { chosen = i; break; } k--; }
				}
			}
			Point &q = shm->pt[p]; q.alts = alts; q.timeouts = tmo; q.self = me; q.selfRunnable = meRun && !voluntary; q.chosen = chosen;
			shm->npt = p + 1;
		}
	}
	if (tmo & (1u << chosen)) fire(chosen);
	if (chosen != me) switchTo(chosen);
}
static void tick() {
	if (++shm->steps > MAXSTEPS) { static const char m[] = "{\"e\":\"Diverged\"}"; evAppend(m, sizeof m - 1); die(4); }
}
static void spoint() {
	if (!active || vsSelf < 0 || cur != vsSelf) return;
	tick();
	if (!exploring) return;
	if (quiet) { if (++spin > 3000) { spin = 0; vtime += 1000; schedule(true); } return; }
	if (++spin > 300) { spin = 0; vtime += 1000; schedule(true); return; }
	schedule(false);
}
static void blockSelf(St st, void *obj, bool timed, u64 deadline) {
	Thr &t = thr[vsSelf]; t.st = st; t.obj = obj; t.timed = timed; t.deadline = deadline; t.fired = false; t.order = blockOrder++;
	if (exploring && blockEvents && !quiet && vsSelf > 0) {
		char b[64]; int n = snprintf(b, sizeof b, "{\"e\":\"Block\",\"t\":%d}", vsSelf); evAppend(b, n);
	}
	tick();
	schedule(false);
	// somebody made us runnable
}
static int wakeOne(St st, void *obj) {
	int b = -1;
	for (int i = 0; i < nthr; i++) if (thr[i].st == st && thr[i].obj == obj) if (b < 0 || thr[i].order < thr[b].order) b = i;
	if (b >= 0) { thr[b].st = S_RUN; }
	return b;
}
static void wakeAll(St st, void *obj) { while (wakeOne(st, obj) >= 0) {} }

// ---------------------------------------------------------------- memory access checks
static bool staleOk = false;
static inline void checkAddr(uptr a, size_t n, bool rd = false) {
	if (!active || vsSelf < 0) return;
	if (inHeap(a)) {
		size_t g = (a - (uptr)heapBase) / 8, ge = (a + (n ? n - 1 : 0) - (uptr)heapBase) / 8;
		for (; g <= ge; g++) { u8 s = heapShadow[g]; if (s == 2 && rd && staleOk) continue; if (s != 1) { fault(s == 2 ? "use after free" : "heap out of bounds", a); return; } }
	} else {
		for (int i = 1; i < nthr; i++) if (i != vsSelf && thr[i].stkLo && a >= (uptr)thr[i].stkLo && a < (uptr)thr[i].stkHi) {
			if (thr[i].st == S_DONE) { fault("access to the stack of a finished thread", a); return; }
			if (started && thr[i].sp && a < thr[i].sp) { fault("access to a dead stack frame", a); return; }
		}
	}
}
static bool traceOn = false;
static inline u32 hashA(u64 a) { a ^= a >> 17; a *= 0x9E3779B97F4A7C15ULL; return (u32)(a >> 40) & (LEARN - 1); }
static void learn(uptr a, bool wr) {
	u64 g = a >> 3; u32 h = hashA(g);
	for (u32 k = 0; k < 64; k++, h = (h + 1) & (LEARN - 1)) {
		LearnEnt &e = shm->learn[h];
		if (e.addr == 0) { e.addr = g; e.threads = 0; e.written = 0; }
		if (e.addr == g) { e.threads |= 1u << vsSelf; e.written |= wr; return; }
	}
}
static bool isFrozen(uptr a) {
	u64 g = a >> 3; u32 h = hashA(g);
	for (u32 k = 0; k < 64; k++, h = (h + 1) & (LEARN - 1)) {
		if (shm->frozen[h] == 0) return false;
		if (shm->frozen[h] == g) return true;
	}
	return false;
}
static void access(void *p, size_t n, bool wr, bool atomic) {
	uptr a = (uptr)p;
	if (traceOn && active && exploring && vsSelf > 0) { fprintf(stderr, "[t%d pt%u] %s%s %p size %zu val %llx from %p\n", vsSelf, shm->npt, atomic ? "atomic " : "", wr ? "write" : "read", p, n, n == 8 ? *(unsigned long long *)p : n == 4 ? *(u32 *)p : *(u8 *)p, __builtin_return_address(0)); }
	if (!active || vsSelf < 0 || cur != vsSelf) return;
	Thr &t = thr[vsSelf];
	bool own = t.stkLo ? (a >= (uptr)t.stkLo && a < (uptr)t.stkHi) : false;
	if (exploring && !quiet) {
		if (shm->mode == 0) {
			learn(a, wr);
			if (!own || atomic) spoint(); else tick();
		} else {
			if (isFrozen(a)) spoint(); else tick();
		}
	}
	checkAddr(a, n, !wr);
}

// ---------------------------------------------------------------- tsan ABI
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, false); }
void __tsan_vptr_read(void **p) { access(p, 8, false, false); }
#define RW(n) \
void __tsan_read##n(void *p) { access(p, n, false, false); } \
void __tsan_write##n(void *p) { access(p, n, true, false); } \
void __tsan_unaligned_read##n(void *p) { access(p, n, false, false); } \
void __tsan_unaligned_write##n(void *p) { access(p, n, true, false); } \
void __tsan_read_write##n(void *p) { access(p, n, true, false); } \
void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, false); } \
void __tsan_volatile_read##n(void *p) { access(p, n, false, true); } \
void __tsan_volatile_write##n(void *p) { access(p, n, true, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access(d, n, true, false); access((void *)s, n, false, false); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access(d, n, true, false); access((void *)s, n, false, false); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) access(d, n, true, false); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int) { access((void *)a, sizeof(T), false, true); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, true); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, true); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, true); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, true); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, true); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, true); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, true); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, true); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((void *)a, sizeof(T), true, true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((void *)a, sizeof(T), true, true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((void *)a, sizeof(T), true, true); T o = *a; if (o == c) *a = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ pthread & co
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = 0;
static int (*real_pmlock)(pthread_mutex_t *) = 0;
static void *wrapper(void *v) {
	int me = (int)(uptr)v;
	vsSelf = me;
	park(me);
	thr[me].fn(thr[me].arg);
	thr[me].st = S_DONE;
	bool all = true;
	for (int i = 1; i < nthr; i++) if (thr[i].st != S_DONE && !thr[i].daemon) all = false;
	if (all && thr[0].st == S_JOINALL) thr[0].st = S_RUN;
	schedule(false);
	return 0;
}
int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
	if (at) { size_t z = 0; pthread_attr_getstacksize(at, &z); if (z > (size_t(1) << 40)) return EAGAIN; } // as the system does
	if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
	if (nthr >= MAXT) return EAGAIN;
	int n = nthr;
	size_t ss = 256 << 10;
	char *lo = (char *)0x120000000000ULL + size_t(n) * (size_t(1) << 21);
	char *p = (char *)mmap(lo, ss, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE, -1, 0);
	if (p != lo) return EAGAIN;
	Thr &t = thr[n];
	t.st = S_RUN; t.obj = 0; t.timed = false; t.fired = false; t.daemon = false; t.fut.store(0); t.sp = 0; t.stkLo = lo; t.stkHi = lo + ss; t.fn = fn; t.arg = arg; t.worker = false;
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, lo, ss); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
	nthr++;
	pthread_t tid;
	int r = real_create(&tid, &a, wrapper, (void *)(uptr)n);
	pthread_attr_destroy(&a);
	if (r) { nthr--; return r; }
	if (id) { checkAddr((uptr)id, sizeof *id); *id = tid; }
	spoint();
	return 0;
}
struct VSem { u32 magic; int val; };
static inline bool ctl() { return active && vsSelf >= 0; }
static VSem *semOf(sem_t *s) {
	checkAddr((uptr)s, sizeof(VSem));
	VSem *v = (VSem *)s;
	if (v->magic != 0x5E5E5E5E) fault("semaphore used after destroy or before init", (uptr)s);
	return v;
}
int sem_init(sem_t *s, int, unsigned v) { checkAddr((uptr)s, sizeof(VSem)); VSem *q = (VSem *)s; q->magic = 0x5E5E5E5E; q->val = v; return 0; }
int sem_destroy(sem_t *s) { VSem *q = (VSem *)s; q->magic = 0xDEAD; return 0; }
int sem_getvalue(sem_t *s, int *v) { if (ctl()) spoint(); *v = semOf(s)->val; return 0; }
int sem_post(sem_t *s) { if (ctl()) spoint(); VSem *q = semOf(s); q->val++; wakeOne(S_SEM, s); return 0; }
int sem_trywait(sem_t *s) { if (ctl()) spoint(); VSem *q = semOf(s); if (q->val > 0) { q->val--; return 0; } errno = EAGAIN; return -1; }
int sem_wait(sem_t *s) {
	if (ctl()) spoint();
	for (;;) { VSem *q = semOf(s); if (q->val > 0) { q->val--; return 0; } blockSelf(S_SEM, s, false, 0); }
}
static u64 tsUs(const struct timespec *t) { return u64(t->tv_sec) * 1000000ULL + t->tv_nsec / 1000; }
static const u64 EPOCH = 1700000000ULL * 1000000ULL;
int sem_timedwait(sem_t *s, const struct timespec *ts) {
	if (ctl()) spoint();
	u64 dl = tsUs(ts); dl = dl > EPOCH ? dl - EPOCH : 0;
	for (;;) {
		VSem *q = semOf(s);
		if (q->val > 0) { q->val--; return 0; }
		if (thr[vsSelf].fired || vtime >= dl) { thr[vsSelf].fired = false; errno = ETIMEDOUT; return -1; }
		blockSelf(S_SEM, s, true, dl);
	}
}
struct VMtx { int owner; int cnt; int rec; u32 magic; };
int pthread_mutexattr_settype(pthread_mutexattr_t *a, int k) { *(int *)a = k; return 0; }
int pthread_mutexattr_gettype(const pthread_mutexattr_t *a, int *k) { *k = *(int *)a; return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t *a) { *(int *)a = 0; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { VMtx *v = (VMtx *)m; v->owner = 0; v->cnt = 0; v->rec = a ? *(int *)a == PTHREAD_MUTEX_RECURSIVE : 0; v->magic = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { ((VMtx *)m)->magic = 0xDEAD; return 0; }
static VMtx *mtxOf(pthread_mutex_t *m) { checkAddr((uptr)m, sizeof(VMtx)); VMtx *v = (VMtx *)m; if (v->magic == 0xDEAD) fault("mutex used after destroy", (uptr)m); return v; }
static int mlock(pthread_mutex_t *m, bool timed, u64 dl, bool tr) {
	if (!ctl()) { VMtx *v = (VMtx *)m; if (v->cnt == 0) v->owner = 1; v->cnt++; return 0; }
	spoint();
	for (;;) {
		VMtx *v = mtxOf(m); int me = vsSelf + 1;
		if (v->cnt == 0) { v->owner = me; v->cnt = 1; return 0; }
		if (v->owner == me && v->rec) { v->cnt++; return 0; }
		if (tr) return EBUSY;
		if (timed && (thr[vsSelf].fired || vtime >= dl)) { thr[vsSelf].fired = false; return ETIMEDOUT; }
		blockSelf(S_MUTEX, m, timed, dl);
	}
}
int pthread_mutex_lock(pthread_mutex_t *m) { return mlock(m, false, 0, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return mlock(m, false, 0, true); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { u64 dl = tsUs(ts); return mlock(m, true, dl > EPOCH ? dl - EPOCH : 0, false); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!ctl()) { VMtx *v = (VMtx *)m; if (v->cnt > 0) v->cnt--; return 0; }
	spoint();
	VMtx *v = mtxOf(m);
	if (v->cnt == 0 || v->owner != vsSelf + 1) { return EPERM; }
	if (--v->cnt == 0) { v->owner = 0; wakeAll(S_MUTEX, m); }
	return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset((void *)c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, u64 dl) {
	checkAddr((uptr)c, 8);
	VMtx *v = mtxOf(m); int save = v->cnt; v->cnt = 0; v->owner = 0; wakeAll(S_MUTEX, m);
	blockSelf(S_COND, c, timed, dl);
	bool f = thr[vsSelf].fired; thr[vsSelf].fired = false;
	mlock(m, false, 0, false); ((VMtx *)m)->cnt = save;
	return f ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { u64 dl = tsUs(ts); return cwait(c, m, true, dl > EPOCH ? dl - EPOCH : 0); }
int pthread_cond_signal(pthread_cond_t *c) { if (ctl()) { spoint(); checkAddr((uptr)c, 8); wakeOne(S_COND, c); } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (ctl()) { spoint(); checkAddr((uptr)c, 8); wakeAll(S_COND, c); } return 0; }

static void vnow(u64 &s, u64 &us) { u64 x = EPOCH + vtime; s = x / 1000000; us = x % 1000000; }
int gettimeofday(struct timeval *tv, void *) noexcept { u64 s, u; vnow(s, u); tv->tv_sec = s; tv->tv_usec = u; return 0; }
int clock_gettime(clockid_t, struct timespec *tv) noexcept { u64 s, u; vnow(s, u); tv->tv_sec = s; tv->tv_nsec = u * 1000; return 0; }
time_t time(time_t *o) noexcept { u64 s, u; vnow(s, u); if (o) *o = s; return s; }
static int vsleepUs(u64 us) { if (!ctl()) return 0; blockSelf(S_SLEEP, 0, true, vtime + us); thr[vsSelf].fired = false; return 0; }
int usleep(useconds_t us) { return vsleepUs(us); }
unsigned sleep(unsigned s) { return vsleepUs(u64(s) * 1000000); }
int nanosleep(const struct timespec *t, struct timespec *) { return vsleepUs(tsUs(t)); }
int sched_yield() noexcept { if (ctl()) { tick(); spin = 0; schedule(true); } return 0; }

// function-local statics: guard variables must block through the scheduler
int __cxa_guard_acquire(u64 *g) {
	for (;;) {
		u8 *b = (u8 *)g;
		if (b[0]) return 0;
		if (!b[1]) { b[1] = 1; return 1; }
		if (!ctl()) return 1;
		if (b[2] == (u8)(vsSelf + 1)) return 1;
		blockSelf(S_GUARD, g, false, 0);
	}
}
void __cxa_guard_release(u64 *g) { u8 *b = (u8 *)g; b[0] = 1; b[1] = 0; wakeAll(S_GUARD, g); }
void __cxa_guard_abort(u64 *g) { u8 *b = (u8 *)g; b[1] = 0; wakeAll(S_GUARD, g); }
}

// ---------------------------------------------------------------- scenario API
namespace vs {
static std::vector<Scenario> &reg() { static std::vector<Scenario> *r = new std::vector<Scenario>; return *r; }
void add(const std::string &n, const std::string &c, std::function<void()> b) { Scenario s; s.name = n; s.cfg = c; s.body = b; reg().push_back(s); }
int self() { return vsSelf; }
void evraw(const std::string &m) { std::string s = "{" + m + "}"; evAppend(s.data(), s.size()); }
std::string kv(const char *k, long v) { char b[64]; snprintf(b, sizeof b, "\"%s\":%ld", k, v); return b; }
std::string kvs(const char *k, const std::string &v) { return std::string("\"") + k + "\":\"" + v + "\""; }
void call(const char *op, const std::string &x) { evraw(kvs("e", "call") + "," + kv("t", vsSelf) + "," + kvs("op", op) + (x.empty() ? "" : "," + x)); }
void ret(const char *op, const std::string &x) { evraw(kvs("e", "ret") + "," + kv("t", vsSelf) + "," + kvs("op", op) + (x.empty() ? "" : "," + x)); }
static void *workerMain(void *v) {
	std::function<void()> *f = (std::function<void()> *)v;
	(*f)();
	return 0;
}
void parkForGo() { if (!started) { thr[vsSelf].st = S_GO; schedule(false); } }
int spawn(std::function<void()> fn) {
	std::function<void()> *f = new std::function<void()>(fn);
	int n = nthr;
	pthread_t id; if (pthread_create(&id, 0, workerMain, f)) _exit(95);
	thr[n].worker = true;
	return n;
}
void exploreOn() {
	started = true;
	for (int i = 1; i < nthr; i++) if (thr[i].st == S_GO) thr[i].st = S_RUN;
	exploring = true; spin = 0;
}
void exploreOff() { exploring = false; }
void joinAll() {
	bool all = true;
	for (int i = 1; i < nthr; i++) if (thr[i].st != S_DONE && !thr[i].daemon) all = false;
	if (!all) blockSelf(S_JOINALL, 0, false, 0);
}
static void letPark() { // run workers until all of them wait for go
	for (;;) {
		bool any = false;
		for (int i = 1; i < nthr; i++) if (thr[i].st == S_RUN) any = true;
		if (!any) break;
		schedule(true);
	}
}
void go() { letPark(); exploreOn(); joinAll(); exploreOff(); }
void delay(unsigned ms) { vsleepUs(u64(ms) * 1000); }
unsigned long nowMs() { return vtime / 1000; }
void staleReads(bool on) { staleOk = on; }
void emitBlock(bool on) { blockEvents = on; }
void point() { spoint(); }
void finishNow() { die(1); }
Quiet::Quiet() { quiet++; } Quiet::~Quiet() { quiet--; }
void daemon() { thr[vsSelf].daemon = true;
	bool all = true; for (int i = 1; i < nthr; i++) if (thr[i].st != S_DONE && !thr[i].daemon) all = false;
	if (all && thr[0].st == S_JOINALL) thr[0].st = S_RUN; }
}

// ---------------------------------------------------------------- explorer
static void sigHandler(int s) {
	signal(s, SIG_DFL);
	const char *w = s == SIGSEGV || s == SIGBUS ? "invalid memory access" : s == SIGABRT ? "abort" : s == SIGALRM ? "time limit" : "signal";
	if (s == SIGALRM) { static const char m[] = "{\"e\":\"Diverged\"}"; evAppend(m, sizeof m - 1); die(4); }
	fault(w, 0); _exit(1);
}
static void childMain(vs::Scenario *sc) {
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = sigHandler; sa.sa_flags = SA_ONSTACK;
	static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
	if (!getenv("VS_ABORT")) { sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); }
	sigaction(SIGALRM, &sa, 0); alarm(20);
	heapChecks = true; inParent = false;
	vsSelf = 0; thr[0].st = S_RUN; cur = 0; active = true;
	try { sc->body(); }
	catch (const std::exception &e) { if (getenv("VS_VERBOSE")) fprintf(stderr, "exception in scenario: %s\n", e.what()); fault("exception escaped", 0); }
	catch (...) { fault("exception escaped", 0); }
	die(1);
}
struct Opt { u64 budget = 2000; u64 seed = 1; int bound = 2; double secs = 60; std::string out; };
static u64 nexec = 0;
static int runOnce(vs::Scenario *sc, const std::vector<Dev> &d) {
	shm->ndev = d.size() > (size_t)MAXDEV ? MAXDEV : d.size();
	for (u32 i = 0; i < shm->ndev; i++) shm->dev[i] = d[i];
	shm->npt = 0; shm->evlen = 0; shm->ev[0] = 0; shm->status = 0; shm->steps = 0;
	nexec++;
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) { childMain(sc); }
	int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (shm->status == 0) { // died without a word
		char b[96]; int n = snprintf(b, sizeof b, "{\"e\":\"Fault\",\"t\":0,\"what\":\"process died (%s %d)\"}", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
		evAppend(b, n); shm->status = 3;
	}
	return shm->status;
}
static u64 hashStr(const char *s, u32 n) { u64 h = 1469598103934665603ULL; for (u32 i = 0; i < n; i++) { h ^= (u8)s[i]; h *= 1099511628211ULL; } return h; }
struct Explorer {
	vs::Scenario *sc; Opt o; std::unordered_set<u64> seen; FILE *f; u64 traces = 0, stuckN = 0, faultN = 0, divN = 0, maxPts = 0, maxSteps = 0; double t0;
	static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
	void keep(const std::vector<Dev> &d, const char *kind) {
		if (shm->status == 2) stuckN++; if (shm->status == 3) faultN++; if (shm->status == 4) divN++;
		if (shm->npt > maxPts) maxPts = shm->npt; if (shm->steps > maxSteps) maxSteps = shm->steps;
		u64 h = hashStr(shm->ev, shm->evlen);
		if (!seen.insert(h).second) return;
		traces++;
		std::string s; char b[64];
		for (size_t i = 0; i < d.size(); i++) { snprintf(b, sizeof b, "%s%u:%u", i ? "," : "", d[i].pt, d[i].th); s += b; }
		fprintf(f, "{\"scn\":\"%s\",\"kind\":\"%s\",\"sched\":\"%s\",\"cfg\":%s,\"ev\":[%s]}\n", sc->name.c_str(), kind, s.c_str(), sc->cfg.c_str(), shm->ev);
	}
	bool over() { return nexec >= o.budget || now() - t0 > o.secs; }
	void learnPhase() {
		shm->mode = 0; std::vector<Dev> none;
		for (int i = 0; i < 60; i++) {
			shm->rndPer = i == 0 ? 0 : (i % 4 == 1 ? 2 : i % 4 == 2 ? 8 : i % 4 == 3 ? 30 : 120); shm->rnd = o.seed * 7919 + i * 104729 + 17;
			runOnce(sc, none);
			// schedules of the learning phase are replayable through "rnd"
			std::string k = "learn:" + std::to_string(shm->rndPer) + ":" + std::to_string(o.seed * 7919 + i * 104729 + 17);
			keep(none, k.c_str());
		}
		shm->rndPer = 0;
		freeze();
	}
	void freeze() {
		for (u32 i = 0; i < LEARN; i++) shm->frozen[i] = 0;
		shm->nfrozen = 0;
		for (u32 i = 0; i < LEARN; i++) { LearnEnt &e = shm->learn[i];
			if (e.addr && e.written && (e.threads & (e.threads - 1))) {
				u32 h = hashA(e.addr); while (shm->frozen[h] && shm->frozen[h] != e.addr) h = (h + 1) & (LEARN - 1);
				shm->frozen[h] = e.addr; shm->nfrozen++;
			} }
		shm->mode = 1;
	}
	static int costOf(const Point &p, u32 th) { int c = 0; if (p.selfRunnable && p.self != th) c++; if (p.timeouts & (1u << th)) c++; return c; }
	struct Item { std::vector<Dev> d; int cost; };
	void children(const Item &it, std::vector<Item> &out, size_t cap) {
		u32 from = it.d.empty() ? 0 : it.d.back().pt + 1;
		for (u32 p = from; p < shm->npt && out.size() < cap; p++) {
			const Point &q = shm->pt[p];
			for (int t = 0; t < MAXT; t++) if ((q.alts & (1u << t)) && t != q.chosen) {
				int c = it.cost + costOf(q, t);
				if (c > o.bound) continue;
				Item n; n.d = it.d; Dev dv; dv.pt = p; dv.th = t; n.d.push_back(dv); n.cost = c; out.push_back(n);
			}
		}
	}
	void run() {
		t0 = now();
		learnPhase();
		std::mt19937_64 rng(o.seed * 1000003 + 12345);
		std::vector<Item> level, next; Item root; root.cost = 0; level.push_back(root);
		int depth = 0; bool complete = true; int fullDepth = -1;
		u64 P = 1; std::vector<Point> base;
		while (!level.empty() && !over()) {
			next.clear(); bool full = true;
			for (size_t i = 0; i < level.size(); i++) {
				// leave a quarter of the budget for random schedules
				if (over() || (depth >= 2 && (nexec > o.budget * 3 / 4 || now() - t0 > o.secs * 0.75))) { full = false; break; }
				runOnce(sc, level[i].d); keep(level[i].d, "dfs");
				if (depth == 0) { P = shm->npt; base.assign(shm->pt, shm->pt + shm->npt); }
				if (shm->status == 1 || shm->status == 2) children(level[i], next, 2000000);
			}
			if (!full) { complete = false; break; }
			fullDepth = depth;
			depth++;
			std::shuffle(next.begin(), next.end(), rng);
			level.swap(next);
		}
		if (!level.empty()) complete = false;
		// random schedules with more switches
		u64 rnd = 0;
		while (!complete && !over()) {
			std::vector<Dev> d; int k = 2 + rng() % 6; std::set<u32> pos;
			for (int i = 0; i < k; i++) pos.insert(rng() % (P ? P + P / 2 + 1 : 1));
			u32 nt = 0; for (size_t i = 0; i < base.size(); i++) nt |= base[i].alts;
			std::vector<u32> ths; for (int t = 0; t < MAXT; t++) if (nt & (1u << t)) ths.push_back(t);
			if (ths.empty()) break;
			for (u32 p : pos) { Dev dv; dv.pt = p; dv.th = ths[rng() % ths.size()]; d.push_back(dv); }
			runOnce(sc, d); keep(d, "rnd"); rnd++;
		}
		printf("{\"scn\":\"%s\",\"executions\":%llu,\"traces\":%llu,\"stuck\":%llu,\"faults\":%llu,\"diverged\":%llu,\"shared_words\":%u,\"max_points\":%llu,\"max_steps\":%llu,\"full_depth\":%d,\"complete\":%s,\"random\":%llu,\"secs\":%.2f}\n",
			sc->name.c_str(), (unsigned long long)nexec, (unsigned long long)traces, (unsigned long long)stuckN, (unsigned long long)faultN, (unsigned long long)divN, shm->nfrozen, (unsigned long long)maxPts, (unsigned long long)maxSteps, fullDepth, complete ? "true" : "false", (unsigned long long)rnd, now() - t0);
	}
};

int main(int argc, char **argv) {
	Opt o; std::string scn, replay, kind = "dfs"; bool list = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--list") list = true; else if (a == "--scn") scn = val(); else if (a == "--budget") o.budget = atoll(val().c_str());
		else if (a == "--seed") o.seed = atoll(val().c_str()); else if (a == "--bound") o.bound = atoi(val().c_str()); else if (a == "--secs") o.secs = atof(val().c_str());
		else if (a == "--out") o.out = val(); else if (a == "--replay") replay = val(); else if (a == "--kind") kind = val();
	}
	shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	vs::registerScenarios();
	inParent = true;
	if (list) { for (auto &s : vs::reg()) printf("%s\n", s.name.c_str()); return 0; }
	for (auto &s : vs::reg()) if (s.name == scn) {
		cpu_set_t all; sched_getaffinity(0, sizeof all, &all);
		{ int n = CPU_COUNT(&all), k = n ? getpid() % n : 0, c = 0; cpu_set_t one; CPU_ZERO(&one);
		  for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) { if (c == k) { CPU_SET(i, &one); break; } c++; }
		  if (n && getenv("VS_PIN")) { int w = atoi(getenv("VS_PIN")) % n; c = 0; CPU_ZERO(&one); for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) { if (c == w) { CPU_SET(i, &one); break; } c++; } }
		  sched_setaffinity(0, sizeof one, &one); }
		Explorer e; e.sc = &s; e.o = o; e.f = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
		if (!e.f) { perror("out"); return 3; }
		if (!replay.empty() || kind.compare(0, 5, "learn") == 0) {
			std::vector<Dev> d; const char *p = replay.c_str();
			while (*p) { Dev v; v.pt = strtoul(p, (char **)&p, 10); if (*p == ':') p++; v.th = strtoul(p, (char **)&p, 10); if (*p == ',') p++; d.push_back(v); }
			if (kind.compare(0, 5, "learn") == 0) {
				unsigned per = 0; unsigned long long r = 0; sscanf(kind.c_str(), "learn:%u:%llu", &per, &r); shm->mode = 0; shm->rndPer = per; shm->rnd = r;
			} else e.learnPhase(), e.seen.clear();
			if (e.f != stdout) { fclose(e.f); e.f = fopen(o.out.c_str(), "w"); }
			traceOn = getenv("VS_TRACE") != 0;
			printf("---replay\n");
			runOnce(&s, d); e.keep(d, kind.c_str());
		} else e.run();
		if (e.f != stdout) fclose(e.f);
		return 0;
	}
	fprintf(stderr, "no such scenario\n"); return 2;
}
