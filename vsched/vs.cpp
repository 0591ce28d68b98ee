// vsched runtime.  Compiled WITHOUT -fsanitize=thread.  No STL in here: comdat copies could be instrumented.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <malloc.h>
#include "vs.h"
#include <pthread.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <new>

// ------------------------------------------------------------------ shared with the parent
enum { HIST_MAX = 1 << 18, CH_MAX = 1 << 16 };
struct Choice { uint16_t n, c; uint8_t cost[16]; };	// n alternatives, c chosen; cost of each (first 16)
struct Shared {
	volatile uint32_t hlen;
	volatile uint32_t nch;
	volatile uint32_t ended;
	volatile uint32_t steps;
	volatile uint32_t mpts;
	char hist[HIST_MAX];
	Choice ch[CH_MAX];
};
static Shared *SH;

// ------------------------------------------------------------------ run configuration (set before fork)
enum { M_DFS = 0, M_RAND = 1, M_PCT = 2, M_REPLAY = 3 };
static int g_mode;
static uint64_t g_prog_seed, g_sched_seed;
static uint16_t *g_prefix; static uint32_t g_nprefix;	// DFS prefix
static int g_mem_den;			// random mode: switch with probability 1/g_mem_den at memory accesses (0: never)
static int g_sync_den;
static int g_spurious;			// allow spurious wakeups
static int g_early;				// allow timeouts to fire while others can run
static int g_punctual;
static int g_pct_n; static uint32_t g_pct_at[8];
static uint32_t g_max_steps = 400000;
static int g_accesslog;			// log memory accesses + sync for the race monitor

// ------------------------------------------------------------------ threads
enum { S_RUN, S_MUTEX, S_COND, S_JOIN, S_SLEEP, S_RW, S_GUARD, S_DONE };
enum { MAXT = 24 };
struct Th {
	int id; int used; int st; void *obj; int timed; int64_t deadline; int woken; int wmode;
	int prio; volatile int fut; pthread_t pt; int detached, joined;
	void *(*pfn)(void *); void *parg; void *ret; void (*vfn)(void *);
	char *stk_lo, *stk_hi; uint32_t run; void *cmutex; int hot;
};
static Th T[MAXT]; static int NT;
static __thread Th *self __attribute__((tls_model("initial-exec")));
static __thread int in_rt __attribute__((tls_model("initial-exec")));
static volatile int g_on;			// control active in this process
static Th *cur;
static int64_t g_clock;				// us since epoch
static int64_t g_base;

static uint64_t rs_p, rs_s;
static uint32_t rnd(uint64_t &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint32_t)(s >> 16); }
static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return (x ^ (x >> 31)) | 1; }
extern "C" uint32_t vs_prand(uint32_t n) { return n ? rnd(rs_p) % n : 0; }
extern "C" uint32_t vs_srand_(uint32_t n) { return n ? rnd(rs_s) % n : 0; }

static int ctl() { return g_on && self; }
extern "C" int vs_controlled() { return ctl(); }
extern "C" int vs_self() { return self ? self->id : -1; }
extern "C" int vs_punctual() { return g_punctual; }
extern "C" int64_t vs_now_us() { return g_clock - g_base; }

// ------------------------------------------------------------------ history
static void hput(const char *s, uint32_t n) {
	uint32_t l = SH->hlen;
	if (l + n + 2 >= HIST_MAX) { SH->ended = 2; _exit(7); }
	memcpy(SH->hist + l, s, n); SH->hist[l + n] = '\n'; SH->hlen = l + n + 1;
}
extern "C" void vs_ev(const char *fmt, ...) {
	char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n >= (int)sizeof b) n = sizeof b - 1;
	hput(b, n);
}
extern "C" void vs_dump_accesses(); static int al_over;
extern "C" char __executable_start;
static void fin(const char *kind, const char *what = "") {
	if (g_accesslog && g_on && strcmp(kind, "crash")) { g_on = 0; if (al_over) kind = "overrun"; else vs_dump_accesses(); }
	vs_ev("{\"e\":\"end\",\"k\":\"%s\",\"w\":\"%s\",\"v\":%lld}", kind, what, (long long)vs_now_us());
	SH->ended = 1; _exit(0);
}
extern "C" void vs_end(const char *kind) { fin(kind); }
static void bad(const char *what) { g_on = 0; fin("crash", what); }

// ------------------------------------------------------------------ futex baton
static void fwait(volatile int *f) { while (__atomic_exchange_n(f, 0, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT, 0, 0, 0, 0); }
static void fpost(volatile int *f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE, 1, 0, 0, 0); }

// ------------------------------------------------------------------ object tables
enum { HB = 4096 };
struct Mx { void *a; Th *owner; int cnt; int kind; };
static Mx MX[HB];
static Mx *mx(void *a) {
	uint32_t h = (uint32_t)(((uintptr_t)a >> 3) * 2654435761u) % HB;
	for (int k = 0; k < HB; k++, h = (h + 1) % HB) { if (MX[h].a == a) return &MX[h]; if (!MX[h].a) { MX[h].a = a; return &MX[h]; } }
	bad("mutex table full"); return 0;
}
struct Rw { void *a; Th *w; int nr; uint8_t rd[MAXT]; };
static Rw RW[256];
static Rw *rwl(void *a) { for (int i = 0; i < 256; i++) { if (RW[i].a == a) return &RW[i]; if (!RW[i].a) { RW[i].a = a; return &RW[i]; } } bad("rwlock table full"); return 0; }

// ------------------------------------------------------------------ access log (race monitor)
// events: A thread-local list of (kind, obj) is appended to the history in order; accesses are deduplicated per epoch.
static void sync_ev(char k, void *o);

// ------------------------------------------------------------------ scheduler
// a lock made with writer preference lets no reader in while a writer waits
static int rd_ok(Rw *r, void *l, Th *t) {
	if (r->w) return 0;
	if (((pthread_rwlock_t *)l)->__data.__flags == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP) for (int i = 0; i < NT; i++) if (T[i].used && &T[i] != t && T[i].st == S_RW && T[i].obj == l && T[i].wmode) return 0;
	return 1;
}
static int enabled(Th *t) {
	switch (t->st) {
	case S_RUN: return 1;
	case S_MUTEX: { Mx *m = mx(t->obj); return !m->owner || (m->owner == t) || (t->timed && g_clock >= t->deadline); }
	case S_COND: return t->woken || (t->timed && g_clock >= t->deadline);
	case S_JOIN: return T[(intptr_t)t->obj].st == S_DONE;
	case S_SLEEP: return g_clock >= t->deadline;
	case S_RW: { Rw *r = rwl(t->obj); return t->wmode ? (!r->w && !r->nr) : rd_ok(r, t->obj, t); }
	case S_GUARD: return ((volatile unsigned char *)t->obj)[1] == 0;
	}
	return 0;
}
static uint32_t choose(uint32_t n, const uint8_t *cost, uint32_t rdef) {
	// one recorded choice
	if (n <= 1) return 0;
	uint32_t k = SH->nch;
	if (k >= CH_MAX) { fin("overrun"); }
	uint32_t c;
	if (g_mode == M_DFS || g_mode == M_REPLAY) c = k < g_nprefix ? g_prefix[k] : (g_mode == M_DFS ? 0 : 0);
	else c = rdef;
	if (c >= n) c = 0;
	Choice &q = SH->ch[k]; q.n = n > 16 ? 16 : n; q.c = c; for (uint32_t i = 0; i < 16 && i < n; i++) q.cost[i] = cost ? cost[i] : 0;
	SH->nch = k + 1;
	return c;
}

static void switch_to(Th *t) {
	Th *me = self;
	cur = t;
	if (t == me) return;
	fpost(&t->fut);
	if (me->st != S_DONE) fwait(&me->fut);
}

static uint32_t g_steps;
static void advance_to(int64_t x) { if (x > g_clock) g_clock = x; }

// pick the next thread.  Called by the running thread; its st tells whether it can continue.
static void schedule(int is_mem) {
	Th *me = self;
	in_rt++;
	if (++g_steps > g_max_steps) fin("livelock");
	SH->steps = g_steps;
	for (;;) {
		Th *en[MAXT * 2]; uint8_t cost[MAXT * 2]; int n = 0; int kind[MAXT * 2];	// kind 0 run, 1 fire timeout, 2 spurious
		int me_en = enabled(me);
		int forced = me_en && me->st == S_RUN && me->run > 3000;	// fairness in DFS
		if (me_en && !forced) { en[n] = me; cost[n] = 0; kind[n++] = 0; }
		for (int i = 0; i < NT; i++) if (&T[i] != me && T[i].used && enabled(&T[i])) { en[n] = &T[i]; cost[n] = (me_en && !forced) ? 1 : 0; kind[n++] = 0; }
		if (forced) { en[n] = me; cost[n] = 1; kind[n++] = 0; }
		int nrun = n;
		if (nrun == 0) {
			// everybody blocked: let time pass
			int64_t mn = INT64_MAX;
			for (int i = 0; i < NT; i++) if (T[i].used && T[i].st != S_DONE && (T[i].timed || T[i].st == S_SLEEP) && T[i].deadline < mn) mn = T[i].deadline;
			if (mn == INT64_MAX) fin("stuck");
			advance_to(mn);
			if (g_mode == M_RAND || g_mode == M_PCT) { static const int ov[8] = {0, 0, 1, 1, 499, 999, 60, 0}; g_clock += ov[vs_srand_(8)]; }
			continue;
		}
		if (!is_mem && g_early && !g_punctual) for (int i = 0; i < NT; i++) if (T[i].used && T[i].timed && (T[i].st == S_COND || T[i].st == S_MUTEX) && !enabled(&T[i])) { en[n] = &T[i]; cost[n] = 1; kind[n++] = 1; }
		uint32_t c = 0;
		if (g_mode == M_DFS || g_mode == M_REPLAY) c = choose(n, cost, 0);
		else if (g_mode == M_RAND) {
			if (is_mem && me_en && me->st == S_RUN) { if (vs_srand_(is_mem > 1 && g_mem_den > 6 ? 6 : g_mem_den) == 0) c = vs_srand_(nrun); }
			else if (me_en && me->st == S_RUN && vs_srand_(g_sync_den)) c = 0;
			else { c = vs_srand_(nrun); if (n > nrun && vs_srand_(12) == 0) c = nrun + vs_srand_(n - nrun); }
			if (!is_mem || c) c = choose(n, cost, c);
		} else {	// PCT: highest priority enabled thread; priority drops at change points
			for (int k = 0; k < g_pct_n; k++) if (g_steps == g_pct_at[k]) me->prio = -(k + 1);
			int best = 0; for (int k = 1; k < nrun; k++) if (en[k]->prio > en[best]->prio) best = k;
			c = best;
			if (n > nrun && vs_srand_(20) == 0) c = nrun + vs_srand_(n - nrun);
			if (me->run > 3000) { c = vs_srand_(nrun); en[c]->prio = 1000 + (int)vs_srand_(1000); me->prio = (int)vs_srand_(500); }
			if (!is_mem || en[c] != me) c = choose(n, cost, c);
		}
		if (kind[c] == 1) { advance_to(en[c]->deadline); }
		Th *t = en[c];
		if (t == me) me->run++; else t->run = 0;
		if (!g_punctual && !is_mem && (g_mode == M_RAND || g_mode == M_PCT) && vs_srand_(40) == 0) g_clock += vs_srand_(2500);
		switch_to(t);
		break;
	}
	in_rt--;
}
static void block(int st, void *obj, int timed, int64_t dl) { self->st = st; self->obj = obj; self->timed = timed; self->deadline = dl; }
static void unblock() { self->st = S_RUN; self->timed = 0; self->obj = 0; }
static int g_quiet;
static void point() { if (ctl() && !in_rt && !g_quiet) schedule(0); }
extern "C" void vs_quiet(int on) { g_quiet = on; }
extern "C" void vs_yield() { point(); }
extern "C" void vs_advance(int64_t us) { g_clock += us; }
extern "C" void vs_start_clock(int64_t us) { g_base = g_base / 1000000 * 1000000 + us; g_clock = g_base; }

// ------------------------------------------------------------------ mutexes
static int mkind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static void chk(const void *p, const char *what) { if (vs_isfreed(p)) bad(what); }
static int m_lock(pthread_mutex_t *m, int try_, int timed, int64_t dl, int nopoint) {
	chk(m, "mutex operation on freed memory");
	if (!nopoint) point();
	Mx *x = mx(m); int kind = mkind(m);
	if (x->owner == self) {
		if (kind == PTHREAD_MUTEX_RECURSIVE) { x->cnt++; sync_ev('l', m); return 0; }
		if (kind == PTHREAD_MUTEX_ERRORCHECK) return try_ ? EBUSY : EDEADLK;
		if (try_) return EBUSY;
		// self deadlock on a normal mutex
		for (;;) { block(S_MUTEX, m, timed, dl); self->timed = timed; in_rt++; 
			// never enabled unless timed: mark owner==self as not enabled by temporarily blocking on join of self
			block(S_JOIN, (void *)(intptr_t)self->id, timed, dl); in_rt--; 
			if (timed) { block(S_SLEEP, 0, 1, dl); schedule(0); unblock(); return ETIMEDOUT; }
			schedule(0); }
	}
	if (x->owner && try_) return EBUSY;
	while (x->owner) {
		if (timed && g_clock >= dl) { unblock(); return ETIMEDOUT; }
		block(S_MUTEX, m, timed, dl); schedule(0); chk(m, "mutex freed while waiting for it");
	}
	unblock();
	x->owner = self; x->cnt = 1; sync_ev('L', m);
	return 0;
}
static int m_unlock(pthread_mutex_t *m) {
	chk(m, "mutex operation on freed memory");
	Mx *x = mx(m);
	if (x->owner != self) { vs_ev("{\"e\":\"bad\",\"w\":\"unlock of a mutex not held\",\"t\":%d}", self->id); bad("unlock of a mutex not held by the thread"); }
	if (--x->cnt > 0) return 0;
	self->hot = 4;		// what it touches next, outside the mutex, is a likely place to be interrupted
	sync_ev('U', m);
	x->owner = 0;
	return 0;
}
// the other clocks are far from the time of day
static int64_t clk_off(clockid_t id) { return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? 0 : 1599000000ll * 1000000; }
static int64_t ts_us(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000 + (t->tv_nsec + 999) / 1000; }

#define REAL(name, ver) ({ static __typeof__(&name) f_; if (!f_) { f_ = (__typeof__(&name))(ver ? dlvsym(RTLD_NEXT, #name, ver) : dlsym(RTLD_NEXT, #name)); if (!f_) f_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); } f_; })

// the mutexes inside libsqlite3 are no scheduling points (they still block)
static uintptr_t sq_lo, sq_hi; static int sq_init;
static int sq_cb(struct dl_phdr_info *i, size_t, void *) { if (i->dlpi_name && strstr(i->dlpi_name, "libsqlite3")) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) { uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz; if (!sq_lo || a < sq_lo) sq_lo = a; if (b > sq_hi) sq_hi = b; } return 0; }
static int in_sqlite(void *p) { if (!sq_init) { sq_init = 1; in_rt++; dl_iterate_phdr(sq_cb, 0); in_rt--; } return (uintptr_t)p >= sq_lo && (uintptr_t)p < sq_hi; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (!ctl() || in_rt) return REAL(pthread_mutex_lock, 0)(m); return m_lock(m, 0, 0, 0, in_sqlite(__builtin_return_address(0))); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!ctl() || in_rt) return REAL(pthread_mutex_trylock, 0)(m); return m_lock(m, 1, 0, 0, 0); }
static int timedlk(pthread_mutex_t *m, clockid_t id, const struct timespec *t) {
	struct timespec tv = *t; point();
	Mx *x = mx(m);
	if (!(x->owner == 0 || (x->owner == self && mkind(m) == PTHREAD_MUTEX_RECURSIVE)) && (tv.tv_nsec < 0 || tv.tv_nsec >= 1000000000)) return EINVAL;
	return m_lock(m, 0, 1, ts_us(&tv) + clk_off(id), 1);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { if (!ctl() || in_rt) return REAL(pthread_mutex_timedlock, 0)(m, t); return timedlk(m, CLOCK_REALTIME, t); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t id, const struct timespec *t) { if (!ctl() || in_rt) return REAL(pthread_mutex_clocklock, 0)(m, id, t); return timedlk(m, id, t); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!ctl() || in_rt) return REAL(pthread_mutex_unlock, 0)(m); return m_unlock(m); }
int pthread_mutex_destroy(pthread_mutex_t *m) {
	if (ctl() && !in_rt) { chk(m, "mutex destroyed twice"); Mx *x = mx(m); if (x->owner) { bad("destroyed a locked mutex"); } x->cnt = 0;
		for (int i = 0; i < NT; i++) if (T[i].used && ((T[i].st == S_MUTEX && T[i].obj == m) || (T[i].st == S_COND && T[i].cmutex == m))) bad("destroyed a mutex in use"); }
	return 0;
}
// ------------------------------------------------------------------ condition variables
static int c_wait(pthread_cond_t *c, pthread_mutex_t *m, int timed, int64_t dl) {
	chk(c, "condition operation on freed memory");
	point();
	Mx *x = mx(m);
	if (x->owner != self) bad("condition wait without holding the mutex");
	int cnt = x->cnt;
	sync_ev('U', m);
	x->owner = 0; x->cnt = 0;	// glibc's recursive mutexes: cond wait releases one level only; a deeper level stays locked
	if (cnt > 1) { x->owner = self; x->cnt = cnt - 1; }
	self->woken = 0; self->cmutex = m;
	block(S_COND, c, timed, dl);
	if (g_spurious && (g_mode == M_RAND || g_mode == M_PCT) && vs_srand_(30) == 0) self->woken = 2;
	schedule(0);
	int r = self->woken ? 0 : ETIMEDOUT;
	self->woken = 0; unblock(); self->cmutex = 0;
	chk(c, "condition variable freed while waiting");
	// re-acquire
	x = mx(m);
	while (x->owner && x->owner != self) { block(S_MUTEX, m, 0, 0); schedule(0); }
	unblock();
	if (x->owner == self) x->cnt++; else { x->owner = self; x->cnt = 1; }
	sync_ev('L', m);
	return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!ctl() || in_rt) return REAL(pthread_cond_wait, "GLIBC_2.3.2")(c, m); return c_wait(c, m, 0, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
	if (!ctl() || in_rt) return REAL(pthread_cond_timedwait, "GLIBC_2.3.2")(c, m, t);
	if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { point(); return EINVAL; }
	return c_wait(c, m, 1, ts_us(t) + ((c->__data.__wrefs & 2) ? clk_off(CLOCK_MONOTONIC) : 0));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *t) {
	if (!ctl() || in_rt) return REAL(pthread_cond_clockwait, 0)(c, m, id, t);
	if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { point(); return EINVAL; }
	return c_wait(c, m, 1, ts_us(t) + clk_off(id));
}
int pthread_cond_signal(pthread_cond_t *c) {
	if (!ctl() || in_rt) return REAL(pthread_cond_signal, "GLIBC_2.3.2")(c);
	chk(c, "condition operation on freed memory");
	point();
	Th *w[MAXT]; int n = 0;
	for (int i = 0; i < NT; i++) if (T[i].used && T[i].st == S_COND && T[i].obj == c && !T[i].woken) w[n++] = &T[i];
	if (n) { uint32_t k = choose(n, 0, vs_srand_(n)); w[k]->woken = 1; }
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
	if (!ctl() || in_rt) return REAL(pthread_cond_broadcast, "GLIBC_2.3.2")(c);
	chk(c, "condition operation on freed memory");
	point();
	for (int i = 0; i < NT; i++) if (T[i].used && T[i].st == S_COND && T[i].obj == c) T[i].woken = 1;
	return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
	if (ctl() && !in_rt) { chk(c, "condition destroyed twice"); for (int i = 0; i < NT; i++) if (T[i].used && T[i].st == S_COND && T[i].obj == c) bad("destroyed a condition variable in use"); }
	return 0;
}
// ------------------------------------------------------------------ rwlocks
static int rw_acq(pthread_rwlock_t *l, int w, int try_) {
	chk(l, "rwlock operation on freed memory");
	point();
	Rw *r = rwl(l);
	if (!try_ && r->w == self) return EDEADLK;
	for (;;) {
		int ok = w ? (!r->w && !r->nr) : rd_ok(r, l, self);
		if (ok) break;
		if (try_) { unblock(); return EBUSY; }
		self->wmode = w; block(S_RW, l, 0, 0); schedule(0);
	}
	unblock();
	if (w) r->w = self; else { r->nr++; r->rd[self->id]++; }
	sync_ev(w ? 'W' : 'R', l);
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!ctl() || in_rt) return REAL(pthread_rwlock_rdlock, 0)(l); return rw_acq(l, 0, 0); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!ctl() || in_rt) return REAL(pthread_rwlock_wrlock, 0)(l); return rw_acq(l, 1, 0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!ctl() || in_rt) return REAL(pthread_rwlock_tryrdlock, 0)(l); return rw_acq(l, 0, 1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!ctl() || in_rt) return REAL(pthread_rwlock_trywrlock, 0)(l); return rw_acq(l, 1, 1); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
	if (!ctl() || in_rt) return REAL(pthread_rwlock_unlock, 0)(l);
	Rw *r = rwl(l);
	sync_ev('X', l);
	if (r->w == self) r->w = 0;
	else if (r->rd[self->id]) { r->rd[self->id]--; r->nr--; }
	else bad("rwlock unlock without holding it");
	return 0;
}
// ------------------------------------------------------------------ clock
int gettimeofday(struct timeval *tv, void *tz) __THROW {
	if (!ctl() || in_rt) { static int (*f)(struct timeval *, void *); if (!f) f = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday"); return f(tv, tz); }
	if (tv) { tv->tv_sec = g_clock / 1000000; tv->tv_usec = g_clock % 1000000; g_clock++; }
	return 0;
}
time_t time(time_t *t) __THROW {
	time_t r;
	if (!ctl() || in_rt) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; } else r = g_clock++ / 1000000;
	if (t) *t = r; return r;
}
int clock_gettime(clockid_t id, struct timespec *ts) __THROW {
	if (!ctl() || in_rt) return syscall(SYS_clock_gettime, id, ts);
	int64_t c = g_clock - clk_off(id); ts->tv_sec = c / 1000000; ts->tv_nsec = c % 1000000 * 1000; g_clock++; return 0;
}
static void vsleep(int64_t us) { int64_t dl = g_clock + us; block(S_SLEEP, 0, 0, dl); schedule(0); unblock(); }
int usleep(useconds_t us) { if (!ctl() || in_rt) { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return syscall(SYS_nanosleep, &ts, 0); } vsleep(us); return 0; }
unsigned sleep(unsigned s) { if (!ctl() || in_rt) { struct timespec ts = {(time_t)s, 0}; syscall(SYS_nanosleep, &ts, 0); return 0; } vsleep((int64_t)s * 1000000); return 0; }
int nanosleep(const struct timespec *r, struct timespec *m) { if (!ctl() || in_rt) return syscall(SYS_nanosleep, r, m); vsleep((int64_t)r->tv_sec * 1000000 + r->tv_nsec / 1000); return 0; }
int clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *m) {
	if (!ctl() || in_rt) { long rc = syscall(SYS_clock_nanosleep, id, fl, r, m); return rc < 0 ? errno : 0; }
	int64_t us = (int64_t)r->tv_sec * 1000000 + r->tv_nsec / 1000; if (fl & TIMER_ABSTIME) us -= g_clock - clk_off(id); if (us > 0) vsleep(us); return 0;
}
int sched_yield() __THROW { if (ctl() && !in_rt) { point(); return 0; } return syscall(SYS_sched_yield); }
// ------------------------------------------------------------------ threads
static void *th_main(void *p) {
	Th *t = (Th *)p;
	in_rt++; self = t;
	pthread_attr_t a; void *lo; size_t sz;
	if (!pthread_getattr_np(pthread_self(), &a)) { pthread_attr_getstack(&a, &lo, &sz); t->stk_lo = (char *)lo; t->stk_hi = (char *)lo + sz; pthread_attr_destroy(&a); }
	fwait(&t->fut);
	sync_ev('B', t);
	in_rt--;
	if (t->vfn) t->vfn(t->parg); else t->ret = t->pfn(t->parg);
	in_rt++;
	sync_ev('E', t);
	t->st = S_DONE;
	// hand over
	in_rt = 0; schedule(0); in_rt = 1;
	return t->ret;
}
static Th *newth() { if (NT >= MAXT) bad("too many threads"); Th *t = &T[NT]; t->id = NT; t->used = 1; t->st = S_RUN; t->prio = 100 + (int)vs_srand_(10000); NT++; return t; }
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) __THROWNL {
	if (!real_create) real_create = (__typeof__(real_create))dlsym(RTLD_NEXT, "pthread_create");
	if (!ctl() || in_rt) return real_create(pt, attr, fn, arg);
	point();
	in_rt++;
	Th *t = newth(); t->pfn = fn; t->parg = arg; t->vfn = 0;
	int ds = 0; if (attr) pthread_attr_getdetachstate(attr, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED;
	int r = real_create(&t->pt, attr, th_main, t);
	if (r) { t->used = 0; t->st = S_DONE; in_rt--; return r; }
	*pt = t->pt;
	sync_ev('C', t);
	in_rt--;
	point();	// the new thread may run before create returns
	return 0;
}
static Th *byh(pthread_t p) { for (int i = NT - 1; i > 0; i--) if (T[i].used && T[i].pt == p && !T[i].joined) return &T[i]; return 0; }
int pthread_join(pthread_t p, void **r) {
	if (!ctl() || in_rt) { static int (*f)(pthread_t, void **); if (!f) f = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join"); return f(p, r); }
	point();
	Th *t = byh(p);
	if (!t) return ESRCH;
	if (t->detached) return EINVAL;
	while (t->st != S_DONE) { block(S_JOIN, (void *)(intptr_t)t->id, 0, 0); schedule(0); }
	unblock(); t->joined = 1;
	sync_ev('J', t);
	if (r) *r = t->ret;
	return 0;
}
int pthread_detach(pthread_t p) __THROW { if (!ctl() || in_rt) { static int (*f)(pthread_t); if (!f) f = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach"); return f(p); } Th *t = byh(p); if (!t) return ESRCH; t->detached = 1; return 0; }

int vs_spawn(void (*fn)(void *), void *arg) {
	in_rt++;
	Th *t = newth(); t->vfn = fn; t->parg = arg;
	if (!real_create) real_create = (__typeof__(real_create))dlsym(RTLD_NEXT, "pthread_create");
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 * 1024);
	if (real_create(&t->pt, &a, th_main, t)) bad("cannot create thread");
	sync_ev('C', t);
	in_rt--;
	return t->id;
}
void vs_join(int id) { Th *t = &T[id]; while (t->st != S_DONE) { block(S_JOIN, (void *)(intptr_t)id, 0, 0); schedule(0); } unblock(); t->joined = 1; sync_ev('J', t); }
void vs_joinall() { for (int i = 1; i < NT; i++) if (T[i].used && !T[i].joined && T[i].vfn) vs_join(i); }

// ------------------------------------------------------------------ function-local statics
int __cxa_guard_acquire(uint64_t *g) {
	volatile unsigned char *b = (volatile unsigned char *)g;
	if (b[0]) return 0;
	if (!ctl() || in_rt) { if (b[1]) return 0; b[1] = 1; return 1; }
	point();
	while (!b[0] && b[1]) { block(S_GUARD, g, 0, 0); schedule(0); unblock(); }
	if (b[0]) { sync_ev('L', g); return 0; }
	b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t *g) { volatile unsigned char *b = (volatile unsigned char *)g; if (ctl()) { sync_ev('L', g); sync_ev('U', g); } b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(uint64_t *g) { volatile unsigned char *b = (volatile unsigned char *)g; b[1] = 0; }
}

// ------------------------------------------------------------------ allocation with quarantine
enum { ARENA = 192 << 20 };
static char *ar; static size_t ar_off; static unsigned char *ar_sh; static char ar_lock;
static size_t ar_live; static long ar_nlive;
static void ar_init() { if (!ar) { char *p = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ar_sh = (unsigned char *)mmap(0, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ar = p; } }
static void *ar_alloc(size_t n) {
	while (__atomic_test_and_set(&ar_lock, __ATOMIC_ACQUIRE)) {}
	ar_init();
	size_t need = (n + 15 + 32) & ~(size_t)15;	// 16 header + redzone
	if (ar_off + need > ARENA) { fprintf(stderr, "vs arena exhausted\n"); _exit(8); }
	char *p = ar + ar_off + 16; ar_off += need;
	*(size_t *)(p - 16) = n; *(size_t *)(p - 8) = 0xA110CA7EDull;
	size_t a = (p - ar) / 8, e = (n + 7) / 8; memset(ar_sh + a, 1, e ? e : 1);
	ar_nlive++;
	__atomic_clear(&ar_lock, __ATOMIC_RELEASE);
	memset(p, 0xCD, n);
	return p;
}
static void al_free(void *p, size_t n, uintptr_t pc);
static void ar_free(void *v, uintptr_t pc) {
	if (!v) return;
	char *p = (char *)v;
	if (!ar || p < ar || p >= ar + ARENA) { free(v); return; }
	if (*(size_t *)(p - 8) == 0xDEADull) { if (g_on) bad("double delete"); return; }
	if (*(size_t *)(p - 8) != 0xA110CA7EDull) { if (g_on) bad("delete of a wild pointer"); return; }
	size_t n = *(size_t *)(p - 16);
	*(size_t *)(p - 8) = 0xDEAD; al_free(p, n, pc);
	while (__atomic_test_and_set(&ar_lock, __ATOMIC_ACQUIRE)) {}
	size_t a = (p - ar) / 8, e = (n + 7) / 8; memset(ar_sh + a, 2, e ? e : 1);
	ar_nlive--;
	__atomic_clear(&ar_lock, __ATOMIC_RELEASE);
	memset(p, 0xDD, n);
}
extern "C" int vs_isfreed(const void *q) { const char *p = (const char *)q; return ar && p >= ar && p < ar + ARENA && ar_sh[(p - ar) / 8] == 2; }
static int heap_bad(const char *p) { unsigned char s = ar_sh[(p - ar) / 8]; return s != 1; }
void *operator new(size_t n) { return ar_alloc(n); }
void *operator new[](size_t n) { return ar_alloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return ar_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return ar_alloc(n); }
void operator delete(void *p) noexcept { ar_free(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete[](void *p) noexcept { ar_free(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete(void *p, size_t) noexcept { ar_free(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete[](void *p, size_t) noexcept { ar_free(p, (uintptr_t)__builtin_return_address(0)); }

// ------------------------------------------------------------------ access log
struct Loc { uintptr_t a; uint32_t rd, wr; uint32_t id; };		// 8-byte granule, thread masks
enum { NLOC = 1 << 15, NAL = 1 << 16 };
struct Acc { uint8_t t; char k; uint32_t o, n; uintptr_t pc; };	// k: r w (of n bytes)  or sync letter
static Loc *LC; static Acc *AL; static uint32_t nAL;
static Loc *loc(uintptr_t a) {
	uint32_t h = (uint32_t)(((a >> 2) * 2654435761u) >> 7) % NLOC;
	for (int k = 0; k < NLOC; k++, h = (h + 1) % NLOC) { if (LC[h].a == a) return &LC[h]; if (!LC[h].a) { LC[h].a = a; LC[h].id = h; return &LC[h]; } }
	return 0;
}
static Loc *locfind(uintptr_t a) { uint32_t h = (uint32_t)(((a >> 2) * 2654435761u) >> 7) % NLOC; for (int k = 0; k < NLOC; k++, h = (h + 1) % NLOC) { if (LC[h].a == a) return &LC[h]; if (!LC[h].a) return 0; } return 0; }
static void al_init() { if (!LC) { LC = (Loc *)mmap(0, sizeof(Loc) * NLOC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); AL = (Acc *)mmap(0, sizeof(Acc) * NAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } }
static uint32_t seenr[NLOC], seenw[NLOC]; static uint32_t epoch[MAXT];
// dedup key per thread: last epoch in which (thread,loc) was read/written
static uint32_t (*lastr)[MAXT], (*lastw)[MAXT];
static unsigned char gran[1 << 16];
// memory given back to malloc: whoever gets it next has new locations
extern "C" void __libc_free(void *); extern "C" void *__libc_realloc(void *, size_t);
static void forget(void *p) {
	uintptr_t a = (uintptr_t)p, e = a + malloc_usable_size(p);
	for (uintptr_t g = a & ~(uintptr_t)15; g < e; g += 16) if (gran[(g >> 4) & 0xffff]) for (uintptr_t q = g; q < g + 16; q++) { Loc *l = locfind(q); if (l) l->a = 1; }
}
extern "C" void free(void *p) { if (p && LC && g_on) forget(p); __libc_free(p); }
extern "C" void *realloc(void *p, size_t n) { if (p && LC && g_on) forget(p); return __libc_realloc(p, n); }
static void acc(uintptr_t a, int w, uintptr_t pc, uint32_t n) {
	al_init();
	if (!lastr) { lastr = (uint32_t(*)[MAXT])mmap(0, sizeof(uint32_t) * MAXT * NLOC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); lastw = (uint32_t(*)[MAXT])mmap(0, sizeof(uint32_t) * MAXT * NLOC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
	Loc *l = loc(a); if (!l) return;
	gran[(a >> 4) & 0xffff] = 1;
	int t = self->id;
	if (w) { l->wr |= 1u << t; if (lastw[l->id][t] == epoch[t] + 1) return; lastw[l->id][t] = epoch[t] + 1; }
	else { l->rd |= 1u << t; if (lastr[l->id][t] == epoch[t] + 1 || lastw[l->id][t] == epoch[t] + 1) return; lastr[l->id][t] = epoch[t] + 1; }
	if (nAL >= NAL) { al_over = 1; return; }
	AL[nAL++] = {(uint8_t)t, w ? 'w' : 'r', l->id, n, pc};
}
static void sync_ev(char k, void *o) {
	if (!g_accesslog || !g_on || !self) return;
	if (k == 'l') return;
	al_init();
	if (nAL >= NAL) { al_over = 1; return; }
	uint32_t id;
	if (k == 'C' || k == 'B' || k == 'E' || k == 'J') id = ((Th *)o)->id;
	else id = loc((uintptr_t)o | (uintptr_t)1 << 62)->id;	// sync objects have their own keys
	static bool many; if (k == 'C' && !many) { many = true; nAL = 0; al_over = 0; for (int i = 0; i < MAXT; i++) epoch[i]++; }	// what one thread did before it created the first other one precedes everything
	if (k != 'C' && k != 'B' && k != 'E' && k != 'J') LC[id].rd |= 1u << self->id;
	AL[nAL++] = {(uint8_t)self->id, k, id, 0, 0};
	epoch[self->id]++;
}
static int popc(uint32_t x) { return __builtin_popcount(x); }
// the other recorded locations inside an access of n bytes
template <class F> static void inside(const Acc &a, F f) {
	uintptr_t p = LC[a.o].a; if (a.n <= 1 || p == 1) return;
	if (a.n <= 16) { for (uintptr_t q = p + 1; q < p + a.n; q++) { Loc *l = locfind(q); if (l) f(*l); } }
	else for (uint32_t i = 0; i < NLOC; i++) if (LC[i].a > p && LC[i].a < p + a.n) f(LC[i]);
}
extern "C" void vs_dump_accesses() {
	if (!LC) return;
	static uint32_t num[NLOC]; uint32_t nn = 0;
	for (uint32_t i = 0; i < nAL; i++) { Acc &a = AL[i]; if (a.k == 'r') inside(a, [&](Loc &l) { l.rd |= 1u << a.t; }); else if (a.k == 'w') inside(a, [&](Loc &l) { l.wr |= 1u << a.t; }); }
	for (uint32_t i = 0; i < nAL; i++) {
		Acc &a = AL[i]; uintptr_t off = 0; if (a.pc) off = a.pc - (uintptr_t)&__executable_start;
		auto put = [&](uint32_t o, bool n) { if (n) { if (!num[o]) num[o] = ++nn; o = num[o]; } vs_ev("{\"e\":\"m\",\"t\":%d,\"k\":\"%c\",\"o\":%u,\"p\":%lu}", a.t, a.k, o, (unsigned long)off); };
		auto unit = [&](Loc &l) { if (l.wr && popc(l.rd | l.wr) > 1) put(l.id, true); };
		if (a.k == 'r' || a.k == 'w') { unit(LC[a.o]); inside(a, unit); }
		else { bool th = a.k == 'C' || a.k == 'B' || a.k == 'E' || a.k == 'J'; if (th || popc(LC[a.o].rd) > 1) put(a.o, !th); }	// an object only one thread uses orders nothing
	}
}
// a delete is a write of the whole block
static void al_free(void *p, size_t n, uintptr_t pc) { if (g_accesslog && g_on && self && !in_rt && n) { in_rt++; acc((uintptr_t)p, 1, pc, n); in_rt--; } }

// ------------------------------------------------------------------ tsan entry points
static inline void mem(const void *p, int w, uintptr_t pc, uint32_t n) {
	if (!g_on) return;
	Th *s = self;
	if (!s || in_rt) return;
	const char *q = (const char *)p;
	if (q >= s->stk_lo && q < s->stk_hi) return;
	if (g_accesslog) { in_rt++; acc((uintptr_t)p, w, pc, n); in_rt--; }
	if (ar && q >= ar && q < ar + ARENA && heap_bad(q)) { in_rt++; bad(ar_sh[(q - ar) / 8] == 2 ? "use of freed memory" : "access outside an allocation"); }
	if (g_quiet) return;
	int hot = s->hot > 0; if (hot) s->hot--;
	SH->mpts = SH->mpts + 1; if (SH->mpts > 5000000) fin("livelock");
	if (g_mode == M_DFS) { return; }
	if ((g_mode == M_RAND && g_mem_den) || g_mode == M_PCT || g_mode == M_REPLAY) schedule(1 + hot);
}
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RWN(n) void __tsan_read##n(void *p) { mem(p, 0, PC, n); } void __tsan_write##n(void *p) { mem(p, 1, PC, n); } \
 void __tsan_unaligned_read##n(void *p) { mem(p, 0, PC, n); } void __tsan_unaligned_write##n(void *p) { mem(p, 1, PC, n); } \
 void __tsan_volatile_read##n(void *p) { mem(p, 0, PC, n); } void __tsan_volatile_write##n(void *p) { mem(p, 1, PC, n); }
RWN(1) RWN(2) RWN(4) RWN(8) RWN(16)
void __tsan_read_range(void *p, unsigned long n) { mem(p, 0, PC, n); } void __tsan_write_range(void *p, unsigned long n) { mem(p, 1, PC, n); }
void __tsan_vptr_update(void **p, void *) { mem(p, 1, PC, 8); } void __tsan_vptr_read(void **p) { mem(p, 0, PC, 8); }
// memory order: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
static void atom(void *p, int mo) { if (ctl() && !in_rt) { chk(p, "use of freed memory"); point(); if (mo != 0 && mo != 3) sync_ev('L', p); if (mo >= 3) sync_ev('U', p); } }
#define ATOM(N, ty) \
 ty __tsan_atomic##N##_load(const volatile ty *a, int mo) { atom((void *)a, mo == 5 ? 2 : mo); return *a; } \
 void __tsan_atomic##N##_store(volatile ty *a, ty v, int mo) { atom((void *)a, mo == 5 ? 3 : mo); *a = v; } \
 ty __tsan_atomic##N##_exchange(volatile ty *a, ty v, int mo) { atom((void *)a, mo); ty o = *a; *a = v; return o; } \
 ty __tsan_atomic##N##_fetch_add(volatile ty *a, ty v, int mo) { atom((void *)a, mo); ty o = *a; *a = o + v; return o; } \
 ty __tsan_atomic##N##_fetch_sub(volatile ty *a, ty v, int mo) { atom((void *)a, mo); ty o = *a; *a = o - v; return o; } \
 ty __tsan_atomic##N##_fetch_and(volatile ty *a, ty v, int mo) { atom((void *)a, mo); ty o = *a; *a = o & v; return o; } \
 ty __tsan_atomic##N##_fetch_or(volatile ty *a, ty v, int mo) { atom((void *)a, mo); ty o = *a; *a = o | v; return o; } \
 ty __tsan_atomic##N##_fetch_xor(volatile ty *a, ty v, int mo) { atom((void *)a, mo); ty o = *a; *a = o ^ v; return o; } \
 ty __tsan_atomic##N##_fetch_nand(volatile ty *a, ty v, int mo) { atom((void *)a, mo); ty o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int) { atom((void *)a, mo); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int) { atom((void *)a, mo); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 ty __tsan_atomic##N##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int) { atom((void *)a, mo); ty o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ child
static void crash_h(int sig) {
	static volatile int once; if (once) _exit(9); once = 1;
	g_on = 0;
	char b[64]; snprintf(b, sizeof b, "signal %d", sig);
	vs_ev("{\"e\":\"end\",\"k\":\"crash\",\"w\":\"%s\",\"v\":%lld}", b, (long long)vs_now_us());
	SH->ended = 1; _exit(0);
}
extern "C" void __assert_fail(const char *e, const char *, unsigned, const char *fn) __THROW {
	char b[160]; int j = 0; for (int i = 0; e[i] && j < 150; i++) if (e[i] != '"' && e[i] != '\\') b[j++] = e[i]; b[j] = 0; (void)fn;
	if (SH) { g_on = 0; vs_ev("{\"e\":\"end\",\"k\":\"crash\",\"w\":\"assertion %s\",\"v\":%lld}", b, (long long)vs_now_us()); SH->ended = 1; _exit(0); }
	fprintf(stderr, "assertion failed: %s\n", e); _exit(9);
}
static void child(const VsScenario *s, int prog) {
	stack_t ss; static char alt[65536]; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash_h; sa.sa_flags = SA_ONSTACK;
	int sg[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGTERM}; for (int x : sg) sigaction(x, &sa, 0);
	alarm(60); signal(SIGALRM, SIG_DFL); signal(SIGPROF, SIG_DFL); { struct itimerval tv = {{0, 0}, {8, 0}}; setitimer(ITIMER_PROF, &tv, 0); }	// 8 s of CPU: an endless loop
	rs_p = mix(g_prog_seed); rs_s = mix(g_sched_seed);
	for (int i = 0; i < 4; i++) { rnd(rs_p); rnd(rs_s); }
	g_base = 1600000000ll * 1000000; g_clock = g_base;
	NT = 0; Th *t = newth(); t->pt = pthread_self();
	pthread_attr_t a; void *lo; size_t sz; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &sz); t->stk_lo = (char *)lo; t->stk_hi = (char *)lo + sz; pthread_attr_destroy(&a);
	self = t; cur = t; g_on = 1;
	try { s->run(prog); } catch (...) { bad("exception escaped"); }
	fin("done");
}

// ------------------------------------------------------------------ parent / explorer
static uint64_t fnv(const char *p, uint32_t n) { uint64_t h = 1469598103934665603ull; for (uint32_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h ? h : 1; }
static uint64_t *seen; static uint32_t nseen, cseen;
static int add_seen(uint64_t h) {
	if (!seen) { cseen = 1 << 20; seen = (uint64_t *)calloc(cseen, 8); }
	if (nseen * 2 > cseen) return 1;
	uint32_t i = h % cseen; while (seen[i]) { if (seen[i] == h) return 0; i = (i + 1) % cseen; } seen[i] = h; nseen++; return 1;
}
static long n_hang; static FILE *out; static long n_exec, n_uniq, n_over; static uint64_t tot_steps, tot_mem, tot_ch;
static int run_one(const VsScenario *s, int prog, const char *mode, int write_all) {
	SH->hlen = 0; SH->nch = 0; SH->ended = 0; SH->steps = 0; SH->mpts = 0;
	pid_t pid = fork();
	if (pid == 0) { child(s, prog); _exit(3); }
	if (pid < 0) { perror("fork"); exit(3); }
	int st; waitpid(pid, &st, 0);
	n_exec++; tot_steps += SH->steps; tot_mem += SH->mpts; tot_ch += SH->nch;
	if (!SH->ended) {
		char b[128];
		int n = snprintf(b, sizeof b, "{\"e\":\"end\",\"k\":\"%s\",\"w\":\"status %d\",\"v\":0}", WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF) ? "hang" : "crash", st);
		hput(b, n); if (strstr(b, "hang")) n_hang++;
	} else if (SH->ended == 2) { n_over++; return 0; }
	uint64_t h = fnv(SH->hist, SH->hlen) ^ ((uint64_t)(s - (VsScenario *)0) * 1234567);
	if (write_all || add_seen(h)) {
		n_uniq++;
		fprintf(out, "{\"s\":\"%s\",\"prog\":%d,\"ps\":%llu,\"ss\":%llu,\"mode\":\"%s\",\"mem\":%d,\"syn\":%d,\"sp\":%d,\"early\":%d,\"punct\":%d,\"pct\":[", s->name, prog, (unsigned long long)g_prog_seed, (unsigned long long)g_sched_seed, mode, g_mem_den, g_sync_den, g_spurious, g_early, g_punctual);
		for (int i = 0; i < g_pct_n; i++) fprintf(out, "%s%u", i ? "," : "", g_pct_at[i]);
		fprintf(out, "],\"ch\":[");
		if (g_mode == M_DFS) for (uint32_t i = 0; i < SH->nch; i++) fprintf(out, "%s%d", i ? "," : "", SH->ch[i].c);
		fprintf(out, "],\"ev\":[");
		int first = 1; char *p = SH->hist, *e = p + SH->hlen;
		while (p < e) { char *nl = (char *)memchr(p, '\n', e - p); if (!nl) break; if (!first) fputc(',', out); first = 0; fwrite(p, 1, nl - p, out); p = nl + 1; }
		fprintf(out, "]}\n");
	}
	return 1;
}
static const char *opt(int argc, char **argv, const char *k, const char *d) { for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1]; return d; }
static long opti(int argc, char **argv, const char *k, long d) { const char *v = opt(argc, argv, k, 0); return v ? atol(v) : d; }

// DFS over schedules of one program with at most `bound` preemptions
static int dfs(const VsScenario *s, int prog, int bound, long maxexec) {
	static uint16_t pre[CH_MAX]; static Choice st[CH_MAX]; uint32_t n = 0; long k = 0;
	g_mode = M_DFS; g_prefix = pre; g_nprefix = 0;
	for (;;) {
		g_nprefix = n;
		run_one(s, prog, "dfs", 0); k++;
		uint32_t m = SH->nch; memcpy(st, SH->ch, sizeof(Choice) * m);
		// costs so far
		static uint32_t cs[CH_MAX + 1]; cs[0] = 0; for (uint32_t i = 0; i < m; i++) cs[i + 1] = cs[i] + st[i].cost[st[i].c & 15];
		int64_t i = (int64_t)m - 1; int found = 0;
		for (; i >= 0 && !found; i--) for (int c = st[i].c + 1; c < st[i].n; c++) if (cs[i] + st[i].cost[c] <= (uint32_t)bound) { for (int64_t j = 0; j < i; j++) pre[j] = st[j].c; pre[i] = c; n = i + 1; found = 1; break; }
		if (!found) return 1;
		if (k >= maxexec || n_hang > 1) return 0;
	}
}
int vs_main(int argc, char **argv, const VsScenario *sc, int nsc) {
	SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	const char *o = opt(argc, argv, "-o", 0); out = o ? fopen(o, "w") : stdout; if (!out) { perror(o); return 3; }
	setvbuf(out, 0, _IOFBF, 1 << 20);
	long seed = opti(argc, argv, "-seed", 1), shard = opti(argc, argv, "-shard", 0), nsh = opti(argc, argv, "-nshards", 1);
	long dprogs = opti(argc, argv, "-dfsprogs", 0), dmax = opti(argc, argv, "-dfsmax", 500), bound = opti(argc, argv, "-bound", 2), iters = opti(argc, argv, "-iters", 200), per = opti(argc, argv, "-per", 8);
	double budget = atof(opt(argc, argv, "-budget", "600"));
	g_accesslog = opti(argc, argv, "-acc", 0);
	const char *only = opt(argc, argv, "-only", 0);
	{ cpu_set_t cs; CPU_ZERO(&cs); long nc = sysconf(_SC_NPROCESSORS_ONLN); CPU_SET(shard % nc, &cs); sched_setaffinity(0, sizeof cs, &cs); }
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	struct timespec t0, t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
	long complete = 0, ndfs = 0; int timeup = 0;
	const char *rep = opt(argc, argv, "-replay", 0);
	if (rep) {	// -replay scenario prog ps ss mode mem syn sp early punct pct.. ch..  given as key=value file
		long ps = 0, ss = 0, pr = 0; char mode[16] = "", sn[64] = ""; static uint16_t pre[CH_MAX];
		FILE *f = fopen(rep, "r"); if (!f) { perror(rep); return 3; }
		char key[32]; while (fscanf(f, "%31s", key) == 1) {
			if (!strcmp(key, "s")) { if (fscanf(f, "%63s", sn) != 1) return 3; } else if (!strcmp(key, "mode")) { if (fscanf(f, "%15s", mode) != 1) return 3; }
			else if (!strcmp(key, "ch")) { int v; while (fscanf(f, "%d", &v) == 1) pre[g_nprefix++] = v; }
			else { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) return 3;
				if (!strcmp(key, "ps")) ps = v; else if (!strcmp(key, "ss")) ss = v; else if (!strcmp(key, "prog")) pr = v; else if (!strcmp(key, "mem")) g_mem_den = v; else if (!strcmp(key, "syn")) g_sync_den = v;
				else if (!strcmp(key, "sp")) g_spurious = v; else if (!strcmp(key, "early")) g_early = v; else if (!strcmp(key, "punct")) g_punctual = v; else if (!strcmp(key, "pct")) g_pct_at[g_pct_n++] = v; }
		}
		g_prefix = pre; g_prog_seed = ps; g_sched_seed = ss;
		g_mode = !strcmp(mode, "dfs") ? M_DFS : !strcmp(mode, "pct") ? M_PCT : M_RAND;
		for (int i = 0; i < nsc; i++) if (!strcmp(sc[i].name, sn)) run_one(&sc[i], pr, mode, 1);
		fclose(out); return 0;
	}
	for (int si = 0; si < nsc; si++) {
		const VsScenario *s = &sc[si];
		if (only) { int hit = 0; size_t n = strlen(s->name); for (const char *q = only; (q = strstr(q, s->name)); q++) if ((q == only || q[-1] == ',') && (!q[n] || q[n] == ',')) hit = 1; if (!hit) continue; }
		g_accesslog = opti(argc, argv, "-acc", 0);
		for (long p = shard; p < dprogs && !timeup && n_hang < 2; p += nsh) {
			g_prog_seed = mix(seed * 7919 + si * 104729 + p); g_sched_seed = g_prog_seed; g_spurious = 0; g_early = p & 1; g_punctual = !(p & 1); g_pct_n = 0; g_mem_den = 0; g_sync_den = 1;
			ndfs++; complete += dfs(s, (int)p, (int)bound, dmax);
			syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) > budget) timeup = 1;
		}
		uint32_t est = 200;
		for (long it = shard; it < iters && !timeup && n_hang < 2; it += nsh) {
			long p = it / per;	// several schedules per program
			g_prog_seed = mix(seed * 6151 + si * 104729 + 1000003 + p); g_sched_seed = mix(seed * 31 + it * 9176 + si);
			uint64_t r = mix(g_sched_seed ^ 77);
			g_spurious = (r >> 8) % 3 == 0; g_punctual = (r >> 12) % 2; g_early = !g_punctual; g_pct_n = 0;
			static const int md[] = {4, 12, 40, 150, 0}; static const int sd[] = {2, 2, 3, 4, 2};
			if ((r >> 16) % 2) { g_mode = M_RAND; int k = (r >> 20) % 5; g_mem_den = md[k]; g_sync_den = sd[k]; }
			else { g_mode = M_PCT; g_mem_den = 1; g_sync_den = 1; g_pct_n = 1 + (r >> 20) % 4; for (int k = 0; k < g_pct_n; k++) { r = mix(r); g_pct_at[k] = 1 + r % est; } }
			run_one(s, (int)p, g_mode == M_RAND ? "rand" : "pct", 0);
			if (g_mode == M_PCT || g_mem_den) est = (est * 7 + SH->steps) / 8 + 8;
			if ((it & 63) == 0) { syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) > budget) timeup = 1; }
		}
	}
	fprintf(out, "{\"stat\":{\"exec\":%ld,\"uniq\":%ld,\"over\":%ld,\"dfs\":%ld,\"dfs_complete\":%ld,\"steps\":%llu,\"mem\":%llu,\"choices\":%llu,\"timeup\":%d}}\n", n_exec, n_uniq, n_over, ndfs, complete, (unsigned long long)tot_steps, (unsigned long long)tot_mem, (unsigned long long)tot_ch, timeup);
	fclose(out);
	return 0;
}
