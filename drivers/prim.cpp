// C01 C02 C03 C04 C11 C14: the primitives
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
#include "cc.h"
enum { LOCK, LOCKF, TRY, TIMED, UNLOCK, INC, CNT, SLEEP, SCOPED, MULTI, MULTI2, WAIT, WAITT, SIGNAL, BCAST, NOPS };
enum { NM = 4 };
struct MCtx { Mutex m[NM]; Signal s; int x[NM], keep; MCtx() { memset(x, 0, sizeof x); } };
static int incr(MCtx &c, int m) { volatile int *p = &c.x[m]; int v = *p; *p = v + 1; return v; }
// what the holder is told about its locks: the count, what mutext() says of it and of the places they were taken at (line, 0: not known, -1: nonsense)
static std::string who(Mutex &m) {
	char b[32]; sprintf(b, "%d", m.lockcnt()); std::string r = b; std::istringstream is(m.mutext()); std::string w;
	while (is >> w) { int v = -1; size_t k = w.rfind(':'); if (w == "?") v = 0; else if (w.compare(0, 8, "lockcnt=") == 0) v = atoi(w.c_str() + 8); else if (k != std::string::npos && (w.substr(0, k) == "file.cpp" || w.substr(0, k) == "multi.cpp")) v = atoi(w.c_str() + k + 1) ? atoi(w.c_str() + k + 1) : -2; sprintf(b, ",%d", v); r += b; }
	return r; }
static void run(void *v, const PThread &p) {
	MCtx &c = *(MCtx *)v; int own[NM] = {0, 0, 0, 0};
	for (size_t i = 0; i < p.size(); i++) {
		const POp &o = p[i]; int m = o.a; bool r;
		switch (o.k) {
		case LOCK: CALL("lock", "%d,0", m); c.m[m].lock(); RET("%s", ""); own[m]++; break;
		case LOCKF: CALL("lock", "%d,%d", m, 7 + o.b); c.m[m].lock("file.cpp", 7 + o.b); RET("%s", ""); own[m]++; break;
		case TRY: CALL("try", "%d,%d", m, o.c); r = o.c ? c.m[m].trylock("file.cpp", o.c) : c.m[m].trylock(); RET("%d", (int)r); if (r) own[m]++; break;
		case TIMED: CALL("timed", "%d,%d,%d", m, clipms(o.b), o.c); r = o.c ? c.m[m].timedlock(o.b, "file.cpp", o.c) : c.m[m].timedlock(o.b); RET("%d", (int)r); if (r) own[m]++; break;
		case UNLOCK: if (own[m]) { CALL("unlock", "%d", m); c.m[m].unlock(); RET("%s", ""); own[m]--; } break;
		case INC: if (own[m]) { CALL("inc", "%d", m); int q = incr(c, m); RET("%d", q); } break;
		case CNT: if (own[m]) { CALL("cnt", "%d", m); std::string q = who(c.m[m]); RET("%s", q.c_str()); } break;
		case SLEEP: usleep(o.b * 1000); break;
		case SCOPED: { CALL("lock", "%d,0", m); { ScopedLock l(c.m[m]); RET("%s", ""); CALL("inc", "%d", m); int q = incr(c, m); RET("%d", q); CALL("unlock", "%d", m); } RET("%s", ""); } break;
		case MULTI: case MULTI2: {	// a,b,c: mutexes (a permutation); entering with what we own
			int a[3] = {o.a, o.b, o.c}; int n = o.k == MULTI ? 3 : 2, bits = 0, ok = 1;
			for (int k = 0; k < n; k++) { if (own[a[k]]) bits |= 1 << k; if (own[a[k]] > 1) ok = 0; }
			if (!ok) break;
			ScopedLockMultiple *l;
			if (n == 3) { CALL("multi", "%d,%d,%d", a[0], a[1], a[2]); l = (vs_self() & 1) ? new ScopedLockMultiple(bits, c.m[a[0]], c.m[a[1]], c.m[a[2]]) : new ScopedLockMultiple(bits, c.m[a[0]], c.m[a[1]], c.m[a[2]], "multi.cpp", 3); RET("%s", ""); }
			else { CALL("multi", "%d,%d", a[0], a[1]); l = (vs_self() & 1) ? new ScopedLockMultiple(bits, c.m[a[0]], c.m[a[1]]) : new ScopedLockMultiple(bits, c.m[a[0]], c.m[a[1]], "multi.cpp", 2); RET("%s", ""); }
			for (int k = 0; k < n; k++) { CALL("inc", "%d", a[k]); int q = incr(c, a[k]); RET("%d", q); CALL("cnt", "%d", a[k]); std::string w = who(c.m[a[k]]); RET("%s", w.c_str()); }
			std::string s; for (int k = 0; k < n; k++) if (!own[a[k]]) { char b[16]; sprintf(b, "%s%d", s.size() ? "," : "", a[k]); s += b; }
			CALL("multiend", "%s", s.c_str()); delete l; RET("%s", "");
			for (int k = 0; k < n; k++) if (own[a[k]]) { CALL("inc", "%d", a[k]); int q = incr(c, a[k]); RET("%d", q); CALL("cnt", "%d", a[k]); std::string w = who(c.m[a[k]]); RET("%s", w.c_str()); }
			break; }
		case WAIT: if (own[0] == 1) { CALL("wait", "%s", ""); c.s.wait(c.m[0]); RET("%s", ""); } break;
		case WAITT: if (own[0] == 1) { CALL("waitt", "%d", o.b < 0 ? o.b : clipms(o.b)); c.s.wait(c.m[0], (long)o.b); RET("%s", ""); } break;
		case SIGNAL: CALL("signal", "%s", ""); c.s.signal(); RET("%s", ""); break;
		case BCAST: CALL("bcast", "%s", ""); c.s.broadcast(); RET("%s", ""); break;
		}
	}
	if (c.keep && vs_self() == 1) return;	// a thread may end holding mutexes: nobody may be blocked by anything else
	for (int m = 0; m < NM; m++) while (own[m]) { CALL("unlock", "%d", m); c.m[m].unlock(); RET("%s", ""); own[m]--; }
}
static POp mk(int k, int a = 0, int b = 0, int c = 0) { POp o = {k, a, b, c}; return o; }
static const int PH[] = {0, 1, 999000, 998000, 500000, 999999, 970000};
static void finish(Prog &P, int keep = 0) {
	MCtx *c = new MCtx; c->keep = keep; run_prog(P, run, c);
	for (int m = 0; m < NM; m++) { CALL("try", "%d,0", m); bool r = c->m[m].trylock(); RET("%d", (int)r); if (r) { CALL("cnt", "%d", m); std::string w = who(c->m[m]); RET("%s", w.c_str()); CALL("inc", "%d", m); int q = incr(*c, m); RET("%d", q); CALL("unlock", "%d", m); c->m[m].unlock(); RET("%s", ""); } }
}
static void s_mutex(int prog) {
	vs_start_clock(PH[vs_prand(7)]);
	int nt = 2 + vs_prand(3); Prog P(nt); int nm = 1 + vs_prand(2);
	static const int w[] = {6, 2, 4, 4, 8, 5, 4, 2, 3}; static const int to[] = {0, 1, 5, 30, 1000, 2500, 1030, 66000, 4000000};
	for (int t = 0; t < nt; t++) { int n = 2 + vs_prand(6); for (int i = 0; i < n; i++) { int k = pick(w, 9), b = to[vs_prand(prog % 4 ? 7 : 9)]; P[t].push_back(mk(k, vs_prand(nm), k == LOCKF ? (int)vs_prand(3) : b, vs_prand(3) ? 0 : 20 + vs_prand(3))); }
		if (vs_prand(8) == 0) { int m = vs_prand(nm), d = 4 + vs_prand(4); while (d--) P[t].push_back(mk(vs_prand(2) ? LOCKF : vs_prand(2) ? LOCK : TRY, m, vs_prand(3))); P[t].push_back(mk(CNT, m)); P[t].push_back(mk(UNLOCK, m)); P[t].push_back(mk(CNT, m)); } }
	finish(P, vs_prand(4) == 0);
}
static void s_multi(int prog) {
	int nt = 2 + vs_prand(3); Prog P(nt); int nm = 2 + vs_prand(3);
	for (int t = 0; t < nt; t++) {
		int rounds = 1 + vs_prand(2);
		for (int r = 0; r < rounds; r++) {
			if (vs_prand(5) == 0) {	// a plain user of one or two mutexes
				int m = vs_prand(nm); P[t].push_back(mk(LOCK, m)); P[t].push_back(mk(INC, m)); if (vs_prand(2)) P[t].push_back(mk(SCOPED, (m + 1) % nm)); P[t].push_back(mk(UNLOCK, m)); continue; }
			int pre = vs_prand(2) ? (int)vs_prand(nm) : -1;
			if (pre >= 0) P[t].push_back(mk(LOCK, pre));
			int a = vs_prand(nm), b = (a + 1 + vs_prand(nm - 1)) % nm;
			int three = nm >= 3 && vs_prand(2); int c = 0; if (three) { do c = vs_prand(nm); while (c == a || c == b); }
			if (vs_prand(4) == 0 && pre >= 0 && pre != a) { int b2 = a; P[t].push_back(mk(TRY, b2)); }
			P[t].push_back(mk(three ? MULTI : MULTI2, a, b, c));
			if (pre >= 0) P[t].push_back(mk(UNLOCK, pre));
			P[t].push_back(mk(UNLOCK, a));
		}
	}
	finish(P);
}
static void s_signal(int prog) {
	vs_start_clock(PH[vs_prand(7)]);
	int nt = 2 + vs_prand(3); Prog P(nt); static const int to[] = {-5, 0, 1, 30, 1000, 2500, 4, 7, 66000, 131000, 900000, 2000000000};
	for (int t = 0; t < nt; t++) {
		int rounds = 1 + vs_prand(3), role = t == 0 ? 0 : t == 1 ? 1 : (int)vs_prand(2);
		for (int r = 0; r < rounds; r++) {
			if (role == 0) { P[t].push_back(mk(LOCK, 0)); P[t].push_back(prog % 2 ? mk(WAIT) : mk(vs_prand(2) ? WAIT : WAITT, 0, to[vs_prand(prog % 3 ? 8 : 12)])); P[t].push_back(mk(INC, 0)); P[t].push_back(mk(UNLOCK, 0)); }
			else { int lk = vs_prand(3) != 0; if (lk) P[t].push_back(mk(LOCK, 0)); if (lk) P[t].push_back(mk(INC, 0)); P[t].push_back(mk(vs_prand(3) ? SIGNAL : BCAST)); if (lk) P[t].push_back(mk(UNLOCK, 0)); }
		}
	}
	finish(P);
}
// ---- RWLock
enum { RL, WL, TRL, TWL, UNL, GET };
struct RCtx { RWLock l; int x, keep; };
static void runrw(void *v, const PThread &p) {
	RCtx &c = *(RCtx *)v; int rd = 0, wr = 0; bool r; volatile int *x = &c.x;
	for (size_t i = 0; i < p.size(); i++) switch (p[i].k) {
		case RL: if (wr) break; CALL("rlock", "%s", ""); c.l.rlock(); RET("%s", ""); rd++; break;
		case WL: if (wr || rd) break; CALL("wlock", "%s", ""); c.l.wlock(); RET("%s", ""); wr++; break;
		case TRL: CALL("tryr", "%s", ""); r = c.l.tryrlock(); RET("%d", (int)r); if (r) rd++; break;
		case TWL: CALL("tryw", "%s", ""); r = c.l.trywlock(); RET("%d", (int)r); if (r) wr++; break;
		case UNL: if (rd || wr) { CALL("unlock", "%s", ""); c.l.unlock(); RET("%s", ""); if (wr) wr--; else rd--; } break;
		case GET: if (wr) { CALL("inc", "%s", ""); int q = *x; *x = q + 1; RET("%d", q); } else if (rd) { CALL("get", "%s", ""); int q = *x; RET("%d", q); } break;
	}
	if (c.keep && vs_self() == 1) return;
	while (rd || wr) { CALL("unlock", "%s", ""); c.l.unlock(); RET("%s", ""); if (wr) wr--; else rd--; }
}
static void s_rw(int prog) {
	int nt = 2 + vs_prand(3); Prog P(nt); static const int w[] = {5, 4, 3, 3, 7, 6};
	for (int t = 0; t < nt; t++) { int n = 3 + vs_prand(6); for (int i = 0; i < n; i++) P[t].push_back(mk(pick(w, 6))); }
	RCtx *c = new RCtx; c->x = 0; c->keep = vs_prand(4) == 0; run_prog(P, runrw, c);
	CALL("tryw", "%s", ""); bool r = c->l.trywlock(); RET("%d", (int)r); if (r) { CALL("inc", "%s", ""); int q = c->x; RET("%d", q); CALL("unlock", "%s", ""); c->l.unlock(); RET("%s", ""); }
}
// ---- Semaphore
static void runsem(void *v, const PThread &p) {
	Semaphore &s = *(Semaphore *)v;
	for (size_t i = 0; i < p.size(); i++) switch (p[i].k) {
		case 0: CALL("post", "%s", ""); s.post(); RET("%s", ""); break;
		case 1: CALL("get", "%s", ""); s.get(); RET("%s", ""); break;
		case 2: { CALL("semtry", "%s", ""); bool r = s.semtry(); RET("%d", (int)r); } break;
	}
}
static void s_sem(int prog) {
	int nt = 2 + vs_prand(3); Prog P(nt); static const int w[] = {5, 5, 2};
	for (int t = 0; t < nt; t++) { int n = 1 + vs_prand(4); for (int i = 0; i < n; i++) P[t].push_back(mk(pick(w, 3))); }
	Semaphore *s = new Semaphore; run_prog(P, runsem, s);
	for (int i = 0; i < 2; i++) { CALL("semtry", "%s", ""); bool r = s->semtry(); RET("%d", (int)r); }
}
// ---- Thread
struct TCtx { Thread *t[3]; int in[3], out[3]; };
struct TArg { TCtx *c; int i; };
static TCtx *tctx;
static int stacksize() { pthread_attr_t a; void *lo; size_t sz = 0; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a); return (int)(sz / 1024); }
static int yields[3];
static void *task(void *v) {
	int i = (int)(intptr_t)v; TCtx *c = tctx;
	CALL("task", "%d,%d,%d", i, c->in[i], stacksize());
	for (int k = 0; k < yields[i]; k++) vs_yield();
	if (yields[i] > 3) usleep(1000);
	c->out[i] = c->in[i] * 2 + 1;
	RET("%s", "");
	return 0;
}
static void runth(void *v, const PThread &p) {
	TCtx &c = *(TCtx *)v; int st[3] = {0, 0, 0};
	for (size_t k = 0; k < p.size(); k++) { int i = p[k].a; switch (p[k].k) {
		case 0: if (!st[i]) { c.in[i] = p[k].b; CALL("start", "%d,%d,256", i, p[k].b); c.t[i]->start(task, (void *)(intptr_t)i); RET("%s", ""); st[i] = 1; } break;
		case 1: if (!st[i]) { c.in[i] = p[k].b; CALL("start", "%d,%d,%d", i, p[k].b, p[k].c); c.t[i]->start2(task, (void *)(intptr_t)i, p[k].c * 1024); RET("%s", ""); st[i] = 1; } break;
		case 2: if (st[i]) { CALL("join", "%d", i); c.t[i]->join(); RET("%d", c.out[i]); st[i] = 0; } break;
		case 3: vs_yield(); break;
	} }
	for (int i = 0; i < 3; i++) if (st[i]) { CALL("join", "%d", i); c.t[i]->join(); RET("%d", c.out[i]); }
}
static void s_thread(int prog) {
	TCtx *c = new TCtx; tctx = c; for (int i = 0; i < 3; i++) { c->t[i] = new Thread; c->in[i] = c->out[i] = 0; yields[i] = vs_prand(6); }
	Prog P(1); int n = 3 + vs_prand(6); static const int w[] = {4, 1, 3, 2}; static const int sk[] = {64, 512, 1024};
	static int used[3]; for (int i = 0; i < n; i++) { int k = pick(w, 4), t = vs_prand(3); if (k == 0 && used[t] == 2) k = 2; if (k == 1 && used[t]) k = 2; if (k == 1) used[t] = 2; if (k == 0) used[t] = 1; P[0].push_back(mk(k, t, 1 + vs_prand(50), sk[vs_prand(3)])); }
	run_prog(P, runth, c);
	for (int i = 0; i < 3; i++) { CALL("tdestroy", "%d", i); delete c->t[i]; RET("%s", ""); }
}
static const VsScenario SC[] = {{"mutex", s_mutex}, {"multi", s_multi}, {"signal", s_signal}, {"rwlock", s_rw}, {"sem", s_sem}, {"thread", s_thread}};
int main(int c, char **v) { return vs_main(c, v, SC, 6); }
