// C06 C07 C08 C09 C10 C12: the other containers and reference-counted pointers
#include "Interthread.h"
#include "Utils.h"
#include "Configuration.h"
ConfigurationTable gConfig;
#include "cc.h"
struct Elem { int id, pr; Elem(int i, int p = 0) : id(i), pr(p) {} ~Elem() { DELETED(id); id = -1; } bool operator>(const Elem &o) const { return pr > o.pr; } bool operator<(const Elem &o) const { return pr < o.pr; } };
static Elem *pool[64];
static int find(const Elem *e) { if (!e) return 0; for (int k = 1; k < 64; k++) if (pool[k] == e) return k; return 99; }
static const int PH[] = {0, 1, 999000, 998000, 500000, 999999, 970000};
static const int TO[] = {0, 1, 2, 5, 30, 1000, 2500, (int)2200000000u, (int)4294967295u, 2100000000};
static int timedonly;
static int rto() { return TO[vs_prand(timedonly && vs_prand(4) == 0 ? 10 : 7)]; }
static POp mk(int k, int a = 0, int b = 0) { POp o = {k, a, b, 0}; return o; }
// ---------------------------------------------------------------- InterthreadQueueWithWait
typedef InterthreadQueueWithWait<Elem> WQ;
static void runww(void *v, const PThread &p) {
	WQ &q = *(WQ *)v; Elem *e;
	for (size_t i = 0; i < p.size(); i++) { int a = p[i].a; switch (p[i].k) {
		case 0: CALL("write", "%d", a); q.write(pool[a]); RET("%s", ""); break;
		case 1: CALL("read", "%s", ""); e = q.read(); RET("%d", e ? e->id : 0); break;
		case 2: CALL("readt", "%d", clipms(a)); e = q.read((unsigned)a); RET("%d", e ? e->id : 0); break;
		case 3: CALL("readnb", "%s", ""); e = q.readNoBlock(); RET("%d", e ? e->id : 0); break;
		case 4: CALL("size", "%s", ""); RET("%d", (int)q.size()); break;
		case 5: CALL("clear", "%s", ""); q.clear(); RET("%s", ""); break;
		case 6: CALL("waitlow", "%d", a); if (a) q.wait((size_t)a); else q.wait(); RET("%s", ""); break;
	} }
}
static void s_ww(int prog) {
	vs_start_clock(PH[vs_prand(7)]);
	int nt = 2 + vs_prand(4), id = 1; Prog P(nt); static const int w1[] = {7, 5, 2, 4, 1, 1, 5}, w2[] = {6, 2, 6, 1, 0, 1, 4}; const int *w = prog % 3 && !timedonly ? w1 : w2;
	for (int t = 0; t < nt; t++) { int n = 1 + vs_prand(nt == 2 ? 4 : 3); for (int i = 0; i < n; i++) { int k = pick(w, 7); P[t].push_back(mk(k, k == 0 ? id++ : k == 2 ? rto() : (int)vs_prand(4))); } }
	for (int i = 1; i < 40; i++) pool[i] = new Elem(i);
	WQ *q = new WQ;
	int pre = vs_prand(4); for (int i = 0; i < pre; i++) { CALL("write", "%d", id); q->write(pool[id]); RET("%s", ""); id++; }
	run_prog(P, runww, q);
	CALL("size", "%s", ""); RET("%d", (int)q->size());
	CALL("destroy", "%s", ""); delete q; RET("%s", "");
}
// ---------------------------------------------------------------- InterthreadMap
typedef InterthreadMap<int, Elem> IM; typedef InterthreadMap1<int, int> IM1;
static void runim(void *v, const PThread &p) {
	IM &m = *(IM *)v; Elem *e; bool r;
	for (size_t i = 0; i < p.size(); i++) { int k = p[i].a, b = p[i].b; e = 0; switch (p[i].k) {
		case 0: CALL("write", "%d,%d", k, b); m.write(k, pool[b]); RET("%s", ""); break;
		case 1: CALL("getnb", "%d", k); r = m.getNoBlock(k, e); RET("%d,%d", (int)r, r ? find(e) : 0); break;
		case 2: CALL("peeknb", "%d", k); r = m.getNoBlock(k, e, false); RET("%d,%d", (int)r, r ? find(e) : 0); break;
		case 3: CALL("gett", "%d,%d", k, clipms(b)); r = m.get(k, e, (unsigned)b); RET("%d,%d", (int)r, r ? find(e) : 0); break;
		case 4: CALL("get", "%d", k); r = m.get(k, e); RET("%d,%d", (int)r, r ? find(e) : 0); break;
		case 5: CALL("remove", "%d", k); r = m.remove(k); RET("%d", (int)r); break;
		case 6: CALL("readnb", "%d", k); e = m.readNoBlock(k); RET("%d", find(e)); break;
		case 7: CALL("readt", "%d,%d", k, clipms(b)); e = m.read(k, (unsigned)b); RET("%d", find(e)); break;
		case 8: CALL("read", "%d", k); e = m.read(k); RET("%d", find(e)); break;
		case 9: CALL("size", "%s", ""); RET("%d", (int)m.size()); break;
		case 10: { CALL("iter", "%s", ""); std::string s; m.qGetLock().lock(); for (IM::iterator it = m.begin(); it != m.end(); ++it) { char c[32]; sprintf(c, "%s%d,%d", s.size() ? "," : "", it->first, it->second->id); s += c; } m.qGetLock().unlock(); RET("%s", s.c_str()); } break;
		case 11: CALL("peekt", "%d,%d", k, clipms(b)); r = m.get(k, e, (unsigned)b, false); RET("%d,%d", (int)r, r ? find(e) : 0); break;
		case 12: CALL("peek", "%d", k); r = m.get(k, e, false); RET("%d,%d", (int)r, r ? find(e) : 0); break;
	} }
}
static void runim1(void *v, const PThread &p) {	// values are plain integers: nothing is deleted
	IM1 &m = *(IM1 *)v; int e; bool r;
	for (size_t i = 0; i < p.size(); i++) { int k = p[i].a, b = p[i].b; e = 0; switch (p[i].k) {
		case 0: CALL("write", "%d,%d", k, b); m.write(k, b); RET("%s", ""); break;
		case 1: CALL("getnb", "%d", k); r = m.getNoBlock(k, e); RET("%d,%d", (int)r, r ? e : 0); break;
		case 2: CALL("peeknb", "%d", k); r = m.getNoBlock(k, e, false); RET("%d,%d", (int)r, r ? e : 0); break;
		case 3: CALL("gett", "%d,%d", k, clipms(b)); r = m.get(k, e, (unsigned)b); RET("%d,%d", (int)r, r ? e : 0); break;
		case 4: CALL("get", "%d", k); r = m.get(k, e); RET("%d,%d", (int)r, r ? e : 0); break;
		case 5: CALL("remove", "%d", k); r = m.remove(k); RET("%d", (int)r); break;
		case 6: CALL("readnb", "%d", k); e = m.readNoBlock(k); RET("%d", e); break;
		case 7: CALL("readt", "%d,%d", k, clipms(b)); e = m.read(k, (unsigned)b); RET("%d", e); break;
		case 8: CALL("read", "%d", k); e = m.read(k); RET("%d", e); break;
		case 9: CALL("size", "%s", ""); RET("%d", (int)m.size()); break;
		case 10: { CALL("iter", "%s", ""); std::string s; m.qGetLock().lock(); for (IM1::iterator it = m.begin(); it != m.end(); ++it) { char c[32]; sprintf(c, "%s%d,%d", s.size() ? "," : "", it->first, it->second); s += c; } m.qGetLock().unlock(); RET("%s", s.c_str()); } break;
		case 11: CALL("peekt", "%d,%d", k, clipms(b)); r = m.get(k, e, (unsigned)b, false); RET("%d,%d", (int)r, r ? e : 0); break;
		case 12: CALL("peek", "%d", k); r = m.get(k, e, false); RET("%d,%d", (int)r, r ? e : 0); break;
	} }
}
static void s_map(int prog) {
	vs_start_clock(PH[vs_prand(7)]);
	int nt = 2 + vs_prand(3), id = 1, nk = 1 + vs_prand(3); Prog P(nt); static const int w1[] = {9, 2, 1, 1, 4, 2, 1, 1, 4, 1, 1, 1, 1}, w2[] = {6, 1, 1, 6, 1, 1, 1, 6, 0, 0, 0, 3, 0}; const int *w = prog % 3 && !timedonly ? w1 : w2;
	for (int t = 0; t < nt; t++) { int n = 1 + vs_prand(nt == 2 ? 4 : 3); for (int i = 0; i < n; i++) { int k = pick(w, 13); P[t].push_back(mk(k, vs_prand(nk), k == 0 ? id++ : rto())); } }
	int ints = prog % 4 == 3; ev_init(ints ? "1" : "0");
	if (ints) { IM1 *m = new IM1; run_prog(P, runim1, m); PThread f; f.push_back(mk(9)); f.push_back(mk(10)); runim1(m, f); CALL("destroy", "%s", ""); delete m; RET("%s", ""); return; }
	for (int i = 1; i < 40; i++) pool[i] = new Elem(i);
	IM *m = new IM; run_prog(P, runim, m); PThread f; f.push_back(mk(9)); f.push_back(mk(10)); runim(m, f);
	CALL("destroy", "%s", ""); delete m; RET("%s", "");
}
// ---------------------------------------------------------------- InterthreadPriorityQueue
typedef InterthreadPriorityQueue<Elem> PQ;
struct Rev { bool operator()(const Elem *a, const Elem *b) { return a->pr < b->pr; } };
typedef InterthreadPriorityQueue<Elem, std::deque<Elem *>, Rev> PQR;
template <class Q> static void runpq(void *v, const PThread &p) {
	Q &q = *(Q *)v; Elem *e;
	for (size_t i = 0; i < p.size(); i++) { int a = p[i].a; switch (p[i].k) {
		case 0: CALL("write", "%d,%d", a, p[i].b); q.write(pool[a]); RET("%s", ""); break;
		case 1: CALL("read", "%s", ""); e = q.read(); RET("%d", e ? e->id : 0); break;
		case 2: CALL("readt", "%d", clipms(a)); e = q.read((unsigned)a); RET("%d", e ? e->id : 0); break;
		case 3: CALL("readnb", "%s", ""); e = q.readNoBlock(); RET("%d", e ? e->id : 0); break;
		case 4: CALL("size", "%s", ""); RET("%d", (int)q.size()); break;
		case 5: CALL("clear", "%s", ""); q.clear(); RET("%s", ""); break;
		case 6: CALL("front", "%s", ""); e = q.peek(); RET("%d", find(e)); break;
	} }
}
template <class Q> static void gopq(Prog &P, int rev, int pre, int *pr, int id) {
	ev_init(rev ? "1" : "0");
	Q *q = new Q; for (int i = 0; i < pre; i++) { CALL("write", "%d,%d", id, pr[id]); q->write(pool[id]); RET("%s", ""); id++; }
	run_prog(P, runpq<Q>, q);
	CALL("size", "%s", ""); RET("%d", (int)q->size());
	if (vs_prand(2)) while (q->size()) { CALL("readnb", "%s", ""); Elem *e = q->readNoBlock(); RET("%d", e ? e->id : 0); if (!e) break; }
	CALL("destroy", "%s", ""); delete q; RET("%s", "");
}
static void s_prio(int prog) {
	vs_start_clock(PH[vs_prand(7)]);
	int nt = 2 + vs_prand(3), id = 1; Prog P(nt); static int pr[64]; static const int w1[] = {8, 5, 2, 3, 1, 1, 2}, w2[] = {6, 1, 7, 1, 0, 1, 0}; const int *w = prog % 3 && !timedonly ? w1 : w2;
	for (int t = 0; t < nt; t++) { int n = 1 + vs_prand(nt == 2 ? 5 : 3); for (int i = 0; i < n; i++) { int k = pick(w, 7), a = rto(), b = 0; if (k == 0) { a = id++; pr[a] = b = vs_prand(5); } P[t].push_back(mk(k, a, b)); } }
	int pre = vs_prand(4); for (int i = id; i < id + pre; i++) pr[i] = vs_prand(5);
	for (int i = 1; i < 40; i++) pool[i] = new Elem(i, pr[i]);
	if (prog % 2) gopq<PQ>(P, 0, pre, pr, id); else gopq<PQR>(P, 1, pre, pr, id);
}
// ---------------------------------------------------------------- two or three connected queues
typedef InterthreadQueue<Elem> Q; struct QQ { Q *q[3]; int n; };
static void runqq(void *v, const PThread &p) {
	QQ &z = *(QQ *)v; Elem *e; int n = z.n;
	for (size_t i = 0; i < p.size(); i++) { int a = p[i].a % n, b = p[i].b, o = (a + 1 + p[i].c % (n - 1)) % n; Q &q = *z.q[a]; switch (p[i].k) {
		case 0: CALL("write", "%d,%d", a, b); q.write(pool[b]); RET("%s", ""); break;
		case 1: CALL("writef", "%d,%d", a, b); q.write_front(pool[b]); RET("%s", ""); break;
		case 2: CALL("read", "%d", a); e = q.read(); RET("%d", e ? e->id : 0); break;
		case 3: CALL("readt", "%d,%d", a, clipms(b)); e = q.read((unsigned)b); RET("%d", e ? e->id : 0); break;
		case 4: CALL("readnb", "%d", a); e = q.readNoBlock(); RET("%d", e ? e->id : 0); break;
		case 5: CALL("size", "%d", a); RET("%d", (int)q.size()); break;
		case 6: CALL("either", "%d,%d,%d", a, o, clipms(b)); q.iqWaitForEither(*z.q[o], (unsigned)b); RET("%s", ""); break;
		case 7: case 8: { // iterate all the queues under the lock handed out by one of them
			CALL("iter2", "%s", ""); std::string s; char c[16]; q.qGetLock().lock();
			for (int pass = 0; pass < n; pass++) { Q &r = *z.q[pass]; for (Q::iterator it = r.begin(); it != r.end(); ++it) { sprintf(c, "%s%d", s.size() ? "," : "", (*it)->id); s += c; } sprintf(c, "%s%d", s.size() ? "," : "", -1 - pass); s += c; vs_yield(); }
			q.qGetLock().unlock(); RET("%s", s.c_str()); } break;
		case 9: CALL("flush", "%d", a); q.flushNoDelete(); RET("%s", ""); break;
		case 10: CALL("clear", "%d", a); q.clear(); RET("%s", ""); break;
		case 11: CALL("front", "%d", a); e = q.front(); RET("%d", find(e)); break;
	} }
}
static void s_conn(int prog) {
	vs_start_clock(PH[vs_prand(7)]);
	// one thread does all the blocking (documented use: a single thread waits on either queue)
	int nt = 2 + vs_prand(3), id = 1, n = prog % 2 ? 3 : 2; Prog P(nt); static const int wb0[] = {1, 0, 2, 2, 2, 1, 8, 1, 1, 0, 0, 0}, wb1[] = {1, 0, 0, 6, 2, 0, 6, 0, 0, 0, 0, 0}, *wb = timedonly ? wb1 : wb0, wn[] = {8, 2, 0, 0, 3, 1, 0, 2, 2, 1, 1, 1};
	char ib[4]; sprintf(ib, "%d", n); ev_init(ib);
	for (int t = 0; t < nt; t++) { int m = 1 + vs_prand(nt == 2 ? 5 : 3); for (int i = 0; i < m; i++) { int k = pick(t == 0 ? wb : wn, 12), b = k <= 1 ? id++ : k == 6 ? (prog / 2 % 2 || timedonly ? rto() : 0) : rto(); POp o = mk(k, vs_prand(6), b); o.c = vs_prand(2); P[t].push_back(o); } }
	for (int i = 1; i < 40; i++) pool[i] = new Elem(i);
	QQ z; z.n = n; for (int i = 0; i < 3; i++) z.q[i] = i < n ? new Q : 0;
	// every connection is made to a queue that is already connected, so that all share one lock and one signal;
	// the queue connected to goes last when they are destroyed
	int del[3] = {0, 1, 2}, way = vs_prand(2);
	if (n == 2) { z.q[way]->iqConnect(*z.q[1 - way]); del[0] = way; del[1] = 1 - way; }
	else { int r = vs_prand(3), x = (r + 1) % 3, y = (r + 2) % 3; z.q[x]->iqConnect(*z.q[r]); z.q[y]->iqConnect(*z.q[way ? x : r]); del[0] = y; del[1] = x; del[2] = r; }
	run_prog(P, runqq, &z);
	for (int a = 0; a < n; a++) { CALL("size", "%d", a); RET("%d", (int)z.q[a]->size()); CALL("clear", "%d", a); z.q[a]->clear(); RET("%s", ""); }
	for (int a = 0; a < n; a++) delete z.q[del[a]];
}
// ---------------------------------------------------------------- reference counts
struct Obj : public RefCntBase { int id; Obj(int i) : id(i) {} ~Obj() { DELETED(id); id = -1; } };
typedef RefCntPointer<Obj> RP;
enum { NS = 3 };
struct RCtx { RP glob[2]; Mutex gl; };
// Slots: each thread has NS private pointers; two global ones are used under a lock of the driver's own.
static int idof(const RP &p) { return p.self() ? p.self()->id : 0; }
static int rdel[64];
static void runref(void *v, const PThread &p) {
	RCtx &c = *(RCtx *)v; RP s[NS];
	int t = vs_self();
	for (size_t i = 0; i < p.size(); i++) { int a = p[i].a, b = p[i].b; switch (p[i].k) {
		case 0: CALL("new", "%d,%d", a, b); s[a] = new Obj(b); RET("%d", idof(s[a])); break;				// assign from a raw pointer
		case 1: CALL("copy", "%d,%d", a, b); s[a] = s[b]; RET("%d", idof(s[a])); break;					// including self assignment
		case 2: CALL("free", "%d", a); s[a].free(); RET("%d", idof(s[a])); break;
		case 3: CALL("copy", "%d,%d", a, b); s[a] = s[b].self(); RET("%d", idof(s[a])); break;			// raw pointer of a managed object
		case 4: CALL("null", "%d", a); s[a] = (Obj *)0; RET("%d", idof(s[a])); break;
		case 5: { CALL("dup", "%d", a); { RP x(s[a]); RP y(x); const RP &z = y; RP w(z); RET("%d,%d,%d", idof(w), (int)(w == s[a] && !(w != x)), s[a].self() ? s[a]->getRefCnt() : 0); CALL("enddup", "%d", a); } RET("%s", ""); } break;
		case 6: if (s[a].self()) { CALL("count", "%d", a); RET("%d", s[a]->getRefCnt()); } break;
		case 7: { c.gl.lock(); CALL("pub", "%d,%d", b & 1, a); c.glob[b & 1] = s[a]; RET("%s", ""); c.gl.unlock(); } break;
		case 8: { c.gl.lock(); CALL("take", "%d,%d", a, b & 1); s[a] = c.glob[b & 1]; RET("%d", idof(s[a])); c.gl.unlock(); } break;
		case 9: CALL("use", "%d", a); RET("%d,%d", idof(s[a]), (int)s[a].isNULL()); break;
		case 10: { c.gl.lock(); CALL("gnull", "%d", b & 1); if (a & 1) c.glob[b & 1].free(); else c.glob[b & 1] = (Obj *)0; RET("%s", ""); c.gl.unlock(); } break;
		case 11: { int n = b; CALL("many", "%d,%d", a, n); int k, l; { std::vector<RP> m; m.reserve(n); for (int j = 0; j < n; j++) m.push_back(s[a]); k = s[a].self() ? s[a]->getRefCnt() : 0; } l = s[a].self() ? s[a]->getRefCnt() : 0; RET("%d,%d", k, l); } break;
	} }
	CALL("exit", "%d", t);
	for (int a = 0; a < NS; a++) s[a].~RP();
	for (int a = 0; a < NS; a++) new (&s[a]) RP();
	RET("%s", "");
}
static void s_ref(int prog) {
	int nt = prog % 4 == 0 ? 1 : 2 + vs_prand(2), id = 1; Prog P(nt); static const int w[] = {5, 4, 2, 2, 1, 2, 3, 5, 6, 2, 3}; char ib[8]; sprintf(ib, "%d", nt); ev_init(ib); int give = nt > 1 && vs_prand(2);
	for (int t = 0; t < nt; t++) { int n = 2 + vs_prand(nt == 1 ? 12 : 5); if (give) { n = vs_prand(3); int sl = vs_prand(NS); P[t].push_back(mk(8, sl, 0)); if (vs_prand(3)) { n = 0; P[t].push_back(mk(vs_prand(3) ? 2 : 4, sl, 0)); } if (t == 0) P[t].push_back(mk(10, vs_prand(2), 0)); }
		if (nt == 1 && vs_prand(3) == 0) P[t].push_back(mk(0, 0, id++)), P[t].push_back(mk(11, vs_prand(2), vs_prand(4) ? vs_prand(300) : 125 + vs_prand(10)));
		for (int i = 0; i < n; i++) { int k = pick(w, 11); P[t].push_back(mk(k, vs_prand(NS), k == 0 ? id++ : (int)vs_prand(NS))); } }
	RCtx *c = new RCtx;
	if (give) { CALL("gnew", "0,%d", id); c->glob[0] = new Obj(id); RET("%s", ""); }		// every thread takes it: they race to drop the last pointer
	run_prog(P, runref, c);
	CALL("exitg", "%s", ""); delete c; RET("%s", "");
}
#define TIMED(n) static void n##t(int prog) { timedonly = 1; n(prog); }
TIMED(s_ww) TIMED(s_map) TIMED(s_prio) TIMED(s_conn)
static const VsScenario SC[] = {{"wwait", s_ww}, {"map", s_map}, {"prio", s_prio}, {"conn", s_conn}, {"refcnt", s_ref}, {"wwaitt", s_wwt}, {"mapt", s_mapt}, {"priot", s_priot}, {"connt", s_connt}};
int main(int c, char **v) { return vs_main(c, v, SC, 9); }
