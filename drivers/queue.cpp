// C05: InterthreadQueue
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
#include "cc.h"
struct Elem : public SingleLinkListNode { int id; unsigned size() { return 1 << (id % 20); } Elem(int i) : id(i) {} ~Elem() { DELETED(id); id = -1; } };
typedef InterthreadQueue<Elem> QL; typedef InterthreadQueue<Elem, SingleLinkList<> > QS;
enum { WRITE, WFRONT, READ, READT, READNB, FRONT, SIZE, CLEAR, FLUSH, ITER, TOTAL, NOPS };
static Elem *pool[64];
static void iter(QL &q) { CALL("iter", "%s", ""); std::string s; q.qGetLock().lock(); for (QL::iterator it = q.begin(); it != q.end(); ++it) { char b[16]; sprintf(b, "%s%d", s.size() ? "," : "", (*it)->id); s += b; } q.qGetLock().unlock(); RET("%s", s.c_str()); }
static void iter(QS &q) {}
static void total(QL &q) {}
static void total(QS &q) { CALL("total", "%s", ""); int n = q.totalSize(); RET("%d", n); }
template <class Q> static void run(void *v, const PThread &p) {
	Q &q = *(Q *)v;
	for (size_t i = 0; i < p.size(); i++) {
		const POp &o = p[i]; Elem *e = 0;
		switch (o.k) {
		case WRITE: CALL("write", "%d", o.a); q.write(pool[o.a]); RET("%s", ""); break;
		case WFRONT: CALL("writef", "%d", o.a); q.write_front(pool[o.a]); RET("%s", ""); break;
		case READ: CALL("read", "%s", ""); e = q.read(); RET("%d", e ? e->id : 0); break;
		case READT: CALL("readt", "%d", clipms(o.a)); e = q.read((unsigned)o.a); RET("%d", e ? e->id : 0); break;
		case READNB: CALL("readnb", "%s", ""); e = q.readNoBlock(); RET("%d", e ? e->id : 0); break;
		case FRONT: CALL("front", "%s", ""); { Elem *f = q.front(); int id = 0; for (int k = 1; k < 64; k++) if (f && pool[k] == f) id = k; RET("%d", f ? id : 0); } break;
		case SIZE: CALL("size", "%s", ""); RET("%d", (int)q.size()); break;
		case CLEAR: CALL("clear", "%s", ""); q.clear(); RET("%s", ""); break;
		case FLUSH: CALL("flush", "%s", ""); q.flushNoDelete(); RET("%s", ""); break;
		case TOTAL: total(q); break;
		case ITER: iter(q); break;
		}
	}
}
static Prog gen(int prog, int timed) {
	static const int w1[] = {8, 2, 6, 3, 4, 1, 1, 1, 1, 1, 1}, w2[] = {8, 1, 8, 0, 1, 0, 0, 0, 0, 0, 1}, w3[] = {5, 1, 2, 8, 1, 0, 0, 1, 0, 0, 1};
	const int *w = timed ? w3 : (prog % 2 ? w1 : w2);
	int nt = 2 + vs_prand(3), id = 1; Prog P(nt);
	for (int t = 0; t < nt; t++) {
		int n = 1 + vs_prand(nt == 2 ? 4 : 3);
		for (int i = 0; i < n; i++) {
			POp o = {pick(w, NOPS), 0, 0, 0};
			if (o.k == WRITE || o.k == WFRONT) o.a = id++;
			if (o.k == READT) { static const int to[] = {0, 1, 2, 5, 30, 1000, 2500, (int)2200000000u, (int)4294967295u, 2100000000}; o.a = to[vs_prand(timed && vs_prand(4) == 0 ? 10 : 7)]; }
			P[t].push_back(o);
		}
	}
	return P;
}
template <class Q> static void go(int prog, int timed) {
	if (timed) { static const int ph[] = {0, 1, 999000, 998000, 500000, 999999, 970000}; vs_start_clock(ph[vs_prand(7)]); }
	Prog P = gen(prog, timed);
	for (int i = 1; i < 40; i++) pool[i] = new Elem(i);
	Q *q = new Q; run_prog(P, run<Q>, q);
	CALL("size", "%s", ""); RET("%d", (int)q->size());
	CALL("destroy", "%s", ""); delete q; RET("%s", "");
}
static void s_plain(int prog) { go<QL>(prog, 0); }
static void s_link(int prog) { go<QS>(prog, prog & 1); }
static void s_timed(int prog) { go<QL>(prog, 1); }
static const VsScenario SC[] = {{"queue", s_plain}, {"queuet", s_timed}, {"queues", s_link}};
int main(int c, char **v) { return vs_main(c, v, SC, 3); }
