// C40: PointerFIFO, PtrList, SingleLinkList
#include "Interthread.h"
#include "LinkedLists.h"
#include "Configuration.h"
ConfigurationTable gConfig;
#define SEQ_COUNT_NEW
#include "seq.h"
struct Node : public SingleLinkListNode { int id; unsigned sz; unsigned size() { return sz; } };
static Node pool[512]; static int nxt;
static Node *fresh() { Node *n = &pool[nxt]; n->id = ++nxt; n->sz = (n->id * 7) % 11 + n->id % 3 * 1000; n->mNext = (SingleLinkListNode *)0x10; return n; }
static int id(void *p) { return p ? ((Node *)p)->id : 0; }
static int nid(Node *p) { return p ? p->id : 0; }
// many elements at once: all that was there, then all of these in order, and the counts on the way
static Node big[70000];
template <class Put, class Get, class Size> static void grow(Put put, Get get, Size size) {
	if (rn(12)) return;
	int n = rn(4) ? 1 + rn(700) : 65536 - 40 + (int)rn(80), s0 = size(), ok = 0; Node *p; OP("grow", Arr().i(n)); Arr a;
	for (int i = 0; i < n; i++) { big[i].id = 1000000 + i; big[i].sz = 0; put(&big[i]); }
	int s1 = size(); for (int i = 0; i < s0; i++) a.i(nid(get())); for (int i = 0; i < n; i++) if ((p = get()) == &big[i]) ok++;
	int s2 = size(); p = get(); R(Arr().i(s1).sub(a).i(ok).i(s2).i(p ? 1 : 0));
}
// 0 put 1 push_front 2 get 3 front 4 size / ptrlist: 0 push_back 1 push_front 2 pop_front 3 pop_back 4 size
template <class F> static void drive(long h, int nops, long enumlen, F step) {
	if (enumlen) { long x = h; for (int i = 0; i < enumlen; i++) { step((int)(x % nops)); x /= nops; } }
	else { int n = 5 + rn(120), bias = rn(3); for (int i = 0; i < n; i++) step(bias == 0 ? rn(nops) : bias == 1 ? (rn(2) ? 2 : rn(nops)) : (rn(2) ? rn(2) : rn(nops))); }
}
static void pf(long h, int en) {
	nxt = 0; PointerFIFO q;
	drive(h, 5, en, [&](int k) { switch (k) {
		case 0: { Node *n = fresh(); OP("pb", Arr().i(n->id)); q.put(n); R(); } break;
		case 1: { Node *n = fresh(); OP("pf", Arr().i(n->id)); q.push_front(n); R(); } break;
		case 2: { OP("popf"); void *p = q.get(); R(Arr().i(id(p))); } break;
		case 3: { OP("front"); void *p = q.front(); R(Arr().i(id(p))); } break;
		case 4: { OP("size"); R(Arr().i(q.size())); } break;
	} });
	OP("size"); R(Arr().i(q.size()));
	if (!en) grow([&](Node *n) { q.put(n); }, [&]() { return (Node *)q.get(); }, [&]() { return (int)q.size(); });
	// elements that come and go do not make it grow (the result's growth is in blocks)
	if (!en || h % 16 == 0) { Node *n[4]; for (int i = 0; i < 4; i++) n[i] = fresh(); OP("cycle", Arr().i(n[0]->id).i(100)); void *had[100]; long l0 = sq_live; for (int i = 0; i < 100; i++) { q.put(n[i % 4]); had[i] = q.get(); }
		long grown = sq_live - l0; Arr a; for (int i = 0; i < 100; i++) a.i(id(had[i])); R(Arr().i(grown).sub(a)); }
	for (int i = 0; i < 600; i++) { OP("popf"); void *p = q.get(); R(Arr().i(id(p))); if (!p) break; }
}
static void pl(long h, int en) {
	nxt = 0; PtrList<Node> q;
	drive(h, 6, en, [&](int k) { Node *n; switch (k) {
		case 0: n = fresh(); OP("pb", Arr().i(n->id)); if (n->id % 2) q.put(n); else q.push_back(n); R(); break;
		case 1: n = fresh(); OP("pf", Arr().i(n->id)); q.push_front(n); R(); break;
		case 2: OP("popf"); n = (h % 2) ? q.get() : q.pop_frontr(); R(Arr().i(nid(n))); break;
		case 3: OP("popb"); n = q.pop_backr(); R(Arr().i(nid(n))); break;
		case 4: OP("size"); R(Arr().i(q.size())); break;
		case 5: { OP("all"); Arr a; for (PtrList<Node>::iter_t it = q.begin(); it != q.end(); ++it) a.i((*it)->id); R(a); } break;
	} });
	if (!en) grow([&](Node *n) { q.push_back(n); }, [&]() { return q.pop_frontr(); }, [&]() { return (int)q.size(); });
	for (int i = 0; i < 600; i++) { OP("popf"); Node *p = q.pop_frontr(); R(Arr().i(nid(p))); if (!p) break; }
}
static void sl(long h, int en) {
	nxt = 0; SingleLinkList<> q; typedef SingleLinkListNode SN;
	drive(h, 7, en, [&](int k) { Node *n; switch (k) {
		case 0: n = fresh(); OP("pbs", Arr().i(n->id).i(n->sz)); if (n->id % 2) q.put(n); else q.push_back(n); R(); break;
		case 1: n = fresh(); OP("pfs", Arr().i(n->id).i(n->sz)); q.push_front(n); R(); break;
		case 2: OP("popd"); n = (h % 2) ? (Node *)(SN *)q.get() : (Node *)q.pop_front(); R(Arr().i(nid(n)).i(n && n->next() != 0)); break;
		case 3: OP("front"); n = (Node *)q.front(); R(Arr().i(nid(n))); break;
		case 4: OP("size"); R(Arr().i(q.size())); break;
		case 5: OP("back"); n = (Node *)q.back(); R(Arr().i(nid(n))); break;
		case 6: OP("total"); R(Arr().i((int)q.totalSize())); break;
	} });
	OP("total"); R(Arr().i((int)q.totalSize()));
	if (!en) grow([&](Node *n) { n->mNext = 0; q.push_back(n); }, [&]() { return (Node *)q.pop_front(); }, [&]() { return (int)q.size(); });
	for (int i = 0; i < 600; i++) { OP("popf"); SN *p = q.pop_front(); R(Arr().i(nid((Node *)p))); if (!p) break; }
	OP("total"); R(Arr().i((int)q.totalSize())); OP("back"); R(Arr().i(nid((Node *)q.back())));
}
static void pf_e(long h) { pf(h, 6); } static void pf_r(long h) { pf(h, 0); }
static void pl_e(long h) { pl(h, 5); } static void pl_r(long h) { pl(h, 0); }
static void sl_e(long h) { sl(h, 5); } static void sl_r(long h) { sl(h, 0); }
static const SeqScenario SC[] = {{"pfifo_enum", pf_e, 15625}, {"pfifo", pf_r, 0}, {"plist_enum", pl_e, 7776}, {"plist", pl_r, 0}, {"slist_enum", sl_e, 16807}, {"slist", sl_r, 0}};
int main(int c, char **v) { return seq_main(c, v, SC, 6); }
