// C41: ownership and aliasing of Vector, BitVector, SoftVector.
#include <stdlib.h>
#include <new>
#include <map>
static long live_arrays; static bool track; static struct { char *p; size_t n; bool live; } blk[4096]; static int nblk;
void *operator new[](size_t n) { char *p = (char *)malloc(n ? n : 1); if (track) { live_arrays++; if (nblk < 4096) { blk[nblk].p = p; blk[nblk].n = n; blk[nblk].live = true; nblk++; } } return p; }
static void arr_free(void *p) { if (!p) return; for (int i = nblk - 1; i >= 0; i--) if (blk[i].p == p && blk[i].live) { blk[i].live = false; live_arrays--; break; } free(p); }
void operator delete[](void *p) noexcept { arr_free(p); }
void operator delete[](void *p, size_t) noexcept { arr_free(p); }
#include "seq.h"
#include "BitVector.h"
template <class V, class T, int C> struct Run {
	V *s[5]; T ext[16];
	static bool inLive(const void *a, const void *b) { for (int i = 0; i < nblk; i++) if (blk[i].live && (char *)a >= blk[i].p && (char *)b <= blk[i].p + blk[i].n) return true; return false; }
	bool dang(int i) { if (!s[i]->size()) return false; const T *a = ((const V *)s[i])->begin(), *b = ((const V *)s[i])->end(); if (a >= ext && b <= ext + 16) return false; return !inLive(a, b); }
	bool ok(int i) { return s[i] && !dang(i); }
	void snap() { Arr r; for (int i = 0; i < 5; i++) { Arr e; if (!s[i]) e.i(0); else if (dang(i)) e.i(1).i(s[i]->isOwner()).i(s[i]->size()); else { e.i(2).i(s[i]->isOwner()); size_t n = s[i]->size(); const V &c = *s[i];
				if (s[i]->bytes() != n * sizeof(T)) e.i(-1); if ((size_t)(c.end() - c.begin()) != n) e.i(-2);
				for (size_t k = 0; k < n; k++) { T x = k % 2 ? c[k] : c.begin()[k]; e.i((int)x); } } r.sub(e); } r.i(live_arrays); R(r); }
	void ramp(V *v, int v0) { for (size_t k = 0; k < v->size(); k++) (*v)[k] = (T)((v0 + (int)k) % 100); }
	V *own3(int n, int off, int len, int v0) { T *d = new T[n]; for (int k = 0; k < n; k++) d[k] = (T)((v0 + k) % 100); return new V(d, d + off, d + off + len); }
	V *mkext(int off, int n);
	V *mkseg(V *j, int st, int sp, bool &c);
	int pick(bool need) { for (int k = 0; k < 20; k++) { int i = rn(5); if (s[i] && (!need || ok(i))) return i; } return -1; }
	int freeslot() { int a = rn(5); for (int k = 0; k < 5; k++) if (!s[(a + k) % 5]) return (a + k) % 5; return -1; }
	bool overlap(const T *a, size_t n, const T *b, size_t m) { return a < b + m && b < a + n; }
	void go() {
		track = true; live_arrays = 0; nblk = 0; for (int i = 0; i < 5; i++) s[i] = 0; for (int i = 0; i < 16; i++) ext[i] = (T)(i + 1);
		OP("class", Arr().i(C)); snap();
		int steps = 6 + rn(20);
		for (int q = 0; q < steps; q++) {
			int f = freeslot(), o = rn(22), v = rn(100); int i = pick(false), j = pick(true), k = pick(true); if (k < 0) k = j;
			if (f >= 0 && (o <= 8 || i < 0)) {
				if (o >= 3 && j < 0) o = rn(3);
				switch (o > 8 ? 0 : o) {
				case 0: { int n = rn(9); OP("new", Arr().i(f + 1).i(n).i(v)); s[f] = new V((size_t)n); ramp(s[f], v); snap(); break; }
				case 1: { int off = rn(9), n = rn(8); OP("ext", Arr().i(f + 1).i(off).i(n)); s[f] = mkext(off, n); snap(); break; }
				case 2: { int n = 1 + rn(8), off = rn(n), len = 1 + rn(n - off); OP("own3", Arr().i(f + 1).i(n).i(off).i(len).i(v)); s[f] = own3(n, off, len, v); snap(); break; }
				case 3: OP("copyc", Arr().i(f + 1).i(j + 1)); s[f] = new V(*(const V *)s[j]); snap(); break;
				case 4: OP("copyn", Arr().i(f + 1).i(j + 1)); s[f] = new V(*s[j]); snap(); break;
				case 5: case 6: { int n = s[j]->size(), st = rn(n + 1), sp = rn(n - st + 1); bool c; if (rn(3) == 0) st = 0; if (rn(3) == 0) sp = n - st; OP("seg", Arr().i(f + 1).i(j + 1).i(st).i(sp)); s[f] = mkseg(s[j], st, sp, c); snap(); break; }
				case 7: { if (C == 2) { int n = s[j]->size(), st = rn(n + 1), sp = rn(n - st + 1); OP("clseg", Arr().i(f + 1).i(j + 1).i(st).i(sp)); s[f] = clseg(s[j], st, sp); snap(); break; } }	// fall through
				case 8: if (C != 3) { OP("cat", Arr().i(f + 1).i(j + 1).i(k + 1)); s[f] = cat(s[j], s[k]); snap(); } break;
				}
				continue;
			}
			if (i < 0) continue;
			size_t ni = s[i]->size();
			switch (o) {
			case 9: if (j >= 0) { OP("asgc", Arr().i(i + 1).i(j + 1)); *s[i] = *(const V *)s[j]; snap(); } break;
			case 10: case 11: if (j >= 0) { OP("asgn", Arr().i(i + 1).i(j + 1)); *s[i] = *s[j]; snap(); } break;
			case 12: if (j >= 0) { int n = s[j]->size(), st = rn(n + 1), sp = rn(n - st + 1); OP("asgseg", Arr().i(i + 1).i(j + 1).i(st).i(sp)); *s[i] = s[j]->segment(st, sp); snap(); } break;
			case 13: if (j >= 0) { OP("vcat", Arr().i(i + 1).i(j + 1).i(k + 1)); s[i]->vConcat(*s[j], *s[k]); snap(); } break;
			case 14: if (j >= 0) { OP("clone", Arr().i(i + 1).i(j + 1)); s[i]->clone(*s[j]); snap(); } break;
			case 15: { int n = rn(9); OP("resize", Arr().i(i + 1).i(n).i(v)); s[i]->resize(n); ramp(s[i], v); snap(); break; }
			case 16: OP("clear", Arr().i(i + 1)); s[i]->clear(); snap(); break;
			case 17: if (ok(i)) { OP("fill", Arr().i(i + 1).i(v)); s[i]->fill((T)v); snap(); } break;
			case 18: if (ok(i)) { int st = rn(ni + 1), sp = rn(ni - st + 1); OP("fillr", Arr().i(i + 1).i(v).i(st).i(sp)); s[i]->fill((T)v, st, sp); snap(); } break;
			case 19: if (ok(i) && ni) { int at = rn(ni); OP("set", Arr().i(i + 1).i(at).i(v)); if (rn(2)) (*s[i])[at] = (T)v; else s[i]->begin()[at] = (T)v; snap(); } break;
			case 20: if (j >= 0 && ok(i)) { bool cts = rn(2); size_t nj = s[j]->size(); size_t st, sp; // from i into j
					if (cts) { st = rn(nj + 1); sp = rn(std::min(ni, nj - st) + 1); if (rn(3) == 0 && ni <= nj) { st = 0; sp = ni; } if (overlap(s[i]->begin(), sp, s[j]->begin() + st, sp)) break; OP("cts", Arr().i(i + 1).i(j + 1).i(st).i(sp));
						if (sp == ni && st == 0 && rn(2)) s[i]->copyTo(*s[j]); else if (sp == ni && rn(2)) s[i]->copyToSegment(*s[j], st); else s[i]->copyToSegment(*s[j], st, sp); }
					else { st = rn(ni + 1); sp = rn(std::min(nj, ni - st) + 1); if (overlap(s[i]->begin() + st, sp, s[j]->begin(), sp)) break; OP("sct", Arr().i(i + 1).i(j + 1).i(st).i(sp)); s[i]->segmentCopyTo(*s[j], st, sp); }
					snap(); } break;
			case 21: OP("del", Arr().i(i + 1)); delete s[i]; s[i] = 0; snap(); break;
			}
		}
		for (int i = 0; i < 5; i++) if (s[i]) { OP("del", Arr().i(i + 1)); delete s[i]; s[i] = 0; snap(); }
		track = false;
	}
	// a history generated by TLC
	void play(const std::vector<Cmd> &h) {
		track = true; live_arrays = 0; nblk = 0; for (int i = 0; i < 5; i++) s[i] = 0; for (int i = 0; i < 16; i++) ext[i] = (T)(i + 1);
		OP("class", Arr().i(C)); snap();
		for (const Cmd &m : h) {
			Arr q; for (int x : m.a) q.i(x); OP(m.op.c_str(), q); const std::string &o = m.op; int x[5] = {0, 0, 0, 0, 0}; for (size_t k = 0; k < m.a.size(); k++) x[k] = m.a[k];
			V *&d = s[x[0] - 1], *j = x[1] >= 1 && x[1] <= 5 ? s[x[1] - 1] : 0, *k = x[2] >= 1 && x[2] <= 5 ? s[x[2] - 1] : 0; bool c;
			if (o == "new") { d = new V((size_t)x[1]); ramp(d, x[2]); } else if (o == "ext") d = mkext(x[1], x[2]); else if (o == "own3") d = own3(x[1], x[2], x[3], x[4]);
			else if (o == "copyc") d = new V(*(const V *)j); else if (o == "copyn") d = new V(*j); else if (o == "seg") d = mkseg(j, x[2], x[3], c); else if (o == "clseg") d = clseg(j, x[2], x[3]); else if (o == "cat") d = cat(j, k);
			else if (o == "asgc") *d = *(const V *)j; else if (o == "asgn") *d = *j; else if (o == "asgseg") *d = j->segment(x[2], x[3]); else if (o == "vcat") d->vConcat(*j, *k); else if (o == "clone") d->clone(*j);
			else if (o == "resize") { d->resize(x[1]); ramp(d, x[2]); } else if (o == "clear") d->clear(); else if (o == "fill") d->fill((T)x[1]); else if (o == "set") (*d)[x[1]] = (T)x[2];
			else if (o == "cts") { if (x[3] == (int)d->size() && x[2] == 0 && rn(2)) d->copyTo(*j); else if (x[3] == (int)d->size() && rn(2)) d->copyToSegment(*j, x[2]); else d->copyToSegment(*j, x[2], x[3]); } else if (o == "sct") d->segmentCopyTo(*j, x[2], x[3]);
			else if (o == "del") { delete d; d = 0; } else abort();
			snap();
		}
		for (int i = 0; i < 5; i++) if (s[i]) { OP("del", Arr().i(i + 1)); delete s[i]; s[i] = 0; snap(); }
		track = false;
	}
	V *clseg(V *, int, int); V *cat(V *, V *);
};
typedef Run<Vector<int>, int, 1> RV; typedef Run<BitVector, char, 2> RB; typedef Run<SoftVector, float, 3> RS;
template <> Vector<int> *RV::mkext(int o, int n) { return rn(2) ? new Vector<int>(ext + o, (size_t)n) : new Vector<int>(NULL, ext + o, ext + o + n); }
template <> BitVector *RB::mkext(int o, int n) { return new BitVector(NULL, ext + o, ext + o + n); }
template <> SoftVector *RS::mkext(int o, int n) { if (rn(2)) return new SoftVector(ext + o, (unsigned)n); return new SoftVector(NULL, ext + o, ext + o + n); }
template <class V> static V *segs(V *j, int st, int sp) { const V &c = *j; size_t n = j->size(); if (st == 0 && rn(2)) return rn(2) ? new V(j->head(sp)) : new V(c.head(sp)); if (st + sp == (int)n && rn(2)) return rn(2) ? new V(j->tail(st)) : new V(c.tail(st)); return rn(2) ? new V(j->segment(st, sp)) : new V(c.segment(st, sp)); }
template <> Vector<int> *RV::mkseg(Vector<int> *j, int st, int sp, bool &) { return segs(j, st, sp); }
template <> SoftVector *RS::mkseg(SoftVector *j, int st, int sp, bool &) { if (st == 0 && sp == (int)j->size() && rn(2)) return new SoftVector(j->alias()); return segs(j, st, sp); }
template <> BitVector *RB::mkseg(BitVector *j, int st, int sp, bool &) { if (rn(4) == 0) { BitVector *b = new BitVector; if (rn(2)) b->dup(j->segment(st, sp)); else { BitVector t(j->segment(st, sp)); static_cast<void (BitVector::*)(BitVector &)>(&BitVector::dup); (b->*static_cast<void (BitVector::*)(BitVector &)>(&BitVector::dup))(t); } return b; }
	if (st == 0 && sp == (int)j->size() && rn(2)) return new BitVector(j->alias()); if (st == 0 && rn(2)) return new BitVector(j->head(sp)); if (st + sp == (int)j->size() && rn(2)) return new BitVector(j->tail(st)); return new BitVector(j->segment(st, sp)); }
template <> BitVector *RB::clseg(BitVector *j, int st, int sp) { return new BitVector(j->cloneSegment(st, sp)); }
template <class V, class T, int C> V *Run<V, T, C>::clseg(V *, int, int) { return 0; }
template <> Vector<int> *RV::cat(Vector<int> *a, Vector<int> *b) { return new Vector<int>(*a, *b); }
template <> BitVector *RB::cat(BitVector *a, BitVector *b) { return new BitVector(*a, *b); }
template <class V, class T, int C> V *Run<V, T, C>::cat(V *, V *) { return 0; }
static void vec(long) { static RV r; r.go(); }
static void bitv(long) { static RB r; r.go(); }
static void soft(long) { static RS r; r.go(); }
static void vec_tlc(long i) { static RV r; r.play(script(i)); }
static void bitv_tlc(long i) { static RB r; r.play(script(i)); }
static void soft_tlc(long i) { static RS r; r.play(script(i)); }
int main(int argc, char **argv) { SeqScenario sc[] = {{"vec", vec, 0}, {"bitv", bitv, 0}, {"soft", soft, 0}, {"vec_tlc", vec_tlc, -1}, {"bitv_tlc", bitv_tlc, -1}, {"soft_tlc", soft_tlc, -1}}; return seq_main(argc, argv, sc, 6); }
