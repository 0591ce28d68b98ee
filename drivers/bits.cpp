#include <math.h>
// C42 bit fields, C43 parity, C44 interleaving and soft bits: calls on random and enumerated inputs.
#include "seq.h"
#include "BitVector.h"
#include <sstream>
#include <iomanip>
typedef BitVector BV;
static Arr bv(const BV &b) { Arr a; for (size_t i = 0; i < b.size(); i++) a.i(b.begin()[i]); return a; }
static BV mk(int n) { BV b((size_t)n); int k = rn(4); for (int i = 0; i < n; i++) b[i] = k == 0 ? 0 : k == 1 ? 1 : rn(2); if (k < 2 && n) b[rn(n)] ^= 1; return b; }
// an element counts by its lowest bit: raw() sets other bits of some elements, lb() logs the bits
static void raw(BV &b) { if (rn(3) == 0) for (size_t i = 0; i < b.size(); i++) if (rn(3) == 0) b.settfb(i, b[i] | (rnd32() & 0xfe)); }
static Arr lb(const BV &b) { Arr a; for (size_t i = 0; i < b.size(); i++) a.i(b.begin()[i] & 1); return a; }
static uint64_t val() { switch (rn(5)) { case 0: return ~0ull; case 1: return 1ull << rn(64); case 2: return rn(256); default: return rnd64(); } }
static int len64() { switch (rn(6)) { case 0: return 0; case 1: return 64; case 2: return 63; case 3: return 1; case 4: return 32 + (int)rn(3) - 1; default: return rn(65); } }
static void field(int n, int at, int L, int op) {
	BV b = mk(n); uint64_t v = val(); size_t ix = at; const BV &c = b; raw(b);
	switch (op) {
	case 0: OP("fill", Arr().sub(bv(b)).i(at).w(v).i(L)); b.fillField(at, v, L); R(Arr().sub(bv(b))); break;
	case 1: OP("fillr", Arr().sub(bv(b)).i(at).w(v).i(L)); b.fillFieldReversed(at, v, L); R(Arr().sub(bv(b))); break;
	case 2: OP("write", Arr().sub(bv(b)).i(at).w(v).i(L)); b.writeField(ix, v, L); R(Arr().sub(bv(b)).i(ix)); break;
	case 3: OP("writer", Arr().sub(bv(b)).i(at).w(v).i(L)); b.writeFieldReversed(ix, v, L); R(Arr().sub(bv(b)).i(ix)); break;
	case 4: OP("peek", Arr().sub(lb(b)).i(at).i(L)); v = c.peekField(at, L); R(Arr().w(v).sub(lb(b))); break;
	case 5: OP("peekr", Arr().sub(lb(b)).i(at).i(L)); v = c.peekFieldReversed(at, L); R(Arr().w(v).sub(lb(b))); break;
	case 6: OP("read", Arr().sub(lb(b)).i(at).i(L)); v = c.readField(ix, L); R(Arr().w(v).i(ix).sub(lb(b))); break;
	case 7: OP("readr", Arr().sub(lb(b)).i(at).i(L)); v = c.readFieldReversed(ix, L); R(Arr().w(v).i(ix).sub(lb(b))); break;
	case 8: if (L == 1) { bool one = rn(2); OP("write", Arr().sub(bv(b)).i(at).w(one).i(1)); if (one) b.write1(ix); else b.write0(ix); R(Arr().sub(bv(b)).i(ix)); } break;
	}
}
static void fields(long) { for (int q = 0; q < 20; q++) { int L = len64(), at = rn(3) ? rn(20) : rn(9), n = at + L + (rn(3) ? rn(12) : 0); field(n, at, L, rn(9)); } }
// every length 0..64 with every operation, offsets 0..9
static void fields_enum(long i) { int L = i % 65, op = i / 65 % 8; for (int at = 0; at < 3; at++) for (int k = 0; k < 2; k++) field(at + L + k, at, L, op); }
static void convert(long) {
	for (int q = 0; q < 12; q++) {
		int n = rn(4) ? rn(40) : rn(200); BV b = mk(n); const BV &c = b;
		switch (rn(15)) {
		case 0: { raw(b); OP("pack", Arr().sub(lb(b))); size_t nb = (n + 7) / 8; std::vector<unsigned char> t(nb + 2, 0xa5); c.pack(&t[0]); bool ok = t[nb] == 0xa5 && t[nb + 1] == 0xa5; R(ok ? Arr().b(&t[0], nb) : Arr().b(&t[0], nb + 2)); break; }
		case 1: { raw(b); OP("pack", Arr().sub(lb(b))); R(Arr().b(c.packToString())); break; }
		case 2: { size_t nb = (n + 7) / 8; std::vector<unsigned char> t(nb + 1); for (size_t i = 0; i < nb; i++) t[i] = rnd32(); unsigned char *h = new unsigned char[nb ? nb : 1]; memcpy(h, &t[0], nb); OP("unpack", Arr().b(h, nb).i(n)); b.unpack(h); R(Arr().sub(bv(b))); delete[] h; break; }
		case 3: { raw(b); OP("hex", Arr().sub(lb(b))); R(Arr().b(c.hexstr())); break; }
		case 4: { raw(b); OP("hex", Arr().sub(lb(b))); std::ostringstream os; if (rn(2)) { c.hex(os); os.flush(); R(Arr().b(os.str())); } else { os << std::dec << rn(300) << std::setw(0); os.str(""); c.hex(os); std::string h = os.str(); unsigned v = rn(1000); os << v; R(Arr().b(os.str().substr(0, h.size()))); OP("after", Arr().i(v)); R(Arr().b(os.str().substr(h.size()))); }; break; }
		case 5: case 6: { int nd = (n + 3) / 4; std::string s; for (int i = 0; i < nd; i++) s += "0123456789abcdefABCDEF"[rn(22)]; int k = rn(6); if (k == 0 && nd) s[rn(nd)] = " gG:/@`-+x\xff\t"[rn(12)]; if (k == 1 && nd) s = s.substr(0, rn(nd)); if (k == 2) s += "0";
				char *h = strdup(s.c_str()); OP("unhex", Arr().b(s).i(n)); bool ok = b.unhex(h); R(Arr().i(ok).sub(bv(b))); free(h); break; }
		case 7: { raw(b); OP("invert", Arr().sub(lb(b))); b.invert(); R(Arr().sub(bv(b))); break; }
		case 8: if (n >= 8) { OP("rev8", Arr().sub(bv(b))); b.reverse8(); R(Arr().sub(bv(b))); } break;
		case 9: { OP("lsb8", Arr().sub(bv(b))); b.LSB8MSB(); R(Arr().sub(bv(b))); break; }
		case 10: { raw(b); OP("sum", Arr().sub(lb(b))); R(Arr().i(c.sum())); break; }
		case 11: { BV d; d.clone(b); int k = rn(5); if (k == 0 && n) d[rn(n)] ^= 1; if (k == 1) d = BV(b, BV((size_t)0)); if (k == 2 && n) { BV e = b.head(n - 1); d.clone(e); } if (k == 3) { b.invert(); d.invert(); }
				OP("eq", Arr().sub(bv(b)).sub(bv(d))); R(Arr().i(b == d)); break; }
		case 12: { std::string s; int m = rn(30); for (int i = 0; i < m; i++) s += rn(6) ? (char)('0' + rn(2)) : (char)(1 + rn(255)); OP("text", Arr().b(s)); BV d(s.c_str()); R(Arr().sub(bv(d))); break; }
		case 13: { raw(b); OP("show", Arr().sub(lb(b))); std::ostringstream os; os << b; R(Arr().b(os.str())); break; }
		case 14: if (n) { int i = rn(n); raw(b); OP("bit", Arr().sub(lb(b)).i(i)); R(Arr().i(c.bit(i))); } else { OP("zero", Arr().sub(bv(b))); b.zero(); R(Arr().sub(bv(b))); } break;
		}
	}
}
// parity: a few generators used again and again
static uint64_t coeff(int n, uint64_t r) { uint64_t m = (1ull << n) - 1; return (r & m) | (rn(2) ? 1ull << n : 0); }
static void paritycalls(Parity *g, uint64_t c, int n, BV b, int op) {
	raw(b);
	switch (op) {
	case 0: OP("parity", Arr().w(c).i(n).sub(lb(b))); R(Arr().w(b.parity(*g))); break;
	case 1: OP("synd", Arr().w(c).i(n).sub(lb(b))); R(Arr().w(rn(2) ? g->syndrome(b) : b.syndrome(*g))); break;
	case 2: { bool inv = rn(2); BV t = mk(n + rn(3) * rn(5)); OP("wpar", Arr().w(c).i(n).sub(lb(b)).sub(bv(t)).i(inv)); if (inv && rn(2)) g->writeParityWord(b, t); else g->writeParityWord(b, t, inv); R(Arr().sub(bv(t))); break; }
	case 3: { BV cw((size_t)(b.size() + n)); b.copyTo(cw); BV tail = cw.tail(b.size()); g->writeParityWord(b, tail, false); OP("code", Arr().w(c).i(n).sub(lb(b))); R(Arr().w(g->syndrome(cw))); break; }
	case 4: { for (int i = rn(9); i > 0; i--) if (rn(2)) g->encoderShift(rn(2)); else g->syndromeShift(rn(2)); if (rn(4) == 0) g->clear(); break; }
	}
}
static void parity(long) {
	Parity *g[3]; uint64_t c[3]; int n[3];
	for (int k = 0; k < 3; k++) { n[k] = rn(3) == 0 ? (int[]){1, 2, 8, 16, 32, 40, 62, 63}[rn(8)] : 1 + rn(63); c[k] = coeff(n[k], rn(3) ? rnd64() : rn(3)); g[k] = new Parity(c[k], n[k], 100); }
	for (int q = 0; q < 8; q++) { int k = rn(3); paritycalls(g[k], c[k], n[k], mk(rn(3) ? rn(70) : rn(8)), rn(5)); }
	for (int k = 0; k < 3; k++) delete g[k];
}
// all generators of length 1..4 and all messages up to 5 bits
static void parity_enum(long i) {
	int n = 1, r = i; while (r >= (1 << n)) { r -= 1 << n; n++; }
	Parity g(r, n, 8);
	for (int L = 0; L <= 5; L++) for (int m = 0; m < (1 << L); m++) { BV b((size_t)L); b.fillField(0, m, L); for (int op = 0; op < 4; op++) if ((m + op + L) % 2 || op < 2) paritycalls(&g, r, n, b, op); }
}
typedef SoftVector SV;
static Arr fv(const SV &b) { Arr a; for (size_t i = 0; i < b.size(); i++) a.i((long long)(b[i] * 16777216.0)); return a; }
static float sval() { switch (rn(6)) { case 0: return 0.5f; case 1: return (8388608 + (int)rn(3) - 1) / 16777216.0f; case 2: return (float)rn(2); case 3: return (4194304 * (1 + 2 * rn(2)) + (int)rn(3) - 1) / 16777216.0f; case 4: return ((int)rn(1 << 25) - (1 << 23)) / 16777216.0f; default: return rn(1 << 24) / 16777216.0f; } }
static SV mks(int n) { SV s((size_t)n); for (int i = 0; i < n; i++) s[i] = sval(); return s; }
static Arr tab(const std::vector<unsigned> &t) { Arr a; for (size_t i = 0; i < t.size(); i++) a.i(t[i]); return a; }
static std::vector<unsigned> holes(int n) { std::vector<unsigned> t; int k = rn(5); int lo = k == 3 && n ? n - (int)rn(n + 1) : 0, hi = k == 4 ? (int)rn(n + 1) : n; for (int i = lo; i < hi; i++) if (k == 0 || k >= 3 || (k == 1 && rn(5) == 0) || (k == 2 && rn(2))) t.push_back(i); if (k == 0 && rn(2)) t.clear(); return t; }
// soft values in 16ths; mostly near the ends, sometimes exact
static SV mk16(int n) { SV s(n); int how = rn(5), off = how == 4 ? rn(5) : 0; if (off && rn(3)) { n = 16 * off + (int)rn(5) - 2; s = SV(n); }
	if (rn(40) == 0) s = SV(n = 128 << rn(5));		// long ones: powers of two, where the means are exact
	if (how == 4) { for (int i = 0; i < n; i++) s[i] = rn(2); for (; off && n; off--) s[rn(n)] = rn(2) ? 1 / 16.0f : 15 / 16.0f; return s; }
 for (int i = 0; i < n; i++) { int k = how == 0 ? rn(17) : how == 1 ? (rn(2) ? 16 : 0) : how == 2 ? (rn(8) ? 16 * rn(2) : rn(17)) : 7 + rn(3); s[i] = k / 16.0f; } return s; }
static Arr k16(const SV &s) { Arr a; for (size_t i = 0; i < s.size(); i++) a.i(llround(s[i] * 16)); return a; }
static void maps(long) {
	for (int q = 0; q < 12; q++) {
		int n = rn(30); BV b = mk(n);
		switch (rn(13)) {
		case 11: { SV s = mk16(n); Arr k = k16(s); n = s.size(); OP("energy", Arr().sub(k)); float low = -1, e = s.getEnergy(rn(2) ? &low : 0); if (low < 0) s.getEnergy(&low); double x = (double)e * 8 * (n ? n : 1); R(Arr().i(fabs(x - llround(x)) < 0.01 ? llround(x) : -1).i((long long)(low * 8))); break; }
		case 12: { SV s = mk16(n); OP("snr", Arr().sub(k16(s))); double x = s.getSNR(); R(Arr().i(x >= 0 && x < 2000 ? llround(x * 1000) : -1)); break; }
		case 0: if (n) { std::vector<unsigned> t; int m = rn(30); for (int i = 0; i < m; i++) t.push_back(rn(n)); BV d = mk(m + rn(4)); Arr a; a.sub(bv(b)).sub(tab(t)).sub(bv(d)); OP("map", a); b.map(t.data(), m, d); R(Arr().sub(bv(d))); } break;
		case 1: { std::vector<unsigned> t; int m = rn(30); for (int i = 0; i < m; i++) t.push_back(i); for (int i = m - 1; i > 0; i--) std::swap(t[i], t[rn(i + 1)]); int u = m ? (int)rn(m + 1) : 0; t.resize(u); BV s = mk(u + rn(3)), d = mk(m); Arr a; a.sub(bv(s)).sub(tab(t)).sub(bv(d)); OP("unmap", a); s.unmap(t.data(), u, d); R(Arr().sub(bv(d))); break; }
		case 2: { std::vector<unsigned> t; for (int i = 0; i < n; i++) t.push_back(i); for (int i = n - 1; i > 0; i--) std::swap(t[i], t[rn(i + 1)]); BV d = mk(n), e = mk(n); OP("perm", Arr().sub(bv(b))); if (rn(2)) { b.map(t.data(), n, d); d.unmap(t.data(), n, e); } else { b.unmap(t.data(), n, d); d.map(t.data(), n, e); } R(Arr().sub(bv(e))); break; }
		case 3: case 4: { std::vector<unsigned> t = holes(n); BV d = mk(n - t.size()); Arr a; a.sub(bv(b)).sub(tab(t)); OP("punct", a); b.copyPunctured(d, t.data(), t.size()); R(Arr().sub(bv(d))); break; }
		case 5: case 6: { std::vector<unsigned> t = holes(n); SV s = mks(n - t.size()), d = mks(n); Arr a; a.sub(fv(s)).sub(tab(t)); OP("unpunct", a); s.copyUnPunctured(d, t.data(), t.size()); R(Arr().sub(fv(d))); break; }
		case 7: { OP("soft", Arr().sub(bv(b))); SV s(b); BV c = s.sliced(); R(Arr().sub(fv(s)).sub(bv(c))); break; }
		case 8: { SV s = mks(n); OP("slice", Arr().sub(fv(s))); BV c = s.sliced(); Arr e; for (int i = 0; i < n; i++) e.i(((const SV &)s).bit(i)); R(Arr().sub(bv(c)).sub(e)); break; }
		case 9: { SV s = mks(n); OP("unknown", Arr().sub(fv(s))); s.unknown(); R(Arr().sub(fv(s))); break; }
		case 10: { SV s = mks(n); if (n && rn(2)) { int i = rn(n); float v = sval(); OP("sset", Arr().sub(fv(s)).i(i).i((long long)(v * 16777216.0))); s.settfb(i, v); R(Arr().sub(fv(s)).i((long long)(s.softbit(i) * 16777216.0))); } else { OP("sshow", Arr().sub(fv(s))); std::ostringstream os; os << s; R(Arr().b(os.str())); } break; }
		}
	}
}
int main(int argc, char **argv) { SeqScenario sc[] = {{"fields", fields, 0}, {"fields_enum", fields_enum, 65 * 8}, {"convert", convert, 0}, {"parity", parity, 0}, {"parity_enum", parity_enum, 30}, {"maps", maps, 0}}; return seq_main(argc, argv, sc, 6); }
