// C49 fixed point, C52 statistics, bit sets and scalar types, C53 regular expressions.
#include "F16.h"
#include "Utils.h"
#include "Regexp.h"
#include "MemoryLeak.h"
#include "Configuration.h"
#include "seq.h"
#include <sstream>
#include <math.h>
#include <limits.h>
ConfigurationTable gConfig;
using namespace Utils;
// ------------------------------------------------------------------ F16
static F16 raw(int v) { F16 x; x.raw() = v; return x; }
static int operand() { int k = rn(6); int s = rn(2) ? 1 : -1;
	if (k == 0) return s * (int)rn(1 << rn(31)); if (k == 1) return s * (int)(rn(40) << 16); if (k == 2) return s * (int)((1u << rn(31)) - rn(3)) ; if (k == 3) return s * (int)rn(70000); if (k == 4) return s * (int)(2147483647 - rn(3)); return s * (int)((rn(64) << 16) | rn(4)); }
static bool okv(int64_t v) { return v > -2147483647 && v < 2147483647; }
// y = |x| * 65536 as integer part, 30 bits of fraction, and whether anything is left
static Arr scaled(double y) { double a = fabs(y), I = floor(a), f = (a - I) * 1073741824.0, F = floor(f); return Arr().i(y < 0).i((long long)I).i((long long)F).i(f != F); }
static double fl(bool flt) { double v; switch (rn(5)) {
	case 0: v = (double)(int)rnd32() / 65536.0 + (double)rn(1 << 22) / 4194304.0 / 65536.0; break;
	case 1: v = ((double)rn(1 << 20) + 0.5) / 65536.0; break;
	case 2: v = ((double)rn(1 << 24)) / 65536.0 / (1 << rn(12)); break;
	case 3: v = ldexp((double)rnd32(), -(int)rn(60)); break;
	default: v = ((double)rn(1 << 24) + 0.5 + ((int)rn(3) - 1) * 1e-6) / 65536.0; break; }
	if (rn(2)) v = -v; if (flt) v = (float)v; if (fabs(v) * 65536.0 > 2147483600.0) v = flt ? (double)1.5f : 1.25; return v; }
static void f16(long) {
	for (int q = 0; q < 12; q++) {
		int a = operand(), b = operand(), k = rn(15); F16 x = raw(a), y = raw(b);
		switch (k) {
		case 0: if (okv((int64_t)a + b)) { OP("add", Arr().i(a).i(b)); F16 c = x; F16 &d = (c += y); R(Arr().i((x + y).raw()).i(c.raw()).i(d.raw()).i(x.raw()).i(y.raw())); } break;
		case 1: if (okv((int64_t)a - b)) { OP("sub", Arr().i(a).i(b)); F16 c = x; F16 &d = (c -= y); R(Arr().i((x - y).raw()).i(c.raw()).i(d.raw()).i(x.raw()).i(y.raw())); } break;
		case 2: case 3: { if (rn(2)) { b = operand() >> (rn(20) + 1); y = raw(b); } double p = (double)a * b / 65536.0; if (fabs(p) < 2147483640.0) { OP("mul", Arr().i(a).i(b)); F16 c = x; F16 &d = (c *= y); R(Arr().i((x * y).raw()).i(c.raw()).i(d.raw()).i(x.raw()).i(y.raw())); } break; }
		case 4: case 5: { if (b == 0) { b = 1 + rn(5); y = raw(b); } double p = (double)a * 65536.0 / b; if (fabs(p) < 2147483640.0) { OP("div", Arr().i(a).i(b)); F16 c = x; F16 &d = (c /= y); R(Arr().i((x / y).raw()).i(c.raw()).i(d.raw()).i(x.raw()).i(y.raw())); } break; }
		case 6: { int i = (int)rn(65535) - 32767; OP("int", Arr().i(i)); F16 c(i), d, e; e = d = i; R(Arr().i(c.raw()).i(d.raw()).i(e.raw())); break; }
		case 7: { float f = fl(true); OP("conv", scaled((double)f * 65536.0)); F16 c(f), d, e; e = d = f; R(Arr().i(c.raw()).i(d.raw()).i(e.raw())); break; }
		case 8: { double f = fl(false); OP("conv", scaled(f * 65536.0)); F16 c(f), d, e; e = d = F16(f); R(Arr().i(c.raw()).i(d.raw()).i(e.raw())); break; }
		case 9: { if (rn(3) == 0) { b = a + (int)rn(3) - 1; y = raw(b); } if (!okv(b)) break; OP("cmp", Arr().i(a).i(b)); R(Arr().i(x > y).i(x < y).i(x == y)); break; }
		case 10: { float f; if (rn(2)) f = fl(true); else { a >>= rn(20); x = raw(a); f = (float)(a + (int)rn(3) - 1) / 65536.0f; if (rn(4) == 0) f = nextafterf(f, rn(2) ? 1e6f : -1e6f); } double z = (double)f * 65536.0; if (fabs(z) > 2147483640.0) break; OP("fcmp", Arr().i(a).sub(scaled(z))); R(Arr().i(x > f).i(x < f).i(x == f)); break; }
		case 11: { OP("toF", Arr().i(a)); double z = (double)x.f() * 65536.0; if (fabs(z) > 2147483646.0) z = z < 0 ? -2147483646.0 : 2147483646.0; R(Arr().i((long long)z)); break; }
		case 12: { int s = (int)rn(8191) - 4095, n = (int)rn(8191) - 4095; x = raw(s); float f = n / 16.0f; OP("mulf", Arr().i(s).i(n)); F16 c = x; c *= f; R(Arr().i((x * f).raw()).i(c.raw())); break; }
		case 13: { float f = fl(true); double p = (double)a * f; if (fabs(p) > 2147000000.0) break; OP("same", Arr().i(a)); F16 c = x; F16 &d = (c *= f); R(Arr().i((x * f).raw()).i(c.raw()).i(d.raw())); break; }
		case 14: { float f = fl(true); if (f == 0) f = 1; double p = (double)a / f; if (fabs(p) > 2147000000.0) break; OP("same", Arr().i(a)); F16 c = x; F16 &d = (c /= f); R(Arr().i((x / f).raw()).i(c.raw()).i(d.raw())); break; }
		}
	}
}
// ------------------------------------------------------------------ Statistic
template <class T> static void parse(Statistic<T> &s, Arr &r) { std::ostringstream o; o << s; std::string t = o.str(); size_t p; r.raw(t.size() && t[0] == '(' ? "1" : "0"); 
	long long v[4] = {0, 0, 0, 0}; int have = 0; v[0] = atoll(t.c_str() + 1); if ((p = t.find("min=")) != std::string::npos) { v[1] = atoll(t.c_str() + p + 4); have++; } if ((p = t.find("max=")) != std::string::npos) { v[2] = atoll(t.c_str() + p + 4); have++; } if ((p = t.find("N=")) != std::string::npos) { v[3] = atoll(t.c_str() + p + 2); have++; }
	r.i(have).i(v[0]).i(v[1]).i(v[2]).i(v[3]); }
template <class T> static void stat1(int lo, int hi) {
	Statistic<T> s; int n = rn(14), kind = rn(4); long long sum = 0; (void)sum;
	for (int i = 0; i <= n; i++) {
		double av = s.getAvg(), sc = fabs(av), I = floor(sc);
		OP("stat"); Arr r; r.i((long long)s.getCurrent()).i((long long)s.mMin).i((long long)s.mMax).i(s.mCnt).i(av < 0 ? -(long long)I : (long long)I).i((long long)((sc - I) * 1000000)); Arr q; parse(s, q); r.sub(q); R(r);
		if (i == n) break;
		int v = kind == 0 ? lo + (int)rn(hi - lo) : kind == 1 ? (lo < 0 ? -(int)rn(-lo) - 1 : hi - (int)rn(5)) : kind == 2 ? (int)rn(4) : (int)(rn(2) ? hi - rn(3) : lo + rn(3));
		OP("point", Arr().i(v)); s.addPoint((T)v); R();
	}
}
static void stats(long) { switch (rn(4)) { case 0: stat1<int>(-100000000, 100000000); break; case 1: stat1<unsigned>(0, 100000000); break; case 2: stat1<float>(-1000, 1000); break; default: stat1<double>(-10000000, 10000000); break; } }
static void bits(long) {
	BitSet b; int n = 1 + rn(16); uint32_t m = ~0u;
	for (int i = 0; i < n; i++) { unsigned k = rn(3) ? rn(32) : 31 - rn(2); (void)m;
		switch (rn(4)) { case 0: case 1: OP("set", Arr().i(k)); b.setBit(k); R(); break; case 2: OP("clr", Arr().i(k)); b.clearBit(k); R(); break; default: OP("isset", Arr().i(k)); R(Arr().i(b.isSet(k)).i(b.getBit(k) != 0)); }
		OP("bits"); Arr r; unsigned w = b.bits(), v = (unsigned)(int)b; r.i(w >> 16).i(w & 0xffff).i(v >> 16).i(v & 0xffff); R(r); }
}
// ------------------------------------------------------------------ scalar types: <<bits, signed, init>>; values as 16-bit words
template <class C, class T> static void scal(const char *nm, int bitsn, bool sg, long long init, int width = 0) {
	(void)nm; char mem[sizeof(C) + 16]; memset(mem, 0xA5, sizeof mem); C &x = *new (mem) C();
	OP("scalar", Arr().i(bitsn).i(sg).w((uint64_t)init).i(width)); R(Arr().w((uint64_t)(T)x));
	int n = 3 + rn(10);
	for (int i = 0; i < n; i++) {
		uint64_t v = rn(2) ? rnd64() : (uint64_t)(long long)((int)rn(9) - 4); T t = (T)v; T r;
		switch (rn(9)) {
		case 0: OP("asg", Arr().w((uint64_t)t)); r = (x = t); break;
		case 1: OP("inc"); r = ++x; break; case 2: OP("pinc"); r = x++; break; case 3: OP("dec"); r = --x; break; case 4: OP("pdec"); r = x--; break;
		case 5: OP("plus", Arr().w((uint64_t)t)); r = (x += t); break; case 6: OP("minus", Arr().w((uint64_t)t)); r = (x -= t); break;
		case 7: OP("get"); r = *(&x); break; default: OP("make", Arr().w((uint64_t)t)); { C y(t); C z(y); x = z; } r = x; break; }
		R(Arr().w((uint64_t)r).w((uint64_t)(T)x));
	}
}
template <class F> static void fieldw(F &f, int w) { OP("width", Arr().i(w)); R(Arr().i(f.getWidth())); unsigned v = rnd32(); f = v; OP("fval", Arr().i(v >> 16).i(v & 0xffff)); const ItemWithValueAndWidth &i = f; R(Arr().i(i.getValue() >> 16).i(i.getValue() & 0xffff).i(i.getWidth() == (unsigned)w)); }
static void scalars(long) {
	switch (rn(22)) {
	case 0: scal<Int_z, int>("", 32, 1, 0); break; case 1: scal<Int_i<-7>, int>("", 32, 1, -7); break; case 2: scal<Char_z, signed char>("", 8, 1, 0); break; case 3: scal<Char_i<-3>, signed char>("", 8, 1, -3); break;
	case 4: scal<Int16_z, int16_t>("", 16, 1, 0); break; case 5: scal<Int16_i<1234>, int16_t>("", 16, 1, 1234); break; case 6: scal<Int32_z, int32_t>("", 32, 1, 0); break; case 7: scal<Int32_i<100000>, int32_t>("", 32, 1, 100000); break;
	case 8: scal<UInt_z, unsigned>("", 32, 0, 0); break; case 9: scal<UInt_i<0x80000001u>, unsigned>("", 32, 0, 0x80000001u); break; case 10: scal<UChar_z, unsigned char>("", 8, 0, 0); break; case 11: scal<UChar_i<200>, unsigned char>("", 8, 0, 200); break;
	case 12: scal<UInt16_z, uint16_t>("", 16, 0, 0); break; case 13: scal<UInt16_i<65535>, uint16_t>("", 16, 0, 65535); break; case 14: scal<UInt32_z, uint32_t>("", 32, 0, 0); break; case 15: scal<UInt32_i<77>, uint32_t>("", 32, 0, 77); break;
	case 16: scal<Size_t_z, size_t>("", 64, 0, 0); break; case 17: scal<Size_t_i<5>, size_t>("", 64, 0, 5); break;
	case 18: scal<Field_i<7, 9>, unsigned>("", 32, 0, 9); { Field_i<7, 9> f; fieldw(f, 7); } break; case 19: scal<Field_z<12>, unsigned>("", 32, 0, 0); { Field_z<12> f; fieldw(f, 12); } break; case 20: scal<Field<5, 3>, unsigned>("", 32, 0, 3); { Field<5, 3> f; fieldw(f, 5); } break;
	default: {	char mem[64]; memset(mem, 0xA5, sizeof mem); Bool_z &b = *new (mem) Bool_z(); OP("lit", Arr().i(0)); R(Arr().i((bool)b)); Bool_i<true> t; OP("lit", Arr().i(1)); R(Arr().i((bool)t)); b = true; OP("lit", Arr().i(1)); R(Arr().i((bool)b));
		Float_z &f = *new (mem + 16) Float_z(); OP("lit", Arr().i(0)); R(Arr().i((int)(float)f)); f += 3; f -= 1; f++; OP("lit", Arr().i(3)); R(Arr().i((int)(float)f)); Double_z &d = *new (mem + 32) Double_z(); OP("lit", Arr().i(0)); R(Arr().i((int)(double)d)); d = 6; --d; OP("lit", Arr().i(5)); R(Arr().i((int)(double)d));
		enum E { EA, EB, EC }; Enum_z<E> &e = *new (mem + 48) Enum_z<E>(); OP("lit", Arr().i(0)); R(Arr().i((E)e)); e = EC; OP("lit", Arr().i(2)); R(Arr().i((E)e)); break; }
	}
}
// ------------------------------------------------------------------ memory statistics, one thread
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(ByteVector, MemCheckByteVector)
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(TBF, MemCheckTBF)
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(TranEntry, MemCheckTranEntry)
struct OA : public MemCheckByteVector { int v; }; struct OB : public MemCheckTBF { int v; }; struct OC : public MemCheckTranEntry { int v; };
static void readstats(const MemStats &z, int n0[3], int t0[3], Arr &r) { std::ostringstream os; gMemStats.text(os); std::istringstream is(os.str()); std::string line; int idx[3] = {MemStats::mByteVector, MemStats::mTBF, MemStats::mTranEntry}; std::vector<std::pair<int, int> > v; getline(is, line);
	while (getline(is, line)) { char nm[100]; int a = -9, b = -9; if (sscanf(line.c_str(), " %99s %d %d", nm, &a, &b) == 3) v.push_back(std::make_pair(a, b)); }
	(void)z; for (int k = 0; k < 3; k++) { if ((size_t)idx[k] >= v.size()) { r.i(-99).i(-99); continue; } r.i(v[idx[k]].first - n0[k]).i(v[idx[k]].second - t0[k]); } }
static int keyed(const char *pre) { int s = 0; for (MemStats::MemMapType::iterator i = gMemStats.mMemMap.begin(); i != gMemStats.mMemMap.end(); ++i) if (i->first.compare(0, strlen(pre), pre) == 0) s += i->second; return s; }
static void memst(long) {
	int idx[3] = {MemStats::mByteVector, MemStats::mTBF, MemStats::mTranEntry}, n0[3], t0[3], k0[3]; const char *pre[3] = {"ByteVector_", "TBF_", "TranEntry_"};
	for (int k = 0; k < 3; k++) { n0[k] = gMemStats.mMemNow[idx[k]]; t0[k] = gMemStats.mMemTotal[idx[k]]; k0[k] = keyed(pre[k]); }
	std::vector<MemLabel *> o; std::vector<int> kind; int n = 2 + rn(20);
	for (int i = 0; i < n; i++) {
		if (rn(3) || o.empty()) { int k = rn(3), lg = rn(3) != 0; OP("mnew", Arr().i(k).i(lg)); MemLabel *p = k == 0 ? (MemLabel *)new OA : k == 1 ? (MemLabel *)new OB : (MemLabel *)new OC; if (lg) { if (k == 0) { if (rn(2)) { RN_MEMLOG(ByteVector, (OA *)dynamic_cast<OA *>(p)); } else { RN_MEMLOG(ByteVector, dynamic_cast<OA *>(p)); } } else if (k == 1) { RN_MEMLOG(TBF, dynamic_cast<OB *>(p)); } else { RN_MEMLOG(TranEntry, dynamic_cast<OC *>(p)); } } o.push_back(p); kind.push_back(2 * k + lg); R(); }
		else { int j = rn(o.size()); OP("mdel", Arr().i(kind[j] / 2).i(kind[j] % 2)); delete o[j]; o.erase(o.begin() + j); kind.erase(kind.begin() + j); R(); }
		if (rn(3) == 0) { OP("mread"); Arr r; readstats(gMemStats, n0, t0, r); for (int k = 0; k < 3; k++) r.i(keyed(pre[k]) - k0[k]); R(r); }
	}
	for (size_t j = 0; j < o.size(); j++) { OP("mdel", Arr().i(kind[j] / 2).i(kind[j] % 2)); delete o[j]; R(); }
	OP("mread"); Arr r; readstats(gMemStats, n0, t0, r); for (int k = 0; k < 3; k++) r.i(keyed(pre[k]) - k0[k]); R(r);
}
// ------------------------------------------------------------------ regular expressions: text and tree
#include "rexgen.h"
static void regex(long) {
	Rx x = rx(2); int anch = rn(4); if (anch & 1) x.s = "^(" + x.s + ")"; else if (anch) x.s = "(" + x.s + ")"; if (anch & 2) x.s += "$";
	int fl = rn(5) ? 0 : REG_ICASE; Regexp a(x.s.c_str(), REG_EXTENDED | fl), *b = rn(2) ? new Regexp("zz|[0-9]+$") : 0;
	int n = 3 + rn(6);
	for (int i = 0; i < n; i++) { std::string s; int l = rn(10); for (int k = 0; k < l; k++) s += rn(8) ? AL[rn(8)] : ".*+?()[{|^$\\\n\xe9"[rn(14)]; int ef = rn(6) ? 0 : 1 + rn(3), e2 = (ef & 1 ? REG_NOTBOL : 0) | (ef & 2 ? REG_NOTEOL : 0);
		if (b && rn(2)) b->match(s.c_str());
		OP("rx", Arr().sub(x.t).i(anch & 1).i(anch / 2).i(fl != 0).i(ef & 1).i(ef / 2).b(s)); R(Arr().i(ef ? a.match(s.c_str(), e2) : a.match(s.c_str()))); }
	delete b;
}
int main(int argc, char **argv) { SeqScenario sc[] = {{"f16", f16, 0}, {"stats", stats, 0}, {"bits", bits, 0}, {"scalars", scalars, 0}, {"memst", memst, 0}, {"regex", regex, 0}}; return seq_main(argc, argv, sc, 6); }
