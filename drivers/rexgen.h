// Random extended regular expressions: text and syntax tree (evaluated by Misc.tla).
#ifndef REXGEN_H
#define REXGEN_H
struct Rx { std::string s; Arr t; };
static Rx rx(int d); static const char AL[] = "abcAB 01";
static Rx atom(int d) {
	Rx r; switch (rn(d > 0 ? 9 : 6)) {
	case 0: case 1: case 2: { char c = AL[rn(8)]; r.s = std::string(1, c); r.t.i(0).i(c); break; }
	case 3: r.s = "."; r.t.i(1); break;
	case 4: { bool neg = rn(3) == 0; r.s = neg ? "[^" : "["; Arr a; int n = 1 + rn(2); for (int i = 0; i < n; i++) { int lo = AL[rn(8)], hi = lo + rn(3); if (rn(2)) hi = lo; char b[8]; if (hi == lo) snprintf(b, 8, "%c", lo); else snprintf(b, 8, "%c-%c", lo, hi); r.s += b; Arr q; q.i(lo).i(hi); a.sub(q); } r.s += "]"; r.t.i(2).i(neg).sub(a); break; }
	case 5: { const char *e = ".*+?()[{|^$\\"; char c = e[rn(12)]; r.s = std::string("\\") + c; r.t.i(0).i(c); break; }
	default: { Rx x = rx(d - 1); r.s = "(" + x.s + ")"; r.t = x.t; } }
	return r;
}
static Rx piece(int d) { Rx a = atom(d), r; switch (rn(8)) { case 0: r.s = a.s + "*"; r.t.i(3).sub(a.t).i(0).i(99); return r; case 1: r.s = a.s + "+"; r.t.i(3).sub(a.t).i(1).i(99); return r; case 2: r.s = a.s + "?"; r.t.i(3).sub(a.t).i(0).i(1); return r;
	case 3: { int m = rn(3), n = m + rn(3); char b[16]; if (rn(3) == 0) { snprintf(b, 16, "{%d,}", m); r.s = a.s + b; r.t.i(3).sub(a.t).i(m).i(99); } else if (rn(2)) { snprintf(b, 16, "{%d}", m); r.s = a.s + b; r.t.i(3).sub(a.t).i(m).i(m); } else { snprintf(b, 16, "{%d,%d}", m, n); r.s = a.s + b; r.t.i(3).sub(a.t).i(m).i(n); } return r; } default: return a; } }
static Rx branch(int d) { Rx r; Arr q; int n = 1 + rn(3); for (int i = 0; i < n; i++) { Rx p = piece(d); r.s += p.s; q.sub(p.t); } r.t.i(4).sub(q); return r; }
static Rx rx(int d) { Rx r; Arr q; int n = rn(3) ? 1 : 2 + rn(2); for (int i = 0; i < n; i++) { Rx b = branch(d); r.s += (i ? "|" : "") + b.s; q.sub(b.t); } r.t.i(5).sub(q); return r; }
#endif
