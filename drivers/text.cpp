// C45 encodings, C46 URL encoding, C47 string utilities, C48 time arithmetic.
#include "Utils.h"
#include "URLEncode.h"
#include "Timeval.h"
#include "Configuration.h"
#include "seq.h"
#include <sstream>
#include <time.h>
ConfigurationTable gConfig;
static struct timeval fake_now; static bool faked, ticking;
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { if (faked) { *tv = fake_now; return 0; } struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
static std::string bytes(int n, int kind) { std::string s; for (int i = 0; i < n; i++) { switch (kind) { case 0: s += (char)rnd32(); break; case 1: s += (char)(32 + rn(95)); break; case 2: s += "ab \n\t"[rn(5)]; break; default: s += (char)(rn(4) ? rnd32() : "\0 \n=+/"[rn(6)]); } } return s; }
struct Heap { char *p; size_t n; Heap(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~Heap() { free(p); } };
static const char *names[] = {"binary", "hex", "base16", "base64", "BINARY", "Hex", "HEX", "Base16", "BASE64", "bAsE64"};
static const char *bad[] = {"", "base32", "hexx", "he", "base", "base640", "binar", "ascii", " hex", "base-64"};
static std::string messup(std::string s) { std::string r; int k = rn(3); for (size_t i = 0; i < s.size(); i++) { if (k && rn(3) == 0) r += " \n\r\t"[rn(4)]; r += s[i]; } if (rn(4) == 0) r += "\n"; return r; }
static void enc(long) {
	for (int q = 0; q < 10; q++) {
		std::string e, d = bytes(rn(4) ? rn(20) : rn(90), rn(4)), nm = rn(8) ? names[rn(10)] : bad[rn(10)]; Heap h(d);
		OP("enc", Arr().b(nm).b(d)); std::string o = encodeToString(h.p, h.n, nm, e); R(Arr().i(!e.empty()).b(o));
		nm = names[rn(10)]; bool bin = strcasecmp(nm.c_str(), "binary") == 0;
		OP("trip", Arr().b(d)); e = ""; o = encodeToString(h.p, h.n, nm, e); if (!bin) o = messup(o); Heap g(o); std::string z = decodeToString(g.p, g.n, rn(2) ? nm : nm, e); R(Arr().i(!e.empty()).b(z));
		nm = rn(8) ? names[rn(10)] : bad[rn(10)]; std::string in; bool hex = strcasecmp(nm.c_str(), "hex") == 0 || strcasecmp(nm.c_str(), "base16") == 0; int n = rn(20);
		for (int i = 0; i < n; i++) in += hex ? "0123456789abcdefABCDEF"[rn(22)] : "ABCXYZabcxyz0189+/"[rn(18)];
		int k = rn(8);
		if (k == 0 && n) in[rn(n)] = (char)rnd32(); if (k == 1 && n) in[rn(n)] = hex ? "gGzZ/:@`"[rn(8)] : "-_=.,@"[rn(6)]; if (k == 2) in += std::string(1 + rn(3), '='); if (k == 3) in += "=" + std::string(rn(2), "A\n-="[rn(4)]) + (rn(2) ? "=" : ""); if (k == 4) { in += std::string(rn(3), ' '); in += "="; in += std::string(rn(3), "\n "[rn(2)]) + "="; }
		if (k > 4) in = messup(in);
		Heap f(in); e = ""; OP("dec", Arr().b(nm).b(in)); o = decodeToString(f.p, f.n, nm, e); R(Arr().i(!e.empty()).b(o));
	}
}
static void url_enum(long i) { std::string s(1, (char)i), t = "a" + s + "%" + s; OP("url", Arr().b(s)); R(Arr().b(URLEncode(s))); OP("url", Arr().b(t)); R(Arr().b(URLEncode(t))); }
static void url(long) { for (int q = 0; q < 6; q++) { std::string s = bytes(rn(40), rn(4)); OP("url", Arr().b(s)); std::string o = URLEncode(s); R(Arr().b(o)); } }
// ---- formatting
static std::string gen(int n, int seed) { std::string s; for (int i = 1; i <= n; i++) s += (char)(33 + (i * 7 + seed) % 90); return s; }
static Arr lit(int c) { return Arr().i(0).i(c); } static Arr S_(int n, int seed) { return Arr().i(1).i(n).i(seed); } static Arr I_(int v) { return Arr().i(2).i(v); }
static int fint() { return rn(3) ? (int)rn(2000) - 1000 : (int)(rnd32() >> 1) * (rn(2) ? 1 : -1); }
static void fmt1(int n, int kind) {
	int s1 = rn(90), s2 = rn(90), a = n ? rn(n) : 0, b = n - a, i1 = fint(), i2 = fint(); Arr t; std::string o, x = gen(n, s1), xa = gen(a, s1), xb = gen(b, s2);
	switch (kind) {
	case 0: OP("fmt", Arr().sub(t.sub(S_(n, s1)))); o = format("%s", x.c_str()); break;
	case 1: OP("fmt", Arr().sub(t.sub(S_(n, s1)))); o = format1("%s", x.c_str()); break;
	case 2: OP("fmt", Arr().sub(t.sub(S_(n, s1)))); o = format("%s", x); break;
	case 3: OP("fmt", Arr().sub(t.sub(S_(a, s1)).sub(S_(b, s2)))); o = format("%s%s", xa, xb); break;
	case 4: OP("fmt", Arr().sub(t.sub(S_(a, s1)).sub(lit('-')).sub(S_(b, s2)).sub(lit('.')).sub(S_(3, s2)))); o = format("%s-%s.%s", xa, xb, gen(3, s2)); break;
	case 5: OP("fmt", Arr().sub(t.sub(S_(a, s1)).sub(S_(2, s1)).sub(lit(' ')).sub(S_(b, s2)).sub(S_(3, s2)))); o = format("%s%s %s%s", xa, gen(2, s1), xb, gen(3, s2)); break;
	case 6: OP("fmt", Arr().sub(t.sub(S_(n, s1)).sub(lit('=')).sub(I_(i1)))); o = format("%s=%d", x, i1); break;
	case 7: OP("fmt", Arr().sub(t.sub(I_(i1)).sub(lit('=')).sub(S_(n, s1)))); o = format("%d=%s", i1, x); break;
	case 8: OP("fmt", Arr().sub(t.sub(S_(a, s1)).sub(lit('<')).sub(S_(b, s2)).sub(I_(i1)))); o = format("%s<%s%d", xa, xb, i1); break;
	case 9: OP("fmt", Arr().sub(t.sub(S_(a, s1)).sub(S_(b, s2)).sub(I_(i1)).sub(lit('|')).sub(I_(i2)))); o = format("%s%s%d|%d", xa, xb, i1, i2); break;
	case 10: OP("fmt", Arr().sub(t.sub(S_(a, s1)).sub(I_(i1)).sub(lit('%')).sub(S_(b, s2)).sub(lit('!')))); o = format("%s%d%%%s!", xa.c_str(), i1, xb.c_str()); break;
	case 11: { if (n > 250) n = 250; OP("osp", Arr().sub(t.sub(S_(n, s1)).sub(I_(i1)))); std::ostringstream os; osprintf(os, "%s%d", gen(n, s1).c_str(), i1); o = os.str(); break; }
	}
	R(Arr().b(o));
}
static void fmt_enum(long i) { for (int k = 0; k < 3; k++) fmt1(i, k); fmt1(i, 3 + rn(9)); }		// every length
static void fmt_big(long) { int n[] = {190 + (int)rn(20), 480 + (int)rn(40), 1000 + (int)rn(50), 2040 + (int)rn(20), 4090 + (int)rn(10), 4985 + (int)rn(30), (int)rn(5200)}; fmt1(n[rn(7)], rn(11)); }
// ---- words
static std::string wordy(int maxw) { std::string s; int n = rn(maxw + 1); if (rn(3) == 0) s += " "; for (int i = 0; i < n; i++) { int l = 1 + rn(4); for (int k = 0; k < l; k++) s += (char)(rn(12) ? 'a' + rn(26) : 128 + rn(127)); int b = 1 + (rn(4) == 0 ? rn(3) : 0); if (i + 1 < n || rn(3) == 0) for (int k = 0; k < b; k++) s += " \t\n\r  "[rn(6)]; } return s; }
static void words(long) {
	for (int q = 0; q < 8; q++) {
		std::string s = wordy(rn(8) ? 8 : rn(12) ? 90 : 1200);
		switch (rn(5)) {
		case 0: case 1: { std::string sep = rn(2) ? "" : (const char *[]){",", " ", "a", ",; ", "xyz"}[rn(5)]; if (sep.size() && rn(2)) for (size_t i = 0; i < s.size(); i++) if (rn(4) == 0) s[i] = sep[0]; int max = rn(6) ? rn(10) : 100;
				Heap h(s + '\0'); std::vector<char *> av(max + 1, (char *)0); OP("split", Arr().b(s).i(max).b(sep)); int n = cstrSplit(h.p, av.data(), max, sep.empty() ? NULL : sep.c_str()); Arr r; for (int i = 0; i < n; i++) r.b(std::string(av[i])); R(r); break; }
		case 2: { Heap h(s + '\0'); OP("ssplit", Arr().b(s)); std::vector<std::string> v; stringSplit(v, h.p); Arr r; for (size_t i = 0; i < v.size(); i++) r.b(v[i]); R(r); break; }
		case 3: { if (rn(3) == 0) for (size_t i = 0; i < s.size(); i++) if (s[i] == ' ') s[i] = "\v\f "[rn(3)]; int nth = rn(10); Heap h(s + '\0'); OP("getarg", Arr().b(s).i(nth)); unsigned len = 0; char *p = cstrGetArg(h.p, nth, &len); Arr r; r.i(p != 0); if (p) r.b(std::string(p, len)); R(r); break; }
		case 4: { int n = 1 + rn(4); Heap h(s + '\0'); std::string w[4] = {"?", "?", "?", "?"}; OP("scan", Arr().b(s).i(n)); int k = n == 1 ? myscanf(h.p, "%s", w) : n == 2 ? myscanf(h.p, "%s %s", w, w + 1) : n == 3 ? myscanf(h.p, "%s %s %s", w, w + 1, w + 2) : myscanf(h.p, "%s %s %s %s", w, w + 1, w + 2, w + 3);
				Arr r; for (int i = 0; i < n; i++) r.b(w[i]); R(Arr().i(k).sub(r)); break; }
		}
	}
}
struct T2 : Text2Str { std::string v; void text(std::ostream &os) const { os << v; } };
static std::string small(int n, const char *al) { std::string s; for (int i = rn(n + 1); i > 0; i--) s += al[rn(strlen(al))]; return s; }
static void strs(long) {
	for (int q = 0; q < 8; q++) {
		switch (rn(10)) {
		case 0: case 1: { std::string s = small(30, "aab"), f = small(3, "ab"), t = small(4, "abX"); if (rn(20) == 0) t = small(600, "ab"); if (rn(5) == 0) { s = bytes(rn(40), 0); f = s.size() ? s.substr(rn(s.size()), 1 + rn(2)) : "a"; } OP("repl", Arr().b(s).b(f).b(t)); std::string o = replaceAll(s, f, t); R(Arr().b(o)); break; }
		case 2: { std::string s = small(20, "ab\n"); int n = 1 + rn(5); OP("first", Arr().b(s).i(n)); std::string o = n == 2 && rn(2) ? firstlines(s) : firstlines(s, n); R(Arr().b(o)); break; }
		case 3: { std::string p[7]; Arr a; int n = 2 + rn(6); for (int i = 0; i < n; i++) { p[i] = bytes(rn(8), rn(3)); a.b(p[i]); } OP("cat", a); std::string o; switch (n) { case 2: o = stringcat(p[0], p[1]); break; case 3: o = stringcat(p[0], p[1], p[2]); break; case 4: o = stringcat(p[0], p[1], p[2], p[3]); break; case 5: o = stringcat(p[0], p[1], p[2], p[3], p[4]); break; case 6: o = stringcat(p[0], p[1], p[2], p[3], p[4], p[5]); break; default: o = stringcat(p[0], p[1], p[2], p[3], p[4], p[5], p[6]); } R(Arr().b(o)); break; }
		case 4: { uint64_t h = rn(4) ? rnd64() : rn(2) ? 0 : rn(300), l = rn(4) ? rnd64() : rnd64() >> rn(64); if (rn(4) == 0) { uint32_t x = (uint32_t)h; OP("u2s", Arr().w(x, 2)); R(Arr().b(uintToString(x))); break; } Arr a; for (int k = 3; k >= 0; k--) a.i(h >> (16 * k) & 0xffff); for (int k = 3; k >= 0; k--) a.i(l >> (16 * k) & 0xffff); OP("u2s", Arr().sub(a)); R(Arr().b(uintToString(h, l))); break; }
		case 5: { std::string s; for (int i = 0; i < 32; i++) s += "0123456789abcdefABCDEF"[rn(rn(5) ? 22 : 1)]; if (rn(8) == 0) { int z = 1 + rn(15); s = s.substr(0, 16); for (int i = 0; i < z; i++) s[i] = 'f'; s += s; } uint64_t h = 7, l = 7; OP("s2u", Arr().b(s)); stringToUint(s, &h, &l); R(Arr().w(h).w(l)); break; }
		case 6: case 7: { int g = 1 + rn(60), x = g * (int)rn(200), y = g * (int)rn(200); if (rn(4) == 0) x = fint(); if (rn(4) == 0) y = fint(); if (rn(6) == 0) x = -x; OP("gcd", Arr().i(x).i(y)); R(Arr().i(gcd(x, y))); break; }
		case 8: { prettyTable_t tab; Arr a; int nr = rn(5), big = rn(8) == 0; for (int i = 0; i < nr; i++) { std::vector<std::string> row; Arr ra; int nc = big && rn(2) ? 28 + rn(8) : rn(6); for (int c = 0; c < nc; c++) { std::string x = rn(6) == 0 ? "_" : rn(12) == 0 ? gen(90 + rn(20), 3) : rn(20) == 0 ? gen(240 + rn(30), 5) : small(6, "abc_ "); row.push_back(x); ra.b(x); } tab.push_back(row); a.sub(ra); }
				bool ts = rn(3) == 0; OP("table", Arr().i(ts).sub(a)); std::ostringstream os; if (!ts && rn(2)) printPrettyTable(tab, os); else printPrettyTable(tab, os, ts); R(Arr().b(os.str())); break; }
		case 9: { T2 t; t.v = small(12, "abc "); OP("str", Arr().b(t.v)); std::ostringstream os, o2; os << (const Text2Str *)&t; o2 << (const Text2Str *)0; R(Arr().b(t.str()).b(os.str()).b(o2.str())); break; }
		}
	}
}
static int tzoff; static void tz() { int h = rn(27) - 12, m = rn(3) * 15; if (h < 0) m = -m; tzoff = h * 3600 + m * 60; char b[64]; int p = -tzoff; snprintf(b, sizeof b, "ZZZ%c%02d:%02d", p < 0 ? '-' : '+', abs(p) / 3600, abs(p) / 60 % 60); setenv("TZ", b, 1); tzset(); }
static long long fldiv(long long a, long long b) { return a / b - (a % b < 0); }
static time_t when() { switch (rn(6)) { case 0: return rn(100000); case 1: return 951782400 + (long)rn(200000) - 100000; case 2: return 2147483647l + (long)rn(200000) - 100000; case 3: return 4102444800l + (long)rn(200000) - 100000; case 4: return 1456704000 + (long)rn(300000) - 100000; default: return rnd64() % 4294967296ull; } }
static Arr T_(struct timeval t) { return Arr().i(fldiv(t.tv_sec, 86400)).i(t.tv_sec - 86400 * fldiv(t.tv_sec, 86400)).i(t.tv_usec); }
static Arr MS_(long d) { return Arr().i(fldiv(d, 86400000)).i(d - 86400000 * fldiv(d, 86400000)); }
static int usec() { switch (rn(5)) { case 0: return 0; case 1: return 999999; case 2: return rn(1000) * 1000; case 3: return 999000 + rn(1000); default: return rn(1000000); } }
static void stamp(long) { tz(); for (int q = 0; q < 6; q++) { faked = true; fake_now.tv_sec = when(); fake_now.tv_usec = usec(); int w = rn(2) ? 12 : rn(26); bool date = rn(2); if (w == 12 && rn(3) == 0) date = false; long d = fldiv(fake_now.tv_sec, 86400); OP("stamp", Arr().i(d).i(fake_now.tv_sec - 86400 * d).i(fake_now.tv_usec).i(w).i(date).i(tzoff)); std::string o = w == 12 && !date && rn(2) ? timestr() : rn(2) || date ? timestr(w, date) : timestr(w); R(Arr().b(o)); } }
static struct timeval tv(Timeval t) { struct timespec s = t.timespec(); struct timeval r; r.tv_sec = s.tv_sec; r.tv_usec = s.tv_nsec / 1000; return r; }
static long long slept_us; static bool faked_sleep;
#include <dlfcn.h>
extern "C" int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) { if (faked_sleep && !fl) { slept_us += a->tv_sec * 1000000ll + a->tv_nsec / 1000; return 0; } static auto f = (int (*)(clockid_t, int, const struct timespec *, struct timespec *))dlsym(RTLD_NEXT, "clock_nanosleep"); return f(c, fl, a, b); }
extern "C" int nanosleep(const struct timespec *a, struct timespec *b) { int r = clock_nanosleep(CLOCK_REALTIME, 0, a, b); if (r) { errno = r; return -1; } return 0; }
extern "C" int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }
extern "C" unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, 0); return 0; }
static void times(long) {
	tz(); faked = true;
	for (int q = 0; q < 10; q++) {
		fake_now.tv_sec = when() & 0xffffffff; fake_now.tv_usec = usec(); struct timeval t; 
		switch (rn(4)) { case 0: t = fake_now; break; case 1: t = fake_now; t.tv_usec = usec(); break; case 2: t.tv_sec = (fake_now.tv_sec + (long)rn(5) - 2) & 0xffffffff; t.tv_usec = usec(); break; default: t.tv_sec = rn(2) ? when() & 0xffffffff : (fake_now.tv_sec + (long)rn(4000000) - 2000000) & 0xffffffff; t.tv_usec = usec(); }
		if (llabs((long long)t.tv_sec - fake_now.tv_sec) >= 2147483647ll) t = fake_now;
		Timeval x = rn(2) ? Timeval(t) : Timeval((unsigned)t.tv_sec, (unsigned)t.tv_usec);
		switch (rn(10)) {
		case 0: case 1: { unsigned off = rn(3) ? (rn(2) ? rn(3000) : rn(100000000)) : (rn(2) ? rnd32() : 1000 * rn(5) + (1000000 - fake_now.tv_usec) / 1000); OP("future", Arr().sub(T_(fake_now)).sub(Arr().i(off / 1000).i(off % 1000))); if (rn(2)) { Timeval y(off); R(Arr().sub(T_(tv(y)))); } else { Timeval y(5, 6); y.future(off); R(Arr().sub(T_(tv(y)))); } break; }
		case 2: { Timeval y(fake_now); OP("delta", Arr().sub(T_(t)).sub(T_(fake_now))); long d = x.delta(y); R(Arr().sub(MS_(d))); break; }
		case 3: OP("elapsed", Arr().sub(T_(fake_now)).sub(T_(t))); R(Arr().sub(MS_(x.elapsed()))); break;
		case 4: OP("remaining", Arr().sub(T_(fake_now)).sub(T_(t))); R(Arr().sub(MS_(x.remaining()))); break;
		case 5: OP("passed", Arr().sub(T_(fake_now)).sub(T_(t))); R(Arr().i(x.passed())); break;
		case 6: { OP("tspec", Arr().sub(T_(t))); struct timespec s = x.timespec(); struct timeval y; y.tv_sec = s.tv_sec; y.tv_usec = s.tv_nsec / 1000; bool same = (long)x.sec() == t.tv_sec && (long)x.usec() == t.tv_usec; R(Arr().sub(T_(y)).i(same ? s.tv_nsec % 1000 : 99)); break; }
		case 7: { int m = rn(2) ? rn(100) : rn(1000000); OP("addmin", Arr().sub(T_(t)).i(m)); x.addMinutes(m); R(Arr().sub(T_(tv(x)))); break; }
		case 9: { long ms = rn(2) ? rn(2000) : rn(2000000); slept_us = 0; faked_sleep = true; OP("msleep", Arr().i(ms)); msleep(ms); faked_sleep = false; R(Arr().i(slept_us / 1000).i(slept_us % 1000)); break; }
		case 8: { time_t w = when(); if (rn(8) == 0) w = -(long)rn(1000000); bool loc = rn(2); long d = fldiv(w, 86400); OP("iso", Arr().i(d).i(w - 86400 * d).i(loc ? tzoff : 0).i(loc)); std::string o = "junk"; if (rn(2)) o = Timeval::isoTime(w, loc); else Timeval::isoTime(w, o, loc); R(Arr().b(o)); break; }
		}
	}
}
int main(int argc, char **argv) { SeqScenario sc[] = {{"enc", enc, 0}, {"url_enum", url_enum, 256}, {"url", url, 0}, {"fmt_enum", fmt_enum, 420}, {"fmt_big", fmt_big, 0}, {"words", words, 0}, {"strs", strs, 0}, {"stamp", stamp, 0}, {"times", times, 0}}; return seq_main(argc, argv, sc, 9); }
