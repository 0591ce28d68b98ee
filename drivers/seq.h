// Sequential histories and call tables recorded from the real code.
// A scenario function is called with a history number; it emits operations:  OP("name", args) then R(results).
// Histories run in forked children; a crash, sanitizer report, timeout or escaped exception ends the history with op "crash".
#ifndef SEQ_H
#define SEQ_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <string>
#include <vector>
#include <exception>
#include <algorithm>
struct SeqSh { volatile size_t len; volatile long cur; volatile int inop, ops, done; char buf[64 << 20]; };
static SeqSh *SQ;
static uint64_t sq_rs = 88172645463325252ull; static long sq_seed = 1, sq_iters = 0;
static inline uint64_t sq_mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return (x ^ (x >> 31)) | 1; }
static inline uint32_t rnd32() { sq_rs ^= sq_rs << 13; sq_rs ^= sq_rs >> 7; sq_rs ^= sq_rs << 17; return (uint32_t)(sq_rs >> 16); }
static inline uint64_t rnd64() { uint64_t a = rnd32(); return a << 32 | rnd32(); }
static inline uint32_t rn(uint32_t n) { return n ? rnd32() % n : 0; }
static inline void sq_put(const char *s, size_t n) { size_t l = SQ->len; if (l + n >= sizeof SQ->buf) { fprintf(stderr, "seq buffer full\n"); _exit(77); } memcpy(SQ->buf + l, s, n); SQ->len = l + n; }
static inline void sq_puts(const char *s) { sq_put(s, strlen(s)); }
static inline void sq_printf(const char *fmt, ...) { char b[256]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); sq_put(b, n); }
// ---- argument encodings (TLC integers have 32 bits)
struct Arr { std::string s; Arr() : s("[") {} Arr &raw(const std::string &x) { if (s.size() > 1) s += ","; s += x; return *this; }
	Arr &i(long long v) { char b[32]; if (v > 2147483647 || v < -2147483647) { fprintf(stderr, "integer out of TLC range\n"); abort(); } snprintf(b, sizeof b, "%lld", v); return raw(b); }
	Arr &w(uint64_t v, int words = 4) { std::string t = "["; for (int k = words - 1; k >= 0; k--) { char b[16]; snprintf(b, sizeof b, "%s%u", t.size() > 1 ? "," : "", (unsigned)(v >> (16 * k) & 0xffff)); t += b; } return raw(t + "]"); }	// 16-bit words, most significant first
	Arr &b(const void *p, size_t n) { std::string t = "["; char q[8]; for (size_t k = 0; k < n; k++) { snprintf(q, sizeof q, "%s%u", k ? "," : "", ((const unsigned char *)p)[k]); t += q; } return raw(t + "]"); }
	Arr &b(const std::string &x) { return b(x.data(), x.size()); }
	Arr &sub(const Arr &a) { return raw(a.s + "]"); }
	Arr &tok(const char *x) { return raw(std::string("\"") + x + "\""); }
	std::string str() const { return s + "]"; } };
static inline void OP(const char *name, const Arr &a = Arr()) { sq_printf("%s{\"op\":\"%s\",\"a\":", SQ->ops ? "," : "", name); sq_puts(a.str().c_str()); SQ->inop = 1; SQ->ops = SQ->ops + 1; }
static inline void R(const Arr &r = Arr()) { sq_puts(",\"r\":"); sq_puts(r.str().c_str()); sq_puts("}"); SQ->inop = 0; }
static inline void RX(const char *tag) { R(Arr().tok(tag)); }
// ---- operation sequences generated by TLC: one line per history, operations "name n n n" separated by ';'
struct Cmd { std::string op; std::vector<int> a; };
static std::vector<std::vector<Cmd> > &scripts() { static std::vector<std::vector<Cmd> > v; static bool done; if (done) return v; done = true; const char *fn = getenv("SCRIPT"); FILE *f = fn ? fopen(fn, "r") : 0; if (!f) return v;
	std::string l; int c; std::vector<Cmd> h; while ((c = fgetc(f)) != EOF) if (c != ';' && c != '\n') l += (char)c; else { if (l.size()) { Cmd m; char nm[32]; int n = 0, x, k; sscanf(l.c_str(), "%31s%n", nm, &n); m.op = nm; const char *q = l.c_str() + n; while (sscanf(q, "%d%n", &x, &k) == 1) { m.a.push_back(x); q += k; } h.push_back(m); l.clear(); } if (c == '\n') { v.push_back(h); h.clear(); } } fclose(f); return v; }
static const std::vector<Cmd> &script(long i) { return scripts()[i]; }
struct SeqScenario { const char *name; void (*fn)(long i); long n; };	// n > 0: that many enumerated histories; 0: as many random ones as asked; -1: one for every line of the script
static std::string sq_esc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size() && i < 300; i++) { unsigned char c = s[i]; if (c == '"' || c == '\\' || c < 32 || c > 126) r += '.'; else r += c; } return r; }
static void (*seq_setup)() = 0;
static int seq_main(int argc, char **argv, const SeqScenario *sc, int nsc) {
	const char *o = "/dev/stdout", *only = 0; long shard = 0, nsh = 1, hist = -1, batch = 64, cap = 0; int limit = 60;
	for (int i = 1; i + 1 < argc; i += 2) { const char *k = argv[i], *v = argv[i + 1];
		if (!strcmp(k, "-o")) o = v; else if (!strcmp(k, "-only")) only = v; else if (!strcmp(k, "-seed")) sq_seed = atol(v); else if (!strcmp(k, "-iters")) sq_iters = atol(v); else if (!strcmp(k, "-shard")) shard = atol(v);
		else if (!strcmp(k, "-nshards")) nsh = atol(v); else if (!strcmp(k, "-hist")) hist = atol(v); else if (!strcmp(k, "-batch")) batch = atol(v); else if (!strcmp(k, "-limit")) limit = atoi(v); else if (!strcmp(k, "-cap")) cap = atol(v); }
	SQ = (SeqSh *)mmap(0, sizeof(SeqSh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	FILE *f = fopen(o, "w"); if (!f) { perror(o); return 3; }
	for (int s = 0; s < nsc; s++) {
		if (only && strcmp(only, sc[s].name)) continue;
		long full = sc[s].n > 0 ? sc[s].n : sc[s].n < 0 ? (long)scripts().size() : sq_iters, total = cap && full > cap ? cap : full, stride = total < full ? 1000003 % full | 1 : 1; while (total < full && std::__gcd(stride, full) != 1) stride += 2;
		std::vector<long> idx; if (hist >= 0) idx.push_back(hist); else for (long i = shard; i < total; i += nsh) idx.push_back((long)((unsigned long long)i * stride % full));
		int crashes = 0;
		for (size_t p = 0; p < idx.size() && crashes < 4;) {
			SQ->len = 0; SQ->cur = -1; SQ->done = 0; fflush(f);
			char errf[4096]; snprintf(errf, sizeof errf, "%s.err", o);
			pid_t pid = fork();
			if (pid == 0) {
				alarm(limit); if (!freopen(errf, "w", stderr)) _exit(3); if (!freopen("/dev/null", "w", stdout)) _exit(3);
				if (seq_setup) seq_setup();
				for (size_t k = p; k < idx.size() && k < p + batch && SQ->len < (48u << 20); k++) {
					sq_rs = sq_mix(sq_seed * 1000003 + s * 7919 + idx[k]); for (int j = 0; j < 4; j++) rnd32();
					SQ->cur = (long)k; SQ->ops = 0; SQ->inop = 0;
					sq_printf("{\"s\":\"%s\",\"h\":%ld,\"seed\":%ld,\"ops\":[", sc[s].name, idx[k], sq_seed);
					std::string ex; try { sc[s].fn(idx[k]); } catch (std::exception &e) { ex = std::string("exception ") + e.what(); } catch (...) { ex = "exception"; }
					if (ex.size()) { if (SQ->inop) R(); sq_printf("%s{\"op\":\"crash\",\"a\":[],\"r\":[]}],\"why\":\"%s\"}\n", SQ->ops ? "," : "", sq_esc(ex).c_str()); }
					else sq_puts("],\"why\":\"\"}\n");
					SQ->done = 1; SQ->cur = (long)k + 1;
				}
				_exit(0);
			}
			int st; waitpid(pid, &st, 0);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) p = SQ->cur < 0 ? p + 1 : (size_t)SQ->cur;
			else {
				if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 3)) { fprintf(stderr, "driver failed with %d\n", st); return 3; }
				std::string why; char line[512]; FILE *e = fopen(errf, "r"); if (e) { while (fgets(line, sizeof line, e)) if (strstr(line, "ERROR:") || strstr(line, "Assertion") || strstr(line, "terminate") || strstr(line, "runtime error") || (why.size() && strstr(line, "    #") && why.size() < 200)) why += line; fclose(e); }
				if (WIFSIGNALED(st)) { char b[64]; snprintf(b, sizeof b, " signal %d", WTERMSIG(st)); why += b; } else { char b[64]; snprintf(b, sizeof b, " exit %d", WEXITSTATUS(st)); why += b; }
				if (SQ->inop) R();
				sq_printf("%s{\"op\":\"crash\",\"a\":[],\"r\":[]}],\"why\":\"", SQ->ops ? "," : ""); sq_puts(sq_esc(why).c_str()); sq_puts("\"}\n");
				p = (size_t)SQ->cur + 1; crashes++;
			}
			fwrite(SQ->buf, 1, SQ->len, f);
			unlink(errf);
		}
	}
	fclose(f); return 0;
}
// live heap blocks allocated with new (the driver includes SEQ_COUNT_NEW once)
#ifdef SEQ_COUNT_NEW
#include <new>
static volatile long sq_live;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); __atomic_add_fetch(&sq_live, 1, __ATOMIC_RELAXED); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); __atomic_add_fetch(&sq_live, 1, __ATOMIC_RELAXED); return p; }
void operator delete(void *p) noexcept { if (p) { __atomic_sub_fetch(&sq_live, 1, __ATOMIC_RELAXED); free(p); } }
void operator delete[](void *p) noexcept { if (p) { __atomic_sub_fetch(&sq_live, 1, __ATOMIC_RELAXED); free(p); } }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }
#endif
#endif
