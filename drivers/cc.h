// Common helpers for the concurrent drivers.
#ifndef CC_H
#define CC_H
#include "../vsched/vs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
static inline void ev_init(const char *args) { vs_ev("{\"e\":\"i\",\"a\":[%s]}", args); }
static inline long long cc_now() { long long v = vs_now_us(); return v > 2000000000 ? 2000000000 : v; }	// TLC integers have 32 bits
static inline int clipms(unsigned ms) { return ms > 1000000 ? 1000000 : (int)ms; }
#define CALL(op, fmt, ...) vs_ev("{\"e\":\"c\",\"t\":%d,\"op\":\"%s\",\"a\":[" fmt "],\"v\":%lld}", vs_self(), op, ##__VA_ARGS__, cc_now())
#define RET(fmt, ...) vs_ev("{\"e\":\"r\",\"t\":%d,\"r\":[" fmt "],\"v\":%lld}", vs_self(), ##__VA_ARGS__, cc_now())
#define DELETED(id) vs_ev("{\"e\":\"x\",\"t\":%d,\"id\":%d}", vs_self(), (int)(id))
// A small program: for each thread a list of operations.
struct POp { int k, a, b, c; };
typedef std::vector<POp> PThread;
typedef std::vector<PThread> Prog;
struct ThArg { void (*run)(void *ctx, const PThread &p); void *ctx; const PThread *p; };
static void th_entry(void *v) { ThArg *a = (ThArg *)v; a->run(a->ctx, *a->p); }
static inline void run_prog(const Prog &p, void (*run)(void *, const PThread &), void *ctx) {
	std::vector<ThArg> a(p.size());
	for (size_t i = 0; i < p.size(); i++) { a[i].run = run; a[i].ctx = ctx; a[i].p = &p[i]; }
	for (size_t i = 0; i < p.size(); i++) vs_spawn(th_entry, &a[i]);
	vs_joinall();
}
static inline int pick(const int *w, int n) { int s = 0; for (int i = 0; i < n; i++) s += w[i]; int r = vs_prand(s); for (int i = 0; i < n; i++) { if (r < w[i]) return i; r -= w[i]; } return 0; }
#endif
