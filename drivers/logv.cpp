// C30, C32: the logger used by several threads
#include "Configuration.h"
#include "Logger.h"
#include <sstream>
#include <fcntl.h>
#include <dlfcn.h>
#include "cc.h"
#define NOSAN __attribute__((no_sanitize("thread")))
ConfigurationTable gConfig;
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }
extern FILE *gLogToFile;
// ---- sinks.  Records are kept as they arrive; every call that writes is a scheduling point.
static char *recs[64]; static int nrec; static int on;
NOSAN static void rec(const char *f, va_list ap) { if (!on) return; vs_yield(); char *s = (char *)malloc(400); vsnprintf(s, 400, f, ap); if (!strchr(s, '#')) { free(s); return; } if (nrec < 64) recs[nrec++] = s; }
extern "C" {
void ls_syslog(int p, const char *f, ...) asm("syslog"); void ls_syslog_chk(int p, int, const char *f, ...) asm("__syslog_chk");
NOSAN void ls_syslog(int p, const char *f, ...) { va_list ap; va_start(ap, f); rec(f, ap); va_end(ap); }
NOSAN void ls_syslog_chk(int p, int, const char *f, ...) { va_list ap; va_start(ap, f); rec(f, ap); va_end(ap); }
#define NEXT(n) static decltype(&n) f; if (!f) f = (decltype(&n))dlsym(RTLD_NEXT, #n); if (on && vs_controlled()) vs_yield()
#undef putc
#undef fputc
NOSAN int fputs(const char *s, FILE *o) { NEXT(fputs); return f(s, o); }
NOSAN int fputc(int c, FILE *o) { NEXT(fputc); return f(c, o); }
NOSAN int putc(int c, FILE *o) { NEXT(putc); return f(c, o); }
NOSAN size_t fwrite(const void *p, size_t a, size_t b, FILE *o) { NEXT(fwrite); return f(p, a, b, o); }
NOSAN int fflush(FILE *o) { NEXT(fflush); return f(o); }
NOSAN ssize_t write(int d, const void *p, size_t n) { NEXT(write); return f(d, p, n); }
}
static int idof(const char *s) { const char *p = strchr(s, '#'); return p ? atoi(p + 1) : 0; }
enum { LOGU, LOGM, ALARMS, MAXI, LEVEL };
static const char *body[] = {"", "one line", "with newline\n", "two\nlines", "two\nlines\n"};
static void run(void *, const PThread &p) {
	for (size_t i = 0; i < p.size(); i++) { int id = 100 * vs_self() + (int)i, lv = p[i].a; const char *b = body[p[i].b];
		switch (p[i].k) {
		case LOGU: CALL("log", "%d,%d,0", id, lv); switch (lv) { case 0: _LOG(EMERG) << '#' << id << '#' << b; break; case 1: _LOG(ALERT) << '#' << id << '#' << b; break; case 2: _LOG(CRIT) << '#' << id << '#' << b; break; case 3: _LOG(ERR) << '#' << id << '#' << b; break; default: _LOG(INFO) << '#' << id << '#' << b; } RET("%s", ""); break;
		case LOGM: { int may = lv > 5; CALL("log", "%d,%d,%d", id, lv, may); if (lv == 2) { LOG(CRIT) << '#' << id << '#' << b; } else if (lv <= 5) { LOG(NOTICE) << '#' << id << '#' << b; } else { LOG(INFO) << '#' << id << '#' << b; } RET("%s", ""); break; }
		case ALARMS: { CALL("alarms", "%s", ""); std::list<std::string> l = gGetLoggerAlarms(); std::string r; for (auto &x : l) { char q[16]; snprintf(q, 16, "%s%d", r.size() ? "," : "", idof(x.c_str())); r += q; } RET("%s", r.c_str()); break; }
		case MAXI: { CALL("max", "%d", p[i].b); gConfig.set("Log.Alarms.Max", (long)p[i].b); RET("%s", ""); break; }
		case LEVEL: { CALL("level", "%s", ""); gConfig.set("Log.Level", std::string(p[i].b & 1 ? "NOTICE" : "DEBUG")); RET("%s", ""); break; }
		} }
}
static std::string rd(const char *f) { std::string s; int fd = open(f, O_RDONLY); if (fd < 0) return s; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
// the records a stream consists of, in order: their numbers, plus 1000 when an extra newline follows; 0 for anything else
static void units(const char *op, const std::string &s) {
	CALL(op, "%s", ""); std::string r; size_t i = 0;
	while (i < s.size()) { int id = 0; size_t len = 1; for (int k = 0; k < nrec; k++) { size_t l = strlen(recs[k]); if (l > len && s.compare(i, l, recs[k]) == 0) { id = idof(recs[k]); len = l; bool nl = recs[k][l - 1] == '\n'; if (!nl) { if (s[i + l] == '\n') len++; else id = 0; } else if (s[i + l] == '\n') { len++; id += 1000; } } }
		i += len; char q[16]; snprintf(q, 16, "%s%d", r.size() ? "," : "", id); r += q; if (!id) break; }
	RET("%s", r.c_str());
}
static void logs(int) {
	char f[64], e[64]; snprintf(f, 64, "v%d.log", getppid()); snprintf(e, 64, "v%d.err", getppid()); int file = vs_prand(2), con = vs_prand(2), max = 1 + vs_prand(5);
	int fd = open(e, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600), keep = dup(2); dup2(fd, 2); close(fd);
	gConfig.set("Log.Level", std::string("NOTICE")); gConfig.set("Log.Alarms.Max", (long)max); gLogToConsole = con;
	if (file) { gLogInitWithFile("prog", 0, LOG_USER, f); } else unlink(f); std::string s0 = rd(f); off_t e0 = lseek(2, 0, SEEK_END);
	int warm = vs_prand(3) == 0; if (warm) for (int n = 992 + vs_prand(9); n > 0; n--) gGetLoggingLevel("warm.cpp");	// the level cache is about to be flushed
	char b[64]; snprintf(b, 64, "%d,%d,%d", file, con, max); ev_init(b); on = 1;
	Prog p(2 + vs_prand(2)); int flavour = warm ? 3 : vs_prand(3), w[4][5] = {{5, 2, 3, 1, 0}, {6, 2, 0, 0, 1}, {2, 3, 2, 1, 2}, {1, 6, 1, 0, 1}}, lvs[] = {2, 2, 1, 0, 3, 6};
	for (size_t t = 0; t < p.size(); t++) { int n = 1 + vs_prand(4); for (int i = 0; i < n; i++) { int k = pick(w[flavour], 5); POp o = {k, k == LOGM ? (int)(vs_prand(2) ? 2 : 5 + vs_prand(2)) : lvs[vs_prand(6)], k == MAXI ? (int)vs_prand(5) : (int)vs_prand(5), 0}; p[t].push_back(o); } }
	run_prog(p, run, 0); on = 0;
	PThread fin; POp o = {ALARMS, 0, 0, 0}; fin.push_back(o); run(0, fin);
	CALL("sys", "%s", ""); std::string r; for (int k = 0; k < nrec; k++) { snprintf(b, 64, "%s%d", k ? "," : "", idof(recs[k])); r += b; } RET("%s", r.c_str());
	std::string s = rd(f); units("file", s.size() >= s0.size() && s.compare(0, s0.size(), s0) == 0 ? s.substr(s0.size()) : "?");
	s = rd(e); units("err", s.substr(e0)); dup2(keep, 2);
}
int main(int argc, char **argv) { VsScenario sc[] = {{"logs", logs}}; return vs_main(argc, argv, sc, 1); }
