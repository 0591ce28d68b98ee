// C30 alarm list, C31 log levels, C32 sinks: one thread
#include "Configuration.h"
#include "Logger.h"
#include "seq.h"
#include "logsink.h"
#include "logfn.h"
#include <fcntl.h>
#include <sys/stat.h>
ConfigurationTable gConfig;
extern int g_group; void glogA(int, const std::string &); void glogB(int, const std::string &); bool gtestA(int); bool gwatch(int);
#line 1 "A.cpp"
static void logA(int lv, const std::string &s) { EMIT(lv, s) }
static bool testA(int lv) { return TEST(IS_LOG_LEVEL, lv); }
static bool watchA(int lv) { return TEST(IS_WATCH_LEVEL, lv); }
static void objA(int lv, const std::string &s) { struct X { void f(int lv, const std::string &s) { if (lv & 1) { OBJLOG(ERR) << s; } else { OBJLOG(INFO) << s; } } } x; x.f(lv, s); }
#line 1 "B.cpp"
static void logB(int lv, const std::string &s) { EMIT(lv, s) }
#line 1 "Dir/C.cpp"
static void logC(int lv, const std::string &s) { EMIT(lv, s) }
static void rawC(int lv, const std::string &s) { EMITU(lv, s) }
#line 30 "log.cpp"
static const char *FN[] = {"A.cpp", "B.cpp", "Dir/C.cpp"};
static std::vector<std::pair<int, std::string> > sys; static int opened;
static void sys_rec(int p, const char *t) { sys.push_back(std::make_pair(p, std::string(t))); }
extern "C" void openlog(const char *, int, int) { opened++; }
// what the sinks received during one operation
static std::string rd(const char *f) { std::string s; int fd = open(f, O_RDONLY); if (fd < 0) return s; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static std::string paths[2], before[2]; static off_t errpos;
static void mark() { sys.clear(); opened = 0; for (int i = 0; i < 2; i++) before[i] = rd(paths[i].c_str()); errpos = lseek(2, 0, SEEK_END); }
static void sinks(Arr &r) {
	Arr q; for (auto &x : sys) { Arr e; e.i(x.first & 7).b(x.second); q.sub(e); } r.sub(q);
	std::string e; int fd = open("/proc/self/fd/2", O_RDONLY); if (fd >= 0) { char b[65536]; ssize_t n; lseek(fd, errpos, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) e.append(b, n); close(fd); } r.b(e);
	for (int i = 0; i < 2; i++) { std::string a = rd(paths[i].c_str()); if (a.compare(0, before[i].size(), before[i])) r.i(-1); else r.b(a.substr(before[i].size())); }
}
static std::string text(int max) { std::string s; int n = rn(6) == 0 ? 0 : rn(max); static const char *al = "ab %s%n\n\"\\:x"; for (int i = 0; i < n; i++) s += rn(8) ? al[rn(12)] : (char)(1 + rn(255)); if (rn(4) == 0) s += '\n'; if (rn(40) == 0) s += std::string(1000 + rn(7000), 'z'); return s; }
static std::string levelname() { static const char *L[] = {"EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG", "INFORMATION", "WARN", "ERROR", "CRITICAL", "EMERGENCY", "", "debug", "BOGUS", " INFO", "INFO ", "7", "EMERGE"}; return L[rn(4) ? rn(13) : 13 + rn(7)]; }
static const char *GN[] = {"Control", "SIP", "GSM", "GPRS", "Layer2", "SMS"};
static void alarms() { OP("alarms"); std::list<std::string> l = gGetLoggerAlarms(); Arr q; for (auto &s : l) q.b(s); R(Arr().sub(q)); }
static void hist(int flavour) {		// 0 alarms, 1 levels, 2 sinks
	char fb[64]; for (int i = 0; i < 2; i++) { snprintf(fb, 64, "./lg%d.%d", getpid(), i); paths[i] = fb; unlink(fb); }
	gCmdName[0] = 0; bool cmdok = false; std::string cur;
	alarms();
	int n = 8 + rn(flavour == 1 ? 50 : 35);
	for (int i = 0; i < n; i++) {
		static const int W[3][9] = {{10, 5, 1, 0, 4, 0, 0, 1, 2}, {8, 0, 8, 2, 0, 5, 3, 0, 1}, {12, 2, 1, 0, 1, 0, 0, 5, 5}}; int s = 0, k = 0; for (int w : W[flavour]) s += w; int r = rn(s); while (r >= W[flavour][k]) r -= W[flavour][k++];
		switch (k) {
		case 0: { int kind = rn(3), file = rn(3), grp = kind == 1 ? rn(6) : -1, lv = rn(flavour == 0 ? 5 : 8); if (kind == 2) file = 2; if (kind == 1) file = rn(2); std::string t = text(flavour == 2 ? 60 : 12); if (kind == 0 && file == 0 && rn(6) == 0) { kind = 3; lv = rn(2) ? 3 : 6; }
			Arr a; a.i(kind == 2 ? 1 : 0).b(std::string(FN[file])).i(grp).i(lv).b(t); mark(); OP("log", a);
			if (kind == 0) (file == 0 ? logA : file == 1 ? logB : logC)(lv, t); else if (kind == 1) { g_group = grp; (file == 0 ? glogA : glogB)(lv, t); } else if (kind == 2) rawC(lv, t); else objA(lv, t);
			Arr q; sinks(q); R(q); if (flavour == 0 && rn(2)) alarms(); break; }
		case 1: alarms(); break;
		case 2: { std::string key = rn(3) == 0 ? "Log.Level" : rn(2) ? std::string("Log.Level.") + FN[rn(3)] : std::string(rn(3) ? "Log.Group." : "Log.Watch.") + GN[rn(6)]; if (flavour == 1 && rn(12) == 0) key = "Log.Level."; if (rn(4) == 0) { OP("rem", Arr().b(key)); gConfig.remove(key); R(); } else { std::string v = levelname(); Arr a; a.b(key).b(v); OP("set", a); R(Arr().i(gConfig.set(key, v))); } break; }
		case 3: { Arr a; bool lg = rn(2), grp = rn(3) == 0; int g = rn(6), lv = rn(8); mark(); a.i(lg).i(grp ? g : -1).i(lv); OP("test", a); g_group = g; bool b = lg ? (grp ? gtestA(lv) : testA(lv)) : (grp ? gwatch(lv) : watchA(lv)); Arr q; q.i(b); sinks(q); R(q); break; }
		case 4: { static const char *M[] = {"0", "1", "2", "3", "5", "10", "20", ""}; std::string v = M[rn(7)]; if (rn(8) == 0) { OP("rem", Arr().b(std::string("Log.Alarms.Max"))); gConfig.remove("Log.Alarms.Max"); R(); } else { Arr a; a.b(std::string("Log.Alarms.Max")).b(v); OP("set", a); R(Arr().i(gConfig.set("Log.Alarms.Max", v))); } break; }
		case 5: { int f = rn(5), c = rn(3) ? 1 + rn(6) : 400 + rn(1300); std::string nm = f < 3 ? FN[f] : ""; mark(); OP("get", Arr().b(nm).i(c)); std::vector<int> L, C; for (int j = 0; j < c; j++) { int v = f == 4 ? gGetLoggingLevel() : gGetLoggingLevel(nm.c_str()); if (L.empty() || L.back() != v) { L.push_back(v); C.push_back(0); } C.back()++; } Arr q, w; for (size_t j = 0; j < L.size(); j++) { Arr e; e.i(L[j]).i(C[j]); w.sub(e); } q.sub(w); sinks(q); R(q); break; }
		case 6: { mark(); OP("setall"); gLogGroup.setAll(); Arr q; sinks(q); R(q); break; }
		case 7: { int kind = rn(3), p = rn(3), haslv = rn(4) == 0; std::string lv = levelname(), path = p < 2 ? paths[p] : rn(2) ? "" : "./nosuchdir/x"; char *fp = strdup(path.c_str()); if (rn(3)) { cmdok = rn(4) != 0; static const char *ok[] = {"OpenBTS:", "RMSCx:", "RangeFinderGW:"}, *no[] = {"openbts:", "RMS:", "", "xOpen:"}; strcpy(gCmdName, cmdok ? ok[rn(3)] : no[rn(4)]); }
			if (kind != 1 && rn(4)) { Arr a; a.b(std::string("Log.File")).b(path); OP("set", a); R(Arr().i(gConfig.set("Log.File", path))); cur = path; }
			const char *lp = haslv ? lv.c_str() : 0; std::string use = kind == 1 ? path : cur; int which = use == paths[0] ? 1 : use == paths[1] ? 2 : 0;
			Arr a; a.i(kind == 1 ? (which ? 1 : 0) : (cmdok && which ? 1 : 0)).i(which).i(haslv).b(haslv ? lv : ""); mark(); OP("init", a);
			if (kind == 0) gLogInit("prog", lp, LOG_LOCAL7); else if (kind == 1) gLogInitWithFile("prog", lp, LOG_LOCAL7, rn(4) || which ? fp : 0); else { Log dummy("prog", lp, LOG_LOCAL7); }
			free(fp); Arr q; q.i(opened); sinks(q); R(q); break; }
		case 8: if (rn(2)) { int b = rn(2); OP("console", Arr().i(b)); gLogToConsole = b; R(); } else { int lv = rn(8); std::string t = text(30); Arr a; a.i(lv).b("E<" + t + ">" + std::to_string(i)); mark(); OP("early", a); gLogEarly(lv, "E<%s>%d", t.c_str(), i); Arr q; sinks(q); R(q); } break;
		}
	}
	alarms(); for (int i = 0; i < 2; i++) unlink(paths[i].c_str());
}
// ---- histories generated by TLC
static void play(long h, bool lev) {
	char fb[64]; for (int i = 0; i < 2; i++) { snprintf(fb, 64, "./lg%d.%d", getpid(), i); paths[i] = fb; unlink(fb); }
	static const char *LN[] = {"EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG", "", "BOGUS"}; int f = rn(2), n = 0; if (!lev) alarms();
	auto set = [](const std::string &k, const std::string &v) { Arr a; a.b(k).b(v); OP("set", a); R(Arr().i(gConfig.set(k, v))); }; auto rem = [](const std::string &k) { OP("rem", Arr().b(k)); gConfig.remove(k); R(); };
	auto log = [&](int lv) { std::string t = "m" + std::to_string(n++); Arr a; bool raw = !lev && rn(3) == 0; a.i(raw).b(std::string(FN[raw ? 2 : f])).i(-1).i(lv).b(t); mark(); OP("log", a); if (raw) rawC(lv, t); else (f ? logB : logA)(lv, t); Arr q; sinks(q); R(q); };
	auto age = [&](int c) { std::string nm = FN[f]; mark(); OP("get", Arr().b(nm).i(c)); std::vector<int> L, C; for (int j = 0; j < c; j++) { int v = gGetLoggingLevel(nm.c_str()); if (L.empty() || L.back() != v) { L.push_back(v); C.push_back(0); } C.back()++; } Arr q, w; for (size_t j = 0; j < L.size(); j++) { Arr e; e.i(L[j]).i(C[j]); w.sub(e); } q.sub(w); sinks(q); R(q); };
	for (const Cmd &c : script(h)) { int x = c.a.size() ? c.a[0] : 0;
		if (c.op == "log") { log(x); alarms(); } else if (c.op == "try") log(x); else if (c.op == "age") age(1001);
		else { std::string k = c.op == "max" ? std::string("Log.Alarms.Max") : c.op == "def" ? std::string("Log.Level") : std::string("Log.Level.") + FN[f]; if (x < 0) rem(k); else set(k, c.op == "max" ? std::to_string(x) : std::string(LN[x])); } }
	if (!lev) { log(2); alarms(); } else { log(5); age(1001); for (int l = 7; l >= 0; l--) log(l); age(2); }
}
static void alarms_tlc(long h) { play(h, false); } static void levels_tlc(long h) { play(h, true); }
static void alarm_(long) { hist(0); } static void level_(long) { hist(1); } static void sink_(long) { hist(2); }
int main(int argc, char **argv) { SeqScenario sc[] = {{"alarms", alarm_, 0}, {"levels", level_, 0}, {"sinks", sink_, 0}, {"alarms_tlc", alarms_tlc, -1}, {"levels_tlc", levels_tlc, -1}}; return seq_main(argc, argv, sc, 5); }
