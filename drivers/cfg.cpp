// C23 configuration table, used by several threads; C26 reporting counters
#include "Configuration.h"
#include "Reporting.h"
#include "Logger.h"
#include <sstream>
#include <new>
ConfigurationTable gConfig;
#include "cc.h"
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }
enum { SET, REM, STR, NUM, DEF, PURGE, ALL, FIND, VEC, SCHEMA };
static const char *KN[] = {"k0", "k1", "s2", "s3"};	// s2, s3 have defaults 20 and 30
static ConfigurationTable *T;
static int listed(std::vector<int> &v) { v.assign(4, 0); ConfigurationRecordMap m = T->getAllPairs(); for (ConfigurationRecordMap::iterator i = m.begin(); i != m.end(); ++i) { int k = -1; for (int j = 0; j < 4; j++) if (i->first == KN[j]) k = j; if (k < 0) return 0; v[k] = atoi(i->second.value().c_str()); } return 1; }
static int found(std::vector<int> &v) { v.assign(4, 0); std::ostringstream os; T->find("", os); std::istringstream is(os.str()); std::string k, x; while (is >> k && getline(is, x)) { int n = -1; for (int j = 0; j < 4; j++) if (k == KN[j]) n = j; if (n < 0) return 0; v[n] = atoi(x.c_str()); } return 1; }
static void confrun(void *, const PThread &p) {
	for (size_t i = 0; i < p.size(); i++) { int k = p[i].a, x = p[i].b; std::string key = KN[k]; char val[64]; snprintf(val, 64, "%d %s", x, x & 1 ? "a-long-value-that-needs-the-heap-0123456789" : "s");
		try { switch (p[i].k) {
			case SET: CALL("set", "%d,%d", k + 1, x); { int r = T->set(key, std::string(val)); RET("%d", r); } break;
			case REM: CALL("rem", "%d", k + 1); { int r = T->remove(key); RET("%d", r); } break;
			case STR: CALL("get", "%d", k + 1); { std::string s = T->getStr(key); int n = atoi(s.c_str()); snprintf(val, 64, "%d %s", n, n & 1 ? "a-long-value-that-needs-the-heap-0123456789" : "s"); if (n != 20 * (n == 20) && n != 30 * (n == 30) && s != val) n = -9; RET("%d", n); } break;
			case NUM: CALL("get", "%d", k + 1); { int n = x & 1 ? (int)T->getNum(key) : (int)T->getFloat(key); RET("%d", n); } break;
			case VEC: CALL("get", "%d", k + 1); { std::vector<std::string> v = T->getVectorOfStrings(key); int n = v.empty() ? -9 : atoi(v[0].c_str()); RET("%d", n); } break;
			case DEF: CALL("def", "%d", k + 1); { int n = T->defines(key); RET("%d", n); } break;
			case PURGE: CALL("purge", "%s", ""); T->purge(); RET("%s", ""); break;
			case ALL: case FIND: CALL("all", "%s", ""); { std::vector<int> v; int ok = p[i].k == ALL ? listed(v) : found(v); if (!ok) v.assign(4, -9); RET("%d,%d,%d,%d", v[0], v[1], v[2], v[3]); } break;
		} } catch (ConfigurationTableKeyNotFound &e) { int n = e.key() == key ? 0 : -9; RET("%d", n); }
	}
}
static void conf(int) {
	ConfigurationKeyMap m; for (int i = 2; i < 4; i++) { char d[8]; snprintf(d, 8, "%d", 10 * i); m[KN[i]] = ConfigurationKey(KN[i], d, "", ConfigurationKey::CUSTOMER, ConfigurationKey::STRING, "", false, "text"); }
	T = new ConfigurationTable(":memory:", 0, m); ev_init("");
	Prog p(2 + vs_prand(2)); int nk = 1 + vs_prand(3), base = vs_prand(4), val = 100, w[] = {6, 3, 4, 2, 2, 1, 1, 1, 2};
	for (size_t t = 0; t < p.size(); t++) { int n = 1 + vs_prand(4); for (int i = 0; i < n; i++) { POp o = {pick(w, 9), (int)((base + vs_prand(nk)) % 4), val++, 0}; p[t].push_back(o); } }
	run_prog(p, confrun, 0);
	CALL("all", "%s", ""); std::vector<int> v; if (!listed(v)) v.assign(4, -9); RET("%d,%d,%d,%d", v[0], v[1], v[2], v[3]);
	for (int k = 0; k < 4; k++) { CALL("get", "%d", k + 1); try { int n = T->getNum(KN[k]); RET("%d", n); } catch (ConfigurationTableKeyNotFound &e) { RET("%d", 0); } }
}
// ---- C26.  gReports lives in raw storage: it is constructed inside the controlled execution, so its thread is controlled too.
alignas(64) char reports_storage[sizeof(ReportingTable)] asm("gReports");
#include <dlfcn.h>
static int failn, failmode;
#define NOSAN __attribute__((no_sanitize("thread")))
NOSAN static void setfail(int n) { failn = n; }
extern "C" NOSAN int sqlite3_step(sqlite3_stmt *s) { static int (*f)(sqlite3_stmt *); if (!f) f = (int (*)(sqlite3_stmt *))dlsym(RTLD_NEXT, "sqlite3_step"); const char *q;
	if (failn > 0 && vs_controlled() && (q = sqlite3_sql(s)) && strncmp(q, "UPDATE", 6) == 0) { failn--; return SQLITE_BUSY; } return f(s); }
enum { CREATE, INCR, MAXI, CLEAR, CLEARALL, COMMIT, READ, FAIL, NAP };
static const char *RN[] = {"cn%", "cn%.7", "o'c.3000000000", "CNT", "mx", "m.1234567890", "VALUE"}; static long long scale = 1; static sqlite3 *raw;	// 0..3 counters, 4..5 maxima, 6 a counter created late
static int rread(int k) { std::string q = std::string("SELECT VALUE FROM REPORTING WHERE NAME=?1"); sqlite3_stmt *s; if (sqlite3_prepare_v2(raw, q.c_str(), -1, &s, 0)) return -8; sqlite3_bind_text(s, 1, RN[k], -1, SQLITE_STATIC); int r = sqlite3_step(s), v = -7; if (r == SQLITE_ROW) { long long w = sqlite3_column_int64(s, 0), d = k == 4 || k == 5 ? scale : 1; v = w % d || w / d > 2147483647 || w < 0 ? -6 : (int)(w / d); } sqlite3_finalize(s); return v; }
static void reprun(void *, const PThread &p) {
	for (size_t i = 0; i < p.size(); i++) { int k = p[i].a, x = p[i].b, r; switch (p[i].k) {
		case CREATE: CALL("create", "%d", k + 1); r = k == 1 ? gReports.create("cn%", 7, 7) : gReports.create(RN[k]); RET("%d", r); break;
		case INCR: CALL("incr", "%d", k + 1); r = k == 1 ? gReports.incr("cn%", 7) : k == 2 ? gReports.incr("o'c", 3000000000u) : gReports.incr(RN[k]); RET("%d", r); break;
		case MAXI: CALL("max", "%d,%d", k + 1, x); r = k == 5 ? gReports.max("m", 1234567890, (unsigned)(x * scale)) : gReports.max(RN[k], (unsigned)(x * scale)); RET("%d", r); break;
		case CLEAR: CALL("clear", "%d", k + 1); r = k == 1 ? gReports.clear("cn%", 7) : gReports.clear(RN[k]); RET("%d", r); break;
		case CLEARALL: CALL("clearall", "%s", ""); r = gReports.clear(); RET("%d", r); break;
		case COMMIT: CALL("commit", "%s", ""); r = gReports.commit(); RET("%d", r); break;
		case READ: CALL("read", "%d", k + 1); r = rread(k); RET("%d", r); break;
		case FAIL: setfail(x); break;
		case NAP: usleep(x); break;
	} }
}
static void report(int) {
	char f[64]; snprintf(f, 64, "r%d.db", getppid()); unlink(f); unlink((std::string(f) + "-wal").c_str()); unlink((std::string(f) + "-shm").c_str()); unlink((std::string(f) + "-journal").c_str());
	failmode = vs_prand(3) == 0; ev_init(failmode ? "1" : "0"); setfail(0);
	new (&gReports) ReportingTable(f); if (sqlite3_open(f, &raw)) abort();
	for (int k = 0; k < 6; k++) { if (k == 1) gReports.create("cn%", 7, 7); else if (k == 2) gReports.create("o'c", 2999999999u, 3000000001u); else gReports.create(RN[k]); }
	scale = vs_prand(3) ? 1 : 200000000;
	if (vs_prand(40) == 0) { static const int B[] = {255, 256, 999, 1001, 32768, 65535, 65536, 70000}; int k = vs_prand(4), n = B[vs_prand(8)]; CALL("incrn", "%d,%d", k + 1, n); vs_quiet(1); for (int i = 0; i < n; i++) k == 1 ? gReports.incr("cn%", 7) : gReports.incr(RN[k]); vs_quiet(0); RET("%d", 1); }
	Prog p(2 + vs_prand(2)); int k0 = vs_prand(4), nk = 1 + vs_prand(2), late = vs_prand(3) == 0, w[] = {late ? 4 : 1, 12, 2, 3, 1, 4, 4, failmode ? 4 : 0, 2};
	for (size_t t = 0; t < p.size(); t++) { int n = 1 + vs_prand(5); for (int i = 0; i < n; i++) { int k = pick(w, 9), c = late && vs_prand(3) ? 6 : (k0 + vs_prand(nk)) % 4; POp o = {k, k == MAXI || ((k == CLEAR || k == READ) && vs_prand(5) == 0) ? 4 + (int)vs_prand(2) : c, k == MAXI ? (int)vs_prand(20) : k == FAIL ? 1 + (int)vs_prand(vs_prand(3) ? 5 : 14) : k == NAP ? (int)(vs_prand(2) ? 9999000 + vs_prand(2000) : vs_prand(30000)) : 0, 0}; p[t].push_back(o); } }
	run_prog(p, reprun, 0);
	setfail(0); gReports.reportShutdown(); usleep(21000000);
	PThread e; POp c = {COMMIT, 0, 0, 0}; e.push_back(c); for (int k = 0; k < 7; k++) { POp r = {READ, k, 0, 0}; e.push_back(r); } reprun(0, e);
	CALL("running", "%s", ""); RET("%d", (int)gReports.mReportRunning);
}
int main(int argc, char **argv) { VsScenario sc[] = {{"conf", conf}, {"report", report}}; return vs_main(argc, argv, sc, 2); }
