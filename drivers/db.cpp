// C25 database helpers: available, busy, locked and failing databases
#include "sqlite3util.h"
#include "Configuration.h"
#include "Logger.h"
#include "seq.h"
#include <dlfcn.h>
#include <time.h>
ConfigurationTable gConfig;
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }
extern "C" void syslog(int, const char *, ...) {}
static sqlite3 *D, *O;		// the database under test, the other program
// ---- what the database does to the next call
static int inj, pb, sb, pleft, sleft, hardp, hards, skipsteps;	// inj: busy answers for each prepare (pb) and step (sb); hardp/hards: answer this error always, steps after the first skipsteps
static int lockn = -1;			// release the other program's lock after that many sleeps
static int pcode() { return rn(2) ? SQLITE_BUSY : SQLITE_LOCKED; }
template <class F> static F nextfn(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" int sqlite3_prepare_v2(sqlite3 *db, const char *q, int n, sqlite3_stmt **st, const char **tail) { static auto f = nextfn<int (*)(sqlite3 *, const char *, int, sqlite3_stmt **, const char **)>("sqlite3_prepare_v2");
	if (inj && db == D) { if (hardp) { *st = 0; return hardp < 0 ? pcode() : hardp; } if (pleft > 0) { pleft--; *st = 0; return pcode(); } pleft = pb; sleft = sb; } return f(db, q, n, st, tail); }
extern "C" int sqlite3_step(sqlite3_stmt *s) { static auto f = nextfn<int (*)(sqlite3_stmt *)>("sqlite3_step");
	if (inj && sqlite3_db_handle(s) == D) { if (skipsteps > 0) skipsteps--; else { if (hards) return hards < 0 ? pcode() : hards; if (sleft > 0) { sleft--; return pcode(); } sleft = sb; } } return f(s); }
static void oexec(const char *q) { int i = inj; inj = 0; char *e = 0; if (sqlite3_exec(O, q, 0, 0, &e)) { fprintf(stderr, "ERROR: %s: %s\n", q, e); abort(); } inj = i; }
static void napped() { if (lockn > 0 && --lockn == 0) { oexec("ROLLBACK"); lockn = -1; } }
extern "C" int usleep(useconds_t) { napped(); return 0; }
extern "C" int nanosleep(const struct timespec *, struct timespec *) { napped(); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { napped(); return 0; }
struct Row { std::string k, v; bool null; unsigned n, u; };
static Arr rowArr(const Row &r) { Arr a, v; if (!r.null) v.b(r.v); return a.b(r.k).sub(v).w(r.n, 2).i(r.u); }
static Arr rowsArr(const std::vector<Row> &v) { Arr a; for (auto &r : v) a.sub(rowArr(r)); return a; }
static std::string lit(const std::string &s) { std::string r = "'"; for (char c : s) { r += c; if (c == '\'') r += c; } return r + "'"; }
static std::string litv(const Row &r) { if (r.null) return "NULL"; if (r.v.find('\0') == std::string::npos) return lit(r.v); std::string x = "CAST(x'"; char b[4]; for (unsigned char c : r.v) { snprintf(b, 4, "%02x", c); x += b; } return x + "' AS TEXT)"; }
static std::string bytes(int max) { std::string s; int n = rn(max + 1); static const char al[] = "'\"ab%_;-\n 01\\"; for (int i = 0; i < n; i++) s += rn(6) ? al[rn(sizeof al - 1)] : (char)(1 + rn(255)); return s; }
static std::vector<Row> dumprows(sqlite3 *db) { std::vector<Row> v; sqlite3_stmt *s; if (sqlite3_prepare_v2(db, "SELECT K,V,N,U FROM TAB ORDER BY rowid", -1, &s, 0)) abort(); int rc; while ((rc = sqlite3_step(s)) == SQLITE_ROW) { Row r; r.k.assign((const char *)sqlite3_column_text(s, 0), sqlite3_column_bytes(s, 0)); r.null = sqlite3_column_type(s, 1) == SQLITE_NULL; if (!r.null) r.v.assign((const char *)sqlite3_column_text(s, 1), sqlite3_column_bytes(s, 1)); r.n = (unsigned)sqlite3_column_int64(s, 2); r.u = (unsigned)sqlite3_column_int64(s, 3); v.push_back(r); } if (rc != SQLITE_DONE) abort(); sqlite3_finalize(s); return v; }
static Arr dumpattr(sqlite3 *db) { Arr a; sqlite3_stmt *s; if (sqlite3_prepare_v2(db, "SELECT ATTR_NAME,ATTR_VALUE FROM ATTR_TABLE", -1, &s, 0)) return a; while (sqlite3_step(s) == SQLITE_ROW) { Arr e; e.b(std::string((const char *)sqlite3_column_text(s, 0), sqlite3_column_bytes(s, 0))).b(std::string((const char *)sqlite3_column_text(s, 1), sqlite3_column_bytes(s, 1))); a.sub(e); } sqlite3_finalize(s); return a; }
static void dump() { OP("dump"); int open = 0; for (sqlite3_stmt *s = sqlite3_next_stmt(D, 0); s; s = sqlite3_next_stmt(D, s)) open++; Arr r; r.sub(rowsArr(dumprows(D))).sub(dumpattr(D)).i(open).i(!sqlite3_get_autocommit(D)); R(r); }
static void db(long) {
	static const char *J[] = {"DELETE", "WAL", "TRUNCATE", "PERSIST"}; char fb[64]; snprintf(fb, 64, "d%d.db", getpid()); std::string f = fb; for (const char *x : {"", "-journal", "-wal", "-shm"}) unlink((f + x).c_str());
	inj = 0; lockn = -1; int mode = rn(6); bool wal = mode == 1, shared = mode == 4, mem = mode == 5;	// 0..3 journal modes, 4 one cache shared, 5 in memory (no other program)
	int fl = SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE | (shared ? SQLITE_OPEN_SHAREDCACHE : 0); std::string name = mem ? ":memory:" : f;
	if (sqlite3_open_v2(name.c_str(), &D, fl, 0)) abort(); O = 0; if (!mem && sqlite3_open_v2(name.c_str(), &O, fl, 0)) abort();
	if (!mem) { std::string q = std::string("PRAGMA journal_mode=") + (shared ? "DELETE" : J[mode]); if (sqlite3_exec(D, q.c_str(), 0, 0, 0)) abort(); }
	if (sqlite3_exec(D, "CREATE TABLE TAB (K TEXT, V TEXT, N INTEGER, U INTEGER UNIQUE)", 0, 0, 0)) abort();
	std::vector<std::string> keys, an; for (int i = 0; i < 3; i++) { keys.push_back(rn(2) ? bytes(5) : rn(8) ? "k" : std::string(200 + rn(400), 'q')); an.push_back(rn(2) ? bytes(5) : "attr" + std::to_string(i)); }
	unsigned N[3] = {rn(4), rnd32(), rn(2) ? 4294967295u : 2147483648u}; int nu = 0, tx = 0;
	auto mk = [&](bool dup) { Row r; r.k = keys[rn(3)]; r.null = rn(8) == 0; r.v = rn(4) ? bytes(6) : rn(4) ? "" : std::string(rn(1500), 'v'); if (rn(12) == 0 && r.v.size()) r.v[rn(r.v.size())] = '\0'; if (r.null) r.v = ""; r.n = N[rn(3)]; r.u = dup && nu ? rn(nu) : nu++; return r; };
	int n = 10 + rn(30);
	for (int i = 0; i < n; i++) {
		static const int W[] = {8, 4, 3, 2, 2, 5, 4, 3, 4, 4, 2, 4, 3, 6, 4, 3, 0}; int s = 0, k = 0; for (int w : W) s += w; int r = rn(s); while (r >= W[k]) r -= W[k++];
		if (k == 15) { if (mem || tx || shared) continue; std::vector<Row> v; v.push_back(mk(false)); oexec(("INSERT INTO TAB VALUES(" + lit(v[0].k) + "," + litv(v[0]) + "," + std::to_string(v[0].n) + "," + std::to_string(v[0].u) + ")").c_str()); OP("other", Arr().sub(rowsArr(v))); R(); continue; }
		bool hasret = k != 5 && k != 6 && !(k >= 11 && k <= 13), write = k <= 2 || k == 5 || k == 14, txop = k == 4;
		unsigned ret = hasret ? 1 + rn(rn(3) ? 6 : 12) : 5; int defret = hasret && rn(3) == 0; if (defret) ret = 5;
		// the weather
		int must = 1, got = 0; bool q_only = false, ro = false, full = false; inj = pb = sb = pleft = sleft = hardp = hards = skipsteps = 0; int wx = rn(12);
		if (wx < 3) { inj = 1; pb = rn(2) ? rn(ret) : 0; sb = rn(2) ? rn(ret) : 0; pleft = pb; sleft = sb; }	// each attempted part succeeds at the latest at the last attempt
		else if (wx == 3) { inj = 1; must = 0; static const int E[] = {SQLITE_IOERR, SQLITE_CORRUPT, SQLITE_NOMEM, SQLITE_INTERRUPT, SQLITE_FULL, SQLITE_MISUSE}; int e = rn(2) ? -1 : E[rn(6)]; if (rn(2)) hardp = e; else { hards = e; if (k == 13 && rn(2)) { skipsteps = 1 + rn(3); } } }
		else if (wx < 7 && O && !tx && !txop && lockn < 0) { bool excl = (rn(2) && !wal) || shared; oexec(excl ? "BEGIN EXCLUSIVE" : "BEGIN IMMEDIATE"); if (shared) oexec("CREATE TABLE ZZ (A)"); bool hits = excl || write; if (rn(2) && ret > 1) { lockn = 1 + rn(ret - 1); } else { lockn = 1000000; must = hits ? 0 : 1; } }
		else if (wx == 7 && write) { q_only = true; must = 0; sqlite3_exec(D, "PRAGMA query_only=ON", 0, 0, 0); }
		else if (wx == 8 && write && !tx) { full = true; must = 2; sqlite3_exec(D, "PRAGMA max_page_count=1", 0, 0, 0); }
		Arr a; a.i(must); bool ok; int code = 12345; std::string q; std::vector<Row> v; bool cmd = k <= 4;
		auto run = [&](const char *op) { OP(op, a); if (defret) ok = rn(2) ? sqlite_command(D, q.c_str(), &code) : (code = -9, sqlite3_command(D, q.c_str())); else { int w = rn(3); ok = w ? sqlite_command(D, q.c_str(), &code, ret) : (code = -9, sqlite3_command(D, q.c_str(), ret)); } if (code == -9) code = ok ? 101 : 1; R(Arr().i(ok).i(code)); };
		auto sql = [&]() { int c = 1 + rn(3); bool dup = rn(4) == 0; for (int j = 0; j < c; j++) v.push_back(mk(dup && j == c - 1)); q = "INSERT INTO TAB (K,V,N,U) VALUES "; for (int j = 0; j < c; j++) q += (j ? ",(" : "(") + lit(v[j].k) + "," + litv(v[j]) + "," + std::to_string(v[j].n) + "," + std::to_string(v[j].u) + ")"; if (c == 1 && rn(6) == 0 && sqlite3_libversion_number() >= 3035000) return true; return false; };
		std::string key = keys[rn(3)]; unsigned num = N[rn(3)]; if (rn(8) == 0) { key += "x"; num ^= 64; }
		switch (k) {
			case 0: if (sql()) q += " RETURNING K"; a.sub(rowsArr(v)); run("ins"); break;
			case 1: { Row x = mk(false); a.b(key); Arr xv; if (!x.null) xv.b(x.v); a.sub(xv); q = "UPDATE TAB SET V=" + litv(x) + " WHERE K=" + lit(key); run("upd"); break; }
			case 2: a.b(key); q = "DELETE FROM TAB WHERE K=" + lit(key); run("del"); break;
			case 3: { static const char *B[] = {"INSERT INTO NOPE VALUES (1)", "SELEC 1", "INSERT INTO TAB (Q) VALUES (1)", "SELECT * FROM TAB WHERE", "BEGIN; COMMIT; x", "UPDATE TAB SET V='"}; q = B[rn(4)]; run("bad"); break; }
			case 4: if (!tx || rn(8) == 0) { q = "BEGIN"; run("begin"); if (ok) tx = 1; } else if (rn(3)) { q = "COMMIT"; run("commit"); if (ok) tx = 0; } else { q = "ROLLBACK"; run("rollback"); if (ok) tx = 0; } break;
			case 5: { std::string nm = an[rn(3)], val = rn(4) ? bytes(8) : std::string(rn(600), 'z'); a.b(nm).b(val); OP("seta", a); R(Arr().i(sqlite_set_attr(D, nm.c_str(), val.c_str()))); break; }
			case 6: { std::string nm = an[rn(3)]; a.b(nm); OP("geta", a); R(Arr().b(sqlite_get_attr(D, nm.c_str()))); break; }
			case 7: a.b(key); OP("exists", a); R(Arr().i(defret ? sqlite3_exists(D, "TAB", "K", key.c_str()) : sqlite3_exists(D, "TAB", "K", key.c_str(), ret))); break;
			case 8: { a.b(key); OP("getn", a); unsigned x = 77; ok = defret ? sqlite3_single_lookup(D, "TAB", "K", key.c_str(), "N", x) : sqlite3_single_lookup(D, "TAB", "K", key.c_str(), "N", x, ret); R(Arr().i(ok).w(x, 2)); break; }
			case 9: case 10: { char *p = (char *)1; if (k == 9) { a.b(key); OP("gets", a); ok = defret ? sqlite3_single_lookup(D, "TAB", "K", key.c_str(), "V", p) : sqlite3_single_lookup(D, "TAB", "K", key.c_str(), "V", p, ret); } else { a.w(num, 2); OP("getsn", a); ok = defret ? sqlite3_single_lookup(D, "TAB", "N", num, "V", p) : sqlite3_single_lookup(D, "TAB", "N", num, "V", p, ret); }
				Arr x; if (p) { x.i(1); for (char *c = p; *c; c++) x.i((unsigned char)*c); free(p); } else x.i(0); R(Arr().i(ok).sub(x)); break; }
			case 11: { a.b(key); OP("gett", a); std::string x = "unset"; ok = sqlite_single_lookup(D, "TAB", "K", key.c_str(), "V", x); R(Arr().i(ok).b(x)); break; }
			case 12: { a.w(num, 2); OP("gettn", a); std::string x = "unset"; ok = sqlite_single_lookup(D, "TAB", "N", num, "V", x); R(Arr().i(ok).b(x)); break; }
			case 13: { int kind = rn(3); a.i(kind); if (kind == 0) a.i(0); else if (kind == 1) a.b(key); else a.w(num, 2); a.i(skipsteps); OP("query", a);
				sqlQuery *Q = kind == 0 ? new sqlQuery(D, "TAB", "K,V,N", "ORDER BY rowid") : kind == 1 ? new sqlQuery(D, "TAB", "K,V,N", "K", key.c_str()) : new sqlQuery(D, "TAB", "K,V,N", "N", num);
				Arr x; x.i(Q->sqlSuccess()).i(Q->sqlResultSize()); Arr rows; int c = 0; if (Q->sqlSuccess()) do { Arr e; e.b(Q->getResultText()).b(Q->getResultText(1)).w((uint64_t)Q->getResultInt(2), 2); if ((uint64_t)Q->getResultInt(2) >> 32) e.i(1); rows.sub(e); } while (Q->sqlStep() && ++c < 500); x.sub(rows).i(Q->sqlSuccess() || Q->sqlStep() || Q->sqlResultSize()).i(Q->getResultText(0).size() + (Q->getResultInt(2) != 0)); delete Q; R(x); break; }
			case 14: { if (sql()) {} a.sub(rowsArr(v)); OP("raw", a); sqlite3_stmt *st = (sqlite3_stmt *)0; int rc = defret ? sqlite3_prepare_statement(D, &st, q.c_str()) : sqlite3_prepare_statement(D, &st, q.c_str(), ret); int rc2 = 1; if (rc == 0) { rc2 = defret ? sqlite3_run_query(D, st) : sqlite3_run_query(D, st, ret); sqlite3_finalize(st); } R(Arr().i(rc == 0).i(rc2)); break; }
		}
		inj = 0; if (lockn > 0) { lockn = -1; oexec("ROLLBACK"); } if (q_only) sqlite3_exec(D, "PRAGMA query_only=OFF", 0, 0, 0); if (full) sqlite3_exec(D, "PRAGMA max_page_count=100000", 0, 0, 0);
		if (rn(3) == 0 || must != 1 || (write && rn(2))) dump();
	}
	dump(); sqlite3_close(O); for (sqlite3_stmt *s; (s = sqlite3_next_stmt(D, 0));) sqlite3_finalize(s); sqlite3_close(D); for (const char *x : {"", "-journal", "-wal", "-shm"}) unlink((f + x).c_str());
}
int main(int argc, char **argv) { SeqScenario sc[] = {{"db", db, 0}}; return seq_main(argc, argv, sc, 1); }
