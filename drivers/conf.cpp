// C20 table contents, C21 visibility of changes, C22 validation, C24 generated SQL and TeX, C27 key=value lists
#include <limits.h>
#include "Configuration.h"
#include "seq.h"
#include "rexgen.h"
#include <sstream>
#include <math.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
ConfigurationTable gConfig;
// ---- stand-ins: no disk flushes; a virtual clock when vclock is set (milliseconds)
static volatile long long vclock = -1, vskew = 0;   // vskew: how far somebody moved the clock
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) { if (vclock < 0) return syscall(SYS_clock_gettime, c, ts); { long long v = vclock + (c == CLOCK_REALTIME ? vskew : 0); ts->tv_sec = v / 1000; ts->tv_nsec = v % 1000 * 1000000; } return 0; }
extern "C" int gettimeofday(struct timeval *tv, void *) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }

static std::string dbfile() { char b[64]; snprintf(b, sizeof b, "c%d.db", getpid()); return b; }
static void rmdb(const std::string &f) { unlink(f.c_str()); unlink((f + "-journal").c_str()); unlink((f + "-wal").c_str()); unlink((f + "-shm").c_str()); }
static std::string rs(const char *al, int max) { std::string s; int n = rn(max + 1), l = strlen(al); for (int i = 0; i < n; i++) s += al[rn(l)]; return s; }
static std::string rbytes(int max) { std::string s; int n = rn(max + 1); for (int i = 0; i < n; i++) s += (char)rn(256); return s; }
static std::string numtext() { char b[64]; int s = rn(9); const char *sg = rn(4) == 0 ? "-" : rn(10) == 0 ? "+" : ""; switch (s) {
	case 0: return "0"; case 1: snprintf(b, 64, "%s%u", sg, rn(10)); break; case 2: snprintf(b, 64, "%s%u", sg, rn(1000000000)); break; case 3: snprintf(b, 64, "%s0x%x", sg, rn(1 << 27)); break; case 4: snprintf(b, 64, "%s0%o", sg, rn(1 << 24)); break;
	case 5: snprintf(b, 64, "%s%u.%0*u", sg, rn(5000), 1 + (int)rn(4), rn(10)); break; case 6: snprintf(b, 64, "%s%u%s", sg, rn(70000), rn(2) ? "abc" : " 7"); break; case 7: { unsigned long v = rnd64() >> rn(40); snprintf(b, 64, rn(2) ? "%s%lu" : rn(2) ? "%s0x%lX" : "%s0%lo", sg, v); break; } default: snprintf(b, 64, " %s%u", sg, rn(300)); } return b; }
static std::string value() { switch (rn(12)) { case 0: return ""; case 1: case 2: case 3: return numtext(); case 4: return rbytes(12); case 5: return rs("'\"%_;-()\\ab \n", 8); case 6: { std::string s; int n = rn(6); for (int i = 0; i < n; i++) { s += rn(4) ? numtext() : rs("abx.", 3); s += std::string(rn(3) + (rn(5) ? 1 : 0), ' '); } return s; }
	case 7: return std::string(rn(20) ? rn(60) : 200 + rn(1200), 'a' + rn(26)); case 8: { std::string s = rs("ab", 3); s += '\0'; return s + rs("ab'", 3); } case 9: return "NULL"; case 10: return "VALUESTRING"; default: return rs("abcdeXYZ019 .,|", 10); } }
static const char *KEYS[] = {"VALUESTRING", "KEYSTRING", "a'b", "a\"b", "a%b", "a_b", "Abc", "abC", "", ";DROP TABLE CONFIG;--", "NULL", "1", "01", "1.0", "\xd0\xba\xd0\xbb", "GSM.Radio.Band", "GSM.Radio.C0", "Log.Level.a.cpp", "Log.Level", "Log.File", "x y", "x\ny", "CONFIG", "rowid", "a''b", "\\'", "--", "?1", ":a", "Control.X"};
static std::string rkey() { if (rn(6) == 0) return rbytes(6); if (rn(12) == 0) return std::string(rn(6) ? 40 + rn(60) : 250 + rn(300), 'k'); if (rn(10) == 0) { std::string s("a"); s += '\0'; return s + (char)('a' + rn(2)); } return KEYS[rn(sizeof KEYS / sizeof *KEYS)]; }
// a key easily taken for k: other case, one character more or less, an equal weighted sum of its bytes
static std::string sibling(std::string k) {
	switch (rn(7)) { case 0: return k + " "; case 1: return k + '\0'; case 2: return " " + k; case 3: for (size_t i = 0; i < k.size(); i++) if (isalpha((unsigned char)k[i])) { k[i] ^= 32; break; } return k; case 4: return k.size() ? k.substr(0, k.size() - 1) : "a"; case 5: return k + (k.size() ? k.substr(0, 1) : "b");
	default: if (k.size() < 2) return k + "%"; { size_t i = rn(k.size() - 1); k[i + 1] = 32 + rn(90); return k; } }
}
static std::string collide(std::string &a) { int d = rn(40), u = 65 + rn(25); std::string p = rn(2) ? rs("ab.", 6) : ""; a = p + (char)u + (char)(64 + d); return p + (char)(u + 1) + (char)(64 + d - 127); }
typedef std::vector<std::string> SV;
static Arr bsv(const SV &v) { Arr a; for (size_t i = 0; i < v.size(); i++) a.b(v[i]); return a; }
static const char *BUILTIN[] = {"Control.NumSQLTries", "Log.Alarms.Max", "Log.File", "Log.Level"};
static Arr schemaArr(const ConfigurationKeyMap &m) { Arr a; for (ConfigurationKeyMap::const_iterator i = m.begin(); i != m.end(); ++i) { Arr e; e.b(i->first).b(i->second.getDefaultValue()).i(i->second.isStatic()); a.sub(e); } return a; }
static ConfigurationKey mkkey(const std::string &n, const std::string &def, ConfigurationKey::Type t = ConfigurationKey::STRING, const std::string &vv = "", bool st = false, const std::string &desc = "some text", ConfigurationKey::VisibilityLevel vis = ConfigurationKey::CUSTOMER) { return ConfigurationKey(n, def, "units", vis, t, vv, st, desc); }
// another program holds a lock on the database file: 1 nobody else may write, 2 nobody else may even read
static sqlite3 *lockdb; static void busy(int mode) { OP("busy", Arr().i(mode)); sqlite3_exec(lockdb, "ROLLBACK", 0, 0, 0); if (mode && sqlite3_exec(lockdb, mode == 1 ? "BEGIN IMMEDIATE" : "BEGIN EXCLUSIVE", 0, 0, 0)) { fprintf(stderr, "lock %s\n", sqlite3_errmsg(lockdb)); _exit(77); } R(); }
// one operation on a table
static SV ccret; static std::vector<std::string> cchook(const std::string &k) { SV v; v.push_back(k); v.push_back("x"); return v; }
static void cop(ConfigurationTable &T, const SV &keys, bool utf) {
	static const int W[] = {9, 2, 4, 3, 8, 4, 2, 4, 3, 3, 3, 3, 5, 2, 2, 2, 1}; int s = 0, k = 0; for (int w : W) s += w; int r = rn(s); while (r >= W[k]) r -= W[k++];
	std::string key = keys[rn(keys.size())]; Arr a; a.b(key);
	try { switch (k) {
		case 0: { std::string v = value(); OP("set", a.b(v)); R(Arr().i(T.set(key, v))); break; }
		case 1: { long v = rn(3) ? (long)(int)rnd32() / (1 << rn(28)) : (long)rnd64() >> rn(40); if (rn(40) == 0) v = rn(2) ? LONG_MAX : LONG_MIN; OP("setn", a.w(v)); R(Arr().i(T.set(key, v))); break; }
		case 2: OP("rem", a); R(Arr().i(T.remove(key))); break;
		case 3: OP("purge"); T.purge(); R(); break;
		case 4: { OP("str", a); std::string v = T.getStr(key); R(Arr().i(1).b(v)); break; }
		case 5: { OP("num", a); long v = T.getNum(key); R(Arr().i(1).w(v)); break; }
		case 6: { OP("bool", a); bool v = T.getBool(key); R(Arr().i(1).i(v)); break; }
		case 7: { OP("flt", a); double v = T.getFloat(key); if (!(fabs(v) < 1000000)) R(Arr().i(2)); else R(Arr().i(1).i(llround(v * 1000))); break; }
		case 8: { OP("vec", a); std::vector<unsigned> v = rn(4) ? T.getVector(key) : std::vector<unsigned>(); if (v.empty()) v = T.getVector(key); Arr q; for (size_t i = 0; i < v.size(); i++) q.w(v[i], 2); unsigned l = T.getVectorLength(key); R(Arr().i(1).sub(q).i(l)); break; }
		case 9: { OP("vecs", a); SV v = T.getVectorOfStrings(key); R(Arr().i(1).sub(bsv(v))); break; }
		case 10: OP("defs", a); R(Arr().i(T.defines(key))); break;
		case 11: { OP("all"); ConfigurationRecordMap m = T.getAllPairs(); Arr q; for (ConfigurationRecordMap::iterator i = m.begin(); i != m.end(); ++i) { Arr e; e.b(i->first).i(i->second.defined()).b(i->second.value()); q.sub(e); } R(Arr().sub(q)); break; }
		case 12: { std::string p = rn(3) ? rs(utf ? "abAk'.%1L" : "abAk_'.%1L", 3) : std::string(key.c_str()).substr(0, rn(5)); if (utf) for (size_t i = 0; i < p.size(); i++) if (p[i] == '_') p[i] = 'a'; for (size_t i = 0; i < p.size(); i++) if (p[i] & 128) { p = p.substr(0, i); break; } OP("find", Arr().b(p)); std::ostringstream os; T.find(p, os); R(Arr().b(os.str())); break; }
		case 13: OP("insch", a); R(Arr().i(T.keyDefinedInSchema(key))); break;
		case 14: OP("static", a); R(Arr().i(T.isStatic(key))); break;
		case 15: { std::string p = key.substr(0, rn(4)); OP("similar", Arr().b(p)); ConfigurationKeyMap m = T.getSimilarKeys(p); Arr q; for (ConfigurationKeyMap::iterator i = m.begin(); i != m.end(); ++i) { Arr e; e.b(i->first).b(i->second.getDefaultValue()); q.sub(e); } R(Arr().sub(q)); break; }
		case 16: { int on = rn(2); T.setCrossCheckHook(on ? cchook : 0); OP("cross", a.i(on)); R(Arr().sub(bsv(T.crossCheck(key)))); break; }
	} } catch (ConfigurationTableKeyNotFound &e) { if (e.key() == key) R(Arr().i(0)); else R(Arr().i(9)); }
}
static void conf(long) {
	std::string f = dbfile(); rmdb(f);
	SV keys; int nk = 2 + rn(5); for (int i = 0; i < nk; i++) { keys.push_back(rkey()); if (rn(3) == 0) keys.push_back(sibling(keys.back())); if (rn(12) == 0) { std::string x, y = collide(x); keys.push_back(x); keys.push_back(y); } } for (int i = rn(3); i > 0; i--) keys.push_back(BUILTIN[rn(4)]);
	bool utf = false; for (auto &k : keys) for (char c : k) if (c & 128) utf = true;
	ConfigurationKeyMap m; for (size_t i = 0; i < keys.size(); i++) if (rn(3) == 0) m[keys[i]] = mkkey(keys[i], value(), ConfigurationKey::STRING, "", rn(2), rn(2) ? "it's \"quoted\"" : "text");
	int segs = 1 + rn(3); long long save = sq_rs;
	for (int g = 0; g < segs; g++) {
		sq_rs = sq_mix(save + g); bool child = rn(4) == 0;
		pid_t pid = child ? fork() : 0;
		if (pid == 0) {
			std::string def; ConfigurationTable *t = 0; { ConfigurationKeyMap full; ConfigurationTable tmp(":memory:", 0, m); full = tmp.mSchema; OP("open", Arr().sub(schemaArr(full))); t = new ConfigurationTable(f.c_str(), rn(2) ? "test" : 0, m); R(); }
			if (sqlite3_open(f.c_str(), &lockdb)) _exit(77); int locky = rn(3) == 0, held = 0;
			int n = 4 + rn(25); for (int i = 0; i < n; i++) { if (locky && rn(5) == 0) { busy(held = held ? 0 : 1 + (rn(3) == 0));
				if (held == 2 && rn(2)) { std::string z = keys[rn(keys.size())]; OP("purge"); t->purge(); R(); auto sh = [&]() { OP("str", Arr().b(z)); try { std::string v = t->getStr(z); R(Arr().i(1).b(v)); } catch (ConfigurationTableKeyNotFound &) { R(Arr().i(0)); } }; sh(); if (rn(2)) { busy(held = 0); sh(); } } }
				cop(*t, keys, utf); }
			if (held) busy(0); if (!child) { sqlite3_close(lockdb); lockdb = 0; }
			if (child) kill(getpid(), SIGKILL);
		} else { int st; waitpid(pid, &st, 0); if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) abort(); }
	}
	rmdb(f);
}
// ------------------------------------------------------------------ C21
static sqlite3 *rawdb;
static void rawexec(const char *sql, const std::string &k, const std::string *v) { sqlite3_stmt *s; if (sqlite3_prepare_v2(rawdb, sql, -1, &s, 0)) abort(); sqlite3_bind_text(s, 1, k.data(), k.size(), SQLITE_TRANSIENT); if (v) sqlite3_bind_text(s, 2, v->data(), v->size(), SQLITE_TRANSIENT); int r = sqlite3_step(s); if (r != SQLITE_DONE && r != SQLITE_ROW) { fprintf(stderr, "raw %d %s\n", r, sqlite3_errmsg(rawdb)); _exit(77); } sqlite3_finalize(s); }
static void vis(long) {
	std::string f = dbfile(); rmdb(f); vclock = 1700000000000ll + rn(1000);
	long long t0 = vclock; SV keys; const char *kp[] = {"k1", "k2", "s1", "s2"}; for (int i = 0; i < 2 + (int)rn(3); i++) keys.push_back(kp[rn(4)]);
	ConfigurationKeyMap m; m["s1"] = mkkey("s1", "100"); m["s2"] = mkkey("s2", "200");
	int nt = 1 + rn(3); std::vector<ConfigurationTable *> T; for (int i = 0; i < nt; i++) T.push_back(new ConfigurationTable(f.c_str(), 0, m));
	if (sqlite3_open(f.c_str(), &rawdb)) abort();
	int n = 10 + rn(50), seqno = 1, skews = rn(8) ? 0 : 1 + rn(2), locks = rn(4) == 0, locked = 0; vskew = 0;
	for (int i = 0; i < n; i++) {
		std::string k = keys[rn(keys.size())]; int t = rn(nt), kk = k[0] == 'k' ? k[1] - '0' : k[1] - '0' + 2; char b[16]; Arr a; int op = rn(16);
		if (skews && rn(8) == 0) { if (skews == 2) vskew += 1000 * (1 + rn(100000)); else vskew -= 1000000000; skews--; }
		if (locks && rn(10) == 0) { const char *q = locked ? "ROLLBACK" : "BEGIN EXCLUSIVE"; if (sqlite3_exec(rawdb, q, 0, 0, 0)) { fprintf(stderr, "%s: %s\n", q, sqlite3_errmsg(rawdb)); _exit(77); } locked = !locked; OP("lock", Arr().i(vclock - t0).i(locked).i(1)); R(); i--; n--; continue; }
		if (op < 4) { static const int D[] = {1, 10, 500, 999, 1000, 1001, 1500, 2000, 2500, 2990, 2999, 3000, 3001, 3500, 5000, 400}; vclock += D[rn(16)]; i--; n--; continue; }
		a.i(vclock - t0).i(t + 1).i(kk);
		if (locked && op < 9 && op != 8) continue;
		if (op < 6) { snprintf(b, 16, "%d", seqno); std::string v = b; OP("rset", a.i(seqno++)); rawexec("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING) VALUES (?,?)", k, &v); R(); }
		else if (op == 6) { OP("rdel", a); rawexec("DELETE FROM CONFIG WHERE KEYSTRING=?", k, 0); R(); }
		else if (op == 7) { if (rn(2)) { snprintf(b, 16, "%d", seqno); OP("tset", a.i(seqno++)); R(Arr().i(T[t]->set(k, std::string(b)))); } else { OP("trem", a); R(Arr().i(T[t]->remove(k))); } }
		else if (op == 8 && rn(2)) { OP("tpurge", a); T[t]->purge(); R(); }
		else { int w = rn(5); OP("tget", a); try { if (w == 0) { bool d = T[t]->defines(k); if (d) R(Arr().i(-1)); else R(Arr().i(0)); } else if (w == 1) { R(Arr().i(T[t]->getNum(k))); } else if (w == 2) { R(Arr().i((long)T[t]->getFloat(k))); } else if (w == 3) { std::vector<unsigned> v = T[t]->getVector(k); R(Arr().i(v.size() ? (int)v[0] : 0)); } else { R(Arr().i(atoi(T[t]->getStr(k).c_str()))); } } catch (ConfigurationTableKeyNotFound) { R(Arr().i(0)); } }
	}
	sqlite3_close(rawdb); vclock = -1; vskew = 0; rmdb(f);
}

// ------------------------------------------------------------------ histories generated by TLC
static void show(ConfigurationTable &T, const std::string &k, int how) { Arr a; a.b(k); try { switch (how) {
	case 0: { OP("str", a); std::string v = T.getStr(k); R(Arr().i(1).b(v)); break; }
	case 1: OP("defs", a); R(Arr().i(T.defines(k))); break;
	case 2: { OP("num", a); long v = T.getNum(k); R(Arr().i(1).w(v)); break; }
	default: { OP("vecs", a); SV v = T.getVectorOfStrings(k); R(Arr().i(1).sub(bsv(v))); break; }
	} } catch (ConfigurationTableKeyNotFound &) { R(Arr().i(0)); } }
static void showall(ConfigurationTable &T) { OP("all"); ConfigurationRecordMap m = T.getAllPairs(); Arr q; for (ConfigurationRecordMap::iterator i = m.begin(); i != m.end(); ++i) { Arr e; e.b(i->first).i(i->second.defined()).b(i->second.value()); q.sub(e); } R(Arr().sub(q)); }
static void conf_tlc(long h) {
	std::string f = dbfile(); rmdb(f); static const char *K1[] = {"plain", "it's", "a_b", "x y"}, *K2[] = {"s1", "Log.Level", "o'2", "a%b"}; std::string k[3] = {"", K1[rn(4)], K2[rn(4)]};
	ConfigurationKeyMap m; m[k[2]] = mkkey(k[2], rn(3) ? "77" : ""); vclock = 1700000000000ll; ConfigurationTable *t = 0; int seq = 1, lock = 0; if (sqlite3_open(f.c_str(), &lockdb)) _exit(77);
	auto op = [&]() { delete t; ConfigurationKeyMap full; { ConfigurationTable tmp(":memory:", 0, m); full = tmp.mSchema; } OP("open", Arr().sub(schemaArr(full))); t = new ConfigurationTable(f.c_str(), 0, m); R(); };
	op();
	for (const Cmd &c : script(h)) {
		if (c.op == "set") { std::string v = c.a[1] ? std::to_string(seq++) : ""; OP("set", Arr().b(k[c.a[0]]).b(v)); R(Arr().i(t->set(k[c.a[0]], v))); }
		else if (c.op == "rem") { OP("rem", Arr().b(k[c.a[0]])); R(Arr().i(t->remove(k[c.a[0]]))); }
		else if (c.op == "get") show(*t, k[c.a[0]], c.a[1] ? c.a[1] : rn(4));
		else if (c.op == "all") showall(*t); else if (c.op == "purge") { OP("purge"); t->purge(); R(); } else if (c.op == "reopen") op(); else if (c.op == "busy") busy(lock = c.a[0]); else abort();
	}
	if (lock) { show(*t, k[1], 0); show(*t, k[2], 0); busy(0); }
	show(*t, k[1], 0); show(*t, k[2], 0); showall(*t); delete t; sqlite3_close(lockdb); lockdb = 0; vclock = -1; rmdb(f);
}
static void vis_tlc(long h) {
	std::string f = dbfile(); rmdb(f); vclock = 1700000000000ll + rn(1000); long long t0 = vclock; static const char *kp[] = {"k1", "k2", "s1", "s2"};
	ConfigurationKeyMap m; m["s1"] = mkkey("s1", "100"); m["s2"] = mkkey("s2", "200"); ConfigurationTable *T[2]; for (int i = 0; i < 2; i++) T[i] = new ConfigurationTable(f.c_str(), 0, m); if (sqlite3_open(f.c_str(), &rawdb)) abort();
	int swap = rn(2) * 2, seqno = 1;
	auto run = [&](const std::string &o, int x, int t) {
		if (o == "adv") { vclock += x; return; }
		int kk = (x - 1 + swap) % 4 + 1; std::string k = kp[kk - 1]; Arr a; a.i(vclock - t0).i(t + 1).i(kk); char b[16]; snprintf(b, 16, "%d", seqno);
		if (o == "rset") { std::string v = b; OP("rset", a.i(seqno++)); rawexec("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING) VALUES (?,?)", k, &v); R(); }
		else if (o == "rdel") { OP("rdel", a); rawexec("DELETE FROM CONFIG WHERE KEYSTRING=?", k, 0); R(); }
		else if (o == "tset") { OP("tset", a.i(seqno++)); R(Arr().i(T[t]->set(k, std::string(b)))); }
		else if (o == "trem") { OP("trem", a); R(Arr().i(T[t]->remove(k))); }
		else if (o == "tpurge") { OP("tpurge", a); T[t]->purge(); R(); }
		else if (o == "tget") { OP("tget", a); try { switch (rn(4)) { case 0: R(Arr().i(T[t]->getNum(k))); break; case 1: { if (T[t]->defines(k)) R(Arr().i(-1)); else R(Arr().i(0)); break; } case 2: { std::vector<unsigned> v = T[t]->getVector(k); R(Arr().i(v.size() ? (int)v[0] : 0)); break; } default: R(Arr().i(atoi(T[t]->getStr(k).c_str()))); } } catch (ConfigurationTableKeyNotFound &) { R(Arr().i(0)); } }
		else abort(); };
	for (const Cmd &c : script(h)) run(c.op, c.a[0], c.a.size() > 1 ? c.a[1] - 1 : 0);
	for (int q = 0; q < 3; q++) { for (int k = 1; k <= 3; k += 2) for (int t = 0; t < 2; t++) run("tget", k, t); run("adv", q ? 3000 : 2500, 0); }
	for (int i = 0; i < 2; i++) delete T[i]; sqlite3_close(rawdb); vclock = -1; rmdb(f);
}
// ------------------------------------------------------------------ C22
static std::string mut(std::string s, const char *al) { int l = strlen(al); for (int n = rn(3) ? 0 : 1 + rn(2); n > 0; n--) { size_t p = rn(s.size() + 1); switch (rn(4)) { case 0: s.insert(p, 1, rn(6) ? al[rn(l)] : (char)(33 + rn(94))); break; case 1: if (p < s.size()) s.erase(p, 1); break; case 2: if (p < s.size()) s[p] = al[rn(l)]; break; case 3: s += al[rn(l)]; break; } } return s; }
static std::string it(int v) { char b[16]; snprintf(b, 16, "%d", v); return b; }
static std::string gip() { std::string s; int n = rn(12) ? 4 : 3 + rn(3); for (int i = 0; i < n; i++) s += (i ? "." : "") + it(rn(8) ? rn(256) : rn(5) ? 250 + rn(8) : rn(1000)); return s; }
static std::string gport() { return it(rn(4) ? 1 + rn(65535) : rn(3) ? 65530 + rn(9) : rn(2) ? 0 : rn(100000)); }
static std::string itl(long v) { char b[24]; snprintf(b, 24, "%ld", v); return b; }
static std::string gnum(bool fl, long lo, long hi) { long v = rn(3) ? lo + (long)(rnd64() % (uint64_t)(hi - lo + 1)) : rn(2) ? lo - 1 + (int)rn(3) : hi - 1 + (int)rn(3); if (hi > 1000000 && rn(3) == 0) v = (rn(2) ? lo : hi) + ((long)rn(3) - 1) * (1l << (rn(2) ? 32 : rn(40))); if (!fl || rn(4) == 0) return itl(v); char b[40]; snprintf(b, 40, "%ld.%0*d", v, 1 + (int)rn(3), (int)rn(10)); return b; }
struct VK { ConfigurationKey::Type t; std::string vv; Rx x; int as, ae; long lo, hi; bool fl; SV ch; };
static VK gvk() { VK k; k.t = (ConfigurationKey::Type)rn(21); k.as = k.ae = k.lo = k.hi = 0; k.fl = false;
	switch (k.t) {
		case ConfigurationKey::CHOICE: case ConfigurationKey::CHOICE_OPT: { static const char *w[] = {"A", "AB", "ABC", "B", "0", "850", "900", "x-y", "a b", "Zed.1"}; int n = 1 + rn(5); for (int i = 0; i < n; i++) { k.ch.push_back(w[rn(10)]); k.vv += (i ? "," : "") + k.ch[i]; if (rn(2)) { k.vv += rn(4) ? std::string("|desc ") + w[rn(10)] : "|"; if (rn(4) == 0) k.vv += std::string("|") + w[rn(10)]; } } break; }
		case ConfigurationKey::STRING: case ConfigurationKey::STRING_OPT: { k.x = rx(1); k.as = rn(4) != 0; k.ae = rn(4) != 0; k.vv = std::string(k.as ? "^" : "") + "(" + k.x.s + ")" + (k.ae ? "$" : ""); break; }
		case ConfigurationKey::VALRANGE: { k.fl = rn(2); k.lo = (int)rn(300) - 100; k.hi = k.lo + rn(rn(2) ? 400 : 70000); if (k.fl) { char b[64]; snprintf(b, 64, "%ld.%d:%ld.%d", k.lo, (int)rn(10), k.hi + 1, (int)rn(10)); k.vv = b; } else { if (rn(3) == 0) { k.lo = (long)rnd64() >> (2 + rn(50)); k.hi = k.lo + (long)(rnd64() >> (2 + rn(50))); } k.vv = itl(k.lo) + ":" + itl(k.hi); } if (rn(3) == 0) k.vv += k.fl ? "(0.5)" : "(" + it(1 + rn(9)) + ")"; break; }
		default: break; }
	return k; }
static Arr vschema(const ConfigurationKeyMap &m, const std::vector<VK> &vk, const SV &names) { Arr a; for (ConfigurationKeyMap::const_iterator i = m.begin(); i != m.end(); ++i) { Arr e; e.b(i->first).b(i->second.getDefaultValue()).i(i->second.isStatic()).i(i->second.getType()).b(i->second.getValidValues()); int as = 0, ae = 0; Rx x; for (size_t j = 0; j < names.size(); j++) if (names[j] == i->first) { x = vk[j].x; as = vk[j].as; ae = vk[j].ae; } e.sub(x.t).i(as).i(ae); a.sub(e); } return a; }
static void valid(long) {
	ConfigurationKeyMap m; std::vector<VK> vk; SV names; int n = rn(12) ? 1 + rn(4) : 12 + rn(4);
	for (int i = 0; i < n; i++) { VK k = gvk(); std::string nm = "V." + it(i); vk.push_back(k); names.push_back(nm); m[nm] = mkkey(nm, "dflt", k.t, k.vv); }
	{ ConfigurationTable tmp(":memory:", 0, m); OP("open", Arr().sub(vschema(tmp.mSchema, vk, names))); }
	ConfigurationTable T(":memory:", 0, m); R();
	for (int q = 0; q < 30; q++) {
		int i = rn(n); VK &k = vk[i]; std::string nm = names[i], v; int info = -1; Arr a;
		if (rn(12) == 0) { int w = rn(6); a.b(nm); if (w == 0) { std::string p = rn(2) ? "" : "V"; OP("similar", Arr().b(p)); ConfigurationKeyMap mm = T.getSimilarKeys(p); Arr z; for (ConfigurationKeyMap::iterator j = mm.begin(); j != mm.end(); ++j) { Arr e; e.b(j->first).b(j->second.getDefaultValue()); z.sub(e); } R(Arr().sub(z)); }
			else if (w == 1) { OP("all"); ConfigurationRecordMap mm = T.getAllPairs(); Arr z; for (ConfigurationRecordMap::iterator j = mm.begin(); j != mm.end(); ++j) { Arr e; e.b(j->first).i(j->second.defined()).b(j->second.value()); z.sub(e); } R(Arr().sub(z)); }
			else if (w == 2) { OP("str", a); R(Arr().i(1).b(T.getStr(nm))); }
			else if (w == 3) { OP("insch", Arr().b(std::string("nope"))); R(Arr().i(T.keyDefinedInSchema("nope"))); }
			else if (w == 4 && k.t == ConfigurationKey::VALRANGE) { OP("minmax", a); std::string x, y, z; ConfigurationKey::getMinMaxStepping(T.mSchema[nm], x, y, z); R(Arr().b(x).b(y).b(z)); }
			else { std::string u = rn(2) ? "nope" : "V." + it(9); OP("valid", Arr().b(u).b(std::string("1")).i(-1)); R(Arr().i(T.isValidValue(u, "1"))); OP("insch", Arr().b(u)); R(Arr().i(T.keyDefinedInSchema(u))); }
			continue; }
		switch (k.t) {
			case ConfigurationKey::BOOLEAN: v = rn(2) ? it(rn(3)) : mut(it(rn(2)), "01 truefals"); break;
			case ConfigurationKey::CHOICE: case ConfigurationKey::CHOICE_OPT: v = k.ch[rn(k.ch.size())]; if (rn(3) == 0) { static const char *w[] = {"A", "AB", "ABC", "B", "0", "850", "900", "x-y", "a b", "Zed.1", "desc A", "desc 0", "A,B", "A|desc A"}; v = w[rn(14)]; } else v = mut(v, "AB|,a 0"); break;
			case ConfigurationKey::CIDR: case ConfigurationKey::CIDR_OPT: v = mut(gip() + "/" + it(rn(5) ? rn(33) : rn(2) ? 31 + rn(4) : rn(300)), "0123./ -xa"); break;
			case ConfigurationKey::FILEPATH: case ConfigurationKey::FILEPATH_OPT: v = mut(rs("ab/Z_.-09", 8), "ab/. :~\n\x80*"); break;
			case ConfigurationKey::HOSTANDPORT: case ConfigurationKey::HOSTANDPORT_OPT: v = mut((rn(2) ? gip() : rs("abc.-_Z9", 6)) + ":" + gport(), "0123.:/ -xa"); break;
			case ConfigurationKey::IPADDRESS: case ConfigurationKey::IPADDRESS_OPT: v = mut(gip(), "0123.:/ -xa"); break;
			case ConfigurationKey::IPANDPORT: v = mut(gip() + ":" + gport(), "0123.:/ -xa"); break;
			case ConfigurationKey::MIPADDRESS: case ConfigurationKey::MIPADDRESS_OPT: { int c = 1 + rn(4); for (int j = 0; j < c; j++) v += (j ? " " : "") + gip() + (rn(2) ? ":" + gport() : ""); v = mut(v, "0123.:,/-x"); break; }
			case ConfigurationKey::PORT: case ConfigurationKey::PORT_OPT: v = mut(gport(), "0123456789 -+.x"); break;
			case ConfigurationKey::REGEX: case ConfigurationKey::REGEX_OPT: { v = rx(2).s; info = 1; if (rn(3) == 0) { static const char *bad[] = {"(", "[a", "a{2,1}", "(a", "[b-a]", "[[:nope:]]", "((a)", "a{1,2"}; v += bad[rn(7)]; info = 0; } break; }
			case ConfigurationKey::STRING: case ConfigurationKey::STRING_OPT: v = rs(rn(4) ? "abcAB 01" : "abA\n", 7); break;
			case ConfigurationKey::VALRANGE: v = gnum(rn(5) ? k.fl : !k.fl, k.lo, k.hi); if (rn(4) == 0) v = mut(v, "0123456789-. x+"); break; }
		if (rn(15) == 0 && k.t != ConfigurationKey::REGEX && k.t != ConfigurationKey::REGEX_OPT) v = ""; if ((k.t == ConfigurationKey::REGEX || k.t == ConfigurationKey::REGEX_OPT) && rn(10) == 0) { v = ""; }
		if (rn(40) == 0 && v.size()) { v += '\0'; v += "x"; }
		OP("valid", Arr().b(nm).b(v).i(info)); R(Arr().i(info < 0 && v == it(atoi(v.c_str())) && rn(2) ? T.isValidValue(nm, atoi(v.c_str())) : T.isValidValue(nm, v)));
	}
}
// ------------------------------------------------------------------ C24
static Arr dumprows(sqlite3 *db) { Arr a; sqlite3_stmt *s; if (sqlite3_prepare_v2(db, "SELECT KEYSTRING,VALUESTRING,STATIC,OPTIONAL,COMMENTS FROM CONFIG ORDER BY rowid", -1, &s, 0)) { Arr e; e.b(std::string("no table")); a.sub(e); return a; }
	while (sqlite3_step(s) == SQLITE_ROW) { Arr e; for (int c = 0; c < 5; c++) { if (c == 2 || c == 3) e.i(sqlite3_column_int(s, c)); else e.b(sqlite3_column_blob(s, c), sqlite3_column_bytes(s, c)); } a.sub(e); } sqlite3_finalize(s); return a; }
static void gensql(long) {
	ConfigurationKeyMap m; int n = rn(5); SV names; static const char *kn[] = {"a'b", "A_B^c", "x\"y", "GSM.X", "a_b", "--k", "N;M", "VALUESTRING", "k k", "^^__", "it's"};
	for (int i = 0; i < n; i++) { std::string nm = kn[rn(11)]; names.push_back(nm); m[nm] = ConfigurationKey(nm, value(), "u", (ConfigurationKey::VisibilityLevel)rn(6), (ConfigurationKey::Type)rn(21), "", rn(2), rn(3) ? rs("ab'\"_^;- ", 10) : value().substr(0, 20)); }
	{ for (auto &e : m) { std::string d = e.second.getDescription(); for (char &c : d) if (c == 0) c = ' '; if (rn(4) == 0) d += std::string("\n") + rs("ab'\"; \n", 6); e.second = ConfigurationKey(e.first, e.second.getDefaultValue(), "u", e.second.getVisibility(), e.second.getType(), "", e.second.isStatic(), d); } }
	ConfigurationTable T(":memory:", 0, m); Arr sch; for (auto &e : T.mSchema) { Arr q; q.b(e.first).b(e.second.getDefaultValue()).i(e.second.isStatic()).i(e.second.getVisibility()).b(e.second.getDescription()); sch.sub(q); }
	OP("sch", Arr().sub(sch)); R();
	sqlite3 *db; sqlite3_open(":memory:", &db); int pre = rn(3);
	if (pre) { sqlite3_exec(db, "CREATE TABLE CONFIG ( KEYSTRING TEXT UNIQUE NOT NULL, VALUESTRING TEXT, STATIC INTEGER DEFAULT 0, OPTIONAL INTEGER DEFAULT 0, COMMENTS TEXT DEFAULT '')", 0, 0, 0); rawdb = db;
		for (int i = rn(4); i > 0; i--) { std::string k = rn(2) && n ? names[rn(n)] : rn(2) ? BUILTIN[rn(4)] : "other", v = value(); rawexec("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,STATIC,OPTIONAL,COMMENTS) VALUES (?,?,1,1,'old')", k, &v); } }
	for (int times = 1 + rn(2); times > 0; times--) { sqlite3_stmt *s; bool table = sqlite3_prepare_v2(db, "SELECT 1 FROM CONFIG", -1, &s, 0) == 0; sqlite3_finalize(s); Arr before; if (table) before = dumprows(db);
		OP("sql", Arr().sub(before)); std::string sql = T.getDefaultSQL("prog's", "1.0 \"x\""); bool nul = sql.find('\0') != std::string::npos; int rc = sqlite3_exec(db, sql.c_str(), 0, 0, 0); R(Arr().i(rc == 0 && !nul).i(sqlite3_get_autocommit(db)).sub(dumprows(db))); }
	OP("tex"); std::string tex = T.getTeX("prog", "1.0"); Arr z; int sec = -1; std::istringstream is(tex); std::string line;
	while (getline(is, line)) { size_t p; if ((p = line.find("\\section{")) != std::string::npos) sec = line.find("Site") != std::string::npos ? 0 : line.find("Tun") != std::string::npos ? 1 : line.find("Developer") != std::string::npos ? 2 : 3;
		else if ((p = line.find("\\item \\texttt{")) == 1) { std::string k = line.substr(p + 14); size_t q = k.find("} -- "); k = q == std::string::npos ? "?" : k.substr(0, q); std::string u; for (size_t i = 0; i < k.size(); i++) { if (k[i] == '\\' && i + 1 < k.size() && (k[i + 1] == '_' || k[i + 1] == '^')) i++; u += k[i]; } Arr e; e.i(sec).b(u); z.sub(e); } }
	R(Arr().sub(z));
	sqlite3_close(db);
}
// ------------------------------------------------------------------ C27
static std::string it_num() { return numtext().substr(0, 12); }
static void kv(long) {
	SimpleKeyValue S; std::string cx, cy = collide(cx), lx(70, 'n'); for (size_t i = cx.size(); i-- > 0;) if (cx[i] == '=') cx = cy = "q"; std::string ly = lx + "n"; const char *K[] = {"a", "b", "ab", "", "k=", "A", "a.b", cx.c_str(), cy.c_str(), lx.c_str(), ly.c_str(), "b"}; int n = 5 + rn(25);
	for (int i = 0; i < n; i++) {
		std::string k = K[rn(rn(2) ? 7 : 11)]; Arr a; a.b(k);
		switch (rn(9)) {
			case 0: { std::string s; int c = rn(6); for (int j = 0; j < c; j++) { s += j || rn(8) == 0 ? std::string(1 + (rn(5) == 0), ' ') : ""; std::string it = std::string(K[rn(rn(2) ? 7 : 11)]) + (rn(5) ? "=" : "") + (rn(2) ? it_num() : rs("ab=.-", 4)); s += it; } OP("items", Arr().b(s)); S.addItems(s.c_str()); R(); break; }
			case 1: case 2: { std::string s = std::string(K[rn(rn(2) ? 7 : 11)]) + (rn(6) ? "=" : "") + (rn(2) ? it_num() : rs("ab= .-\xe9", 5)); OP("item", Arr().b(s)); S.addItem(s.c_str()); R(); break; }
			case 3: { OP("get", a); const char *v = S.get(k.c_str()); if (v) R(Arr().i(1).b(v, strlen(v))); else R(Arr().i(0)); break; }
			case 4: { OP("strb", a); try { R(Arr().i(1).b(S.getStrOrBust(k.c_str()))); } catch (SimpleKeyValueException &) { R(Arr().i(0)); } break; }
			case 5: case 6: { OP("numb", a); try { long v = S.getNumOrBust(k.c_str()); R(Arr().i(1).w(v)); } catch (SimpleKeyValueException &) { R(Arr().i(0)); } break; }
			default: { bool valid = rn(2); OP("numv", a); long v = S.getNum(k.c_str(), valid); R(Arr().i(valid).w(v).i(1)); break; }
		}
	}
}
int main(int argc, char **argv) { SeqScenario sc[] = {{"conf", conf, 0}, {"vis", vis, 0}, {"conf_tlc", conf_tlc, -1}, {"vis_tlc", vis_tlc, -1}, {"valid", valid, 0}, {"gensql", gensql, 0}, {"kv", kv, 0}}; return seq_main(argc, argv, sc, 7); }
