// C52 memory statistics, C53 console stream helpers and regular expressions, used by several threads
#include "Threads.h"
#include "Utils.h"
#include "MemoryLeak.h"
#include "Regexp.h"
#include "Configuration.h"
#include <sstream>
#include <streambuf>
ConfigurationTable gConfig;
#include "cc.h"
using namespace Utils;
// ---- memory statistics
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(ByteVector, MemCheckByteVector)
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(TBF, MemCheckTBF)
struct OA : public MemCheckByteVector { int v; }; struct OB : public MemCheckTBF { int v; };
enum { MNEW, MDEL, MREAD };
static int n0[2], t0[2], k0[2]; static const int idx[2] = {MemStats::mByteVector, MemStats::mTBF}; static const char *pre[2] = {"ByteVector_", "TBF_"};
static int keyed(int k) { int s = 0; for (MemStats::MemMapType::iterator i = gMemStats.mMemMap.begin(); i != gMemStats.mMemMap.end(); ++i) if (i->first.compare(0, strlen(pre[k]), pre[k]) == 0) s += i->second; return s; }
static void memrun(void *, const PThread &p) {
	std::vector<MemLabel *> o; std::vector<int> kind;
	for (size_t i = 0; i < p.size(); i++) switch (p[i].k) {
		case MNEW: { int k = p[i].a, lg = p[i].b; CALL("mnew", "%d,%d", k, lg); MemLabel *l = k ? (MemLabel *)new OB : (MemLabel *)new OA; if (lg) { if (k) { RN_MEMLOG(TBF, l); } else { RN_MEMLOG(ByteVector, l); } } o.push_back(l); kind.push_back(2 * k + lg); RET("%s", ""); break; }
		case MDEL: if (o.size()) { int j = p[i].a % o.size(); CALL("mdel", "%d,%d", kind[j] / 2, kind[j] % 2); delete o[j]; o.erase(o.begin() + j); kind.erase(kind.begin() + j); RET("%s", ""); } break;
		case MREAD: { CALL("mread", "%s", ""); std::ostringstream os; gMemStats.text(os); std::istringstream is(os.str()); std::string line; std::vector<int> v; getline(is, line);
			while (getline(is, line)) { char nm[100]; int a = -9, b = -9; sscanf(line.c_str(), " %99s %d %d", nm, &a, &b); v.push_back(a); v.push_back(b); } v.resize(2 * MemStats::mMax, -99);
			RET("%d,%d,%d,%d", v[2 * idx[0]] - n0[0], v[2 * idx[0] + 1] - t0[0], v[2 * idx[1]] - n0[1], v[2 * idx[1] + 1] - t0[1]); break; }
	}
	for (size_t j = 0; j < o.size(); j++) { CALL("mdel", "%d,%d", kind[j] / 2, kind[j] % 2); delete o[j]; RET("%s", ""); }
}
static void mem(int) {
	for (int k = 0; k < 2; k++) { n0[k] = gMemStats.mMemNow[idx[k]]; t0[k] = gMemStats.mMemTotal[idx[k]]; k0[k] = keyed(k); }
	ev_init(""); Prog p(2 + vs_prand(2)); int w[] = {4, 2, 1};
	for (size_t t = 0; t < p.size(); t++) { int n = 1 + vs_prand(4); for (int i = 0; i < n; i++) { POp o = {pick(w, 3), (int)vs_prand(2), (int)(vs_prand(4) != 0), 0}; p[t].push_back(o); } }
	run_prog(p, memrun, 0);
	CALL("mkeys", "%s", ""); RET("%d,%d", keyed(0) - k0[0], keyed(1) - k0[1]);
}
// ---- console streams: what the stream receives, piece by piece
struct Cap : std::streambuf { std::string s; std::streamsize xsputn(const char *b, std::streamsize n) { vs_yield(); s.append(b, n); vs_yield(); return n; } int overflow(int c) { vs_yield(); if (c != EOF) s += (char)c; return c; } int sync() { vs_yield(); return 0; } };
enum { OUT, ERR, OUTN, LOCKED, DOUT };
static std::string body(int t, int i, int k) { char b[200]; snprintf(b, sizeof b, "<%d|message %d of thread %d %x|%s>", 100 * t + i, i, t, 255 + i, k ? "xyz" : ""); return b; }
static void outrun(void *, const PThread &p) {
	for (size_t q = 0; q < p.size(); q++) { int t = vs_self(), i = (int)q; std::string e = p[q].a ? "xyz" : "";
		switch (p[q].k) {
		case OUT: CALL("out", "0,%d", 100 * t + i); COUT("<" << 100 * t + i << "|message " << i << " of thread " << t << " " << std::hex << 255 + i << "|" << e << ">"); RET("%s", ""); break;
		case DOUT: CALL("out", "0,%d", 100 * t + i); lockCout(); std::cout << "<" << 100 * t + i << "|message "; vs_yield(); std::cout << i << " of thread " << t << " " << std::hex << 255 + i << "|" << e << ">"; unlockCout(); RET("%s", ""); break;
		case ERR: CALL("out", "1,%d", 100 * t + i); CERR("<" << 100 * t + i << "|message " << i << " of thread " << t << " " << std::hex << 255 + i << "|" << e << ">"); RET("%s", ""); break;
		case LOCKED: CALL("out", "1,%d", 100 * t + i); lockCerr(); std::cerr << "<" << 100 * t + i; vs_yield(); std::cerr << "|message " << i << " of thread " << t << " " << std::hex << 255 + i; std::cerr << "|" << e << ">"; unlockCerr(); RET("%s", ""); break;
		}
	}
}
// the lines of the captured stream: the number of the message, or 0 if the line is not one whole message
static void lines(int which, const std::string &s, const Prog &p) {
	CALL("all", "%d", which); std::string r; size_t i = 0;
	while (i < s.size()) { size_t j = s.find('\n', i); bool full = j != std::string::npos; if (!full) j = s.size(); std::string l = s.substr(i, j - i); i = j + 1; int id = 0; size_t a = l.find('<');
		if (full && a != std::string::npos) { int k = atoi(l.c_str() + a + 1), t = k / 100, n = k % 100; if (t >= 1 && t <= (int)p.size() && n < (int)p[t - 1].size() && l.substr(a) == body(t, n, p[t - 1][n].a)) id = k; }
		char b[16]; snprintf(b, sizeof b, "%s%d", r.size() ? "," : "", id); r += b; }
	RET("%s", r.c_str());
}
static void console(int) {
	Cap *a = new Cap, *b = new Cap; std::streambuf *oa = std::cout.rdbuf(a), *ob = std::cerr.rdbuf(b);
	ev_init(""); Prog p(2 + vs_prand(2)); int w[] = {3, 2, 0, 2, 2};
	for (size_t t = 0; t < p.size(); t++) { int n = 1 + vs_prand(3); for (int i = 0; i < n; i++) { POp o = {pick(w, 5), (int)vs_prand(2), 0, 0}; p[t].push_back(o); } }
	run_prog(p, outrun, 0); std::cout.rdbuf(oa); std::cerr.rdbuf(ob);
	lines(0, a->s, p); lines(1, b->s, p);
}
// ---- one Regexp, several threads
static const char *texts[] = {"", "a", "ab", "abb", "xaby", "b", "12", "a1b", "zzz", "123abc"};
static void rexrun(void *v, const PThread &p) { Regexp *r = (Regexp *)v; for (size_t i = 0; i < p.size(); i++) { CALL("match", "%d,%d", p[i].b, p[i].a); bool m = r[p[i].b].match(texts[p[i].a]); RET("%d", (int)m); } }
static void rex(int) {
	Regexp r[2] = {Regexp("ab+"), Regexp("^([0-9]+|a)$")}; int exp[2][10]; std::string s;
	for (int k = 0; k < 2; k++) for (int i = 0; i < 10; i++) { const char *t = texts[i]; if (k == 0) exp[k][i] = strstr(t, "ab") != 0; else exp[k][i] = !strcmp(t, "a") || (*t && strspn(t, "0123456789") == strlen(t)); char b[8]; snprintf(b, 8, "%s%d", s.size() ? "," : "", exp[k][i]); s += b; }
	ev_init(s.c_str()); Prog p(2 + vs_prand(2)); for (size_t t = 0; t < p.size(); t++) { int n = 1 + vs_prand(3); for (int i = 0; i < n; i++) { POp o = {0, (int)vs_prand(10), (int)vs_prand(2), 0}; p[t].push_back(o); } }
	run_prog(p, rexrun, r);
}
int main(int argc, char **argv) { VsScenario SC[] = {{"mem", mem}, {"console", console}, {"rex", rex}}; return vs_main(argc, argv, SC, 3); }
