// C50 datagram sockets on the loopback and in the file system; the resolver is a table
#include "Sockets.cpp"
#include "Configuration.h"
#include "seq.h"
#include <poll.h>
#include <pthread.h>
#include <time.h>
#include <signal.h>
#include <sys/resource.h>
#include <linux/sock_diag.h>
ConfigurationTable gConfig;
extern "C" void syslog(int, const char *, ...) {}
// ---- the resolver: numeric addresses and a table of names
static const struct { const char *n; unsigned char a[4]; } HOSTS[] = {{"localhost", {127, 0, 0, 1}}, {"alpha", {10, 1, 2, 3}}, {"b-host.example.org", {192, 168, 0, 7}}, {"last", {255, 255, 255, 254}}};
static int lookup(const char *n, struct hostent *h, char *buf, size_t len, int *err) {	// 1 found
	unsigned char a[4]; bool ok = false; for (auto &x : HOSTS) if (!strcmp(n, x.n)) { memcpy(a, x.a, 4); ok = true; }
	if (!ok) { struct in_addr in; if (*n && inet_aton(n, &in)) { memcpy(a, &in, 4); ok = true; } }
	*err = ok ? 0 : HOST_NOT_FOUND; if (!ok) return 0; if (len < 4 * sizeof(char *) + 8 + strlen(n) + 1) return -1;
	char **l = (char **)buf; l[0] = buf + 4 * sizeof(char *); l[1] = l[0] + 4; l[2] = 0; l[3] = 0; memcpy(l[0], a, 4); a[3] ^= 1; memcpy(l[1], a, 4); strcpy(l[0] + 8, n);
	h->h_name = l[0] + 8; h->h_aliases = l + 3; h->h_addrtype = AF_INET; h->h_length = 4; h->h_addr_list = l; return 1; }
extern "C" int gethostbyname2_r(const char *n, int af, struct hostent *h, char *b, size_t l, struct hostent **r, int *e) { *r = 0; int k = strcmp(n, "trouble") ? lookup(n, h, b, l, e) : -2; if (k < 0) { *e = TRY_AGAIN; return k == -1 ? ERANGE : EAGAIN; } if (k && af == AF_INET) *r = h; return 0; }
extern "C" int gethostbyname_r(const char *n, struct hostent *h, char *b, size_t l, struct hostent **r, int *e) { return gethostbyname2_r(n, AF_INET, h, b, l, r, e); }
extern "C" struct hostent *gethostbyname2(const char *n, int) { static struct hostent h; static char b[4096]; int e; memset(&h, 0, sizeof h); memset(b, 0xee, sizeof b); if (!strcmp(n, "trouble")) { h_errno = TRY_AGAIN; return 0; } int k = lookup(n, &h, b, sizeof b, &e); h_errno = e; if (k <= 0) return 0; if (!strcmp(n, "sixer")) h.h_addrtype = AF_INET6; return &h; }
extern "C" struct hostent *gethostbyname(const char *n) { return gethostbyname2(n, AF_INET); }
// ---- names
static void res(long) {
	int n = 12; while (n--) {
		std::string host, port; int k = rn(12);
		if (k < 5) { for (int i = 0; i < 4; i++) host += (i ? "." : "") + std::to_string(rn(5) ? rn(256) : rn(3) ? (rn(2) ? 255 : 0) : 256 + rn(700)); if (rn(12) == 0) host += "." + std::to_string(rn(9)); if (rn(12) == 0) host += "x"; }
		else if (k < 9) host = HOSTS[rn(4)].n; else if (k == 9) host = "nosuch"; else if (k == 10) host = rn(2) ? "trouble" : ""; else { int c = rn(12); while (c--) host += "ab-.z09q"[rn(8)]; }
		unsigned p = rn(3) ? rn(65536) : rn(2) ? rn(70000) : (unsigned[]){0, 1, 80, 65535, 65536, 65537, 131072, 99999, 4294967295u, 1000}[rn(10)]; port = std::to_string(p); switch (rn(14)) { case 0: port = ""; break; case 1: port += "xyz:1 -"[rn(7)]; break; case 2: port = "-" + port; break; case 3: port = std::string("0x%q")[rn(4)] + port; break; case 4: port = "42949673" + std::to_string(10 + rn(90)); break; case 5: port = "1844674407370955" + std::to_string(1000 + rn(9000)); break; }
		struct sockaddr_in a; memset(&a, 0xa5, sizeof a); bool ok; 
		if (rn(3) == 0) { OP("res2", Arr().b(host).i(p & 65535)); ok = resolveAddress(&a, host.c_str(), (unsigned short)p); }
		else { std::string s = host; if (rn(12)) s += ":" + port; OP("res1", Arr().b(s)); ok = resolveAddress(&a, s.c_str()); }
		R(ok ? Arr().i(1).i(a.sin_family == AF_INET).b(&a.sin_addr, 4).i(ntohs(a.sin_port)) : Arr().i(0));
	}
}
// ---- sockets
struct U : UDPSocket { U(unsigned short p) : UDPSocket(p) {} U(unsigned short p, const char *ip, unsigned short q) : UDPSocket(p, ip, q) {} int fd() { return mSocketFD; } };
struct X : UDDSocket { X(const char *l, const char *r) : UDDSocket(l, r) {} int fd() { return mSocketFD; } };
enum { NS = 5 }; static U *us[NS]; static X *xs[NS]; static int shut[NS]; static std::string path[NS];
static DatagramSocket *sk(int i) { return us[i] ? (DatagramSocket *)us[i] : xs[i]; }
static int fd(int i) { return us[i] ? us[i]->fd() : xs[i]->fd(); }
static unsigned rmem(int i) { unsigned m[16] = {0}; socklen_t l = sizeof m; if (getsockopt(fd(i), SOL_SOCKET, 55 /*SO_MEMINFO*/, m, &l)) return 0; return m[0]; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec / 1e6; }
static std::string data(int big) { int n = big ? (rn(4) ? rn(1501) : 1498 + rn(5)) : rn(3) ? rn(12) : rn(100); std::string s(n, 0); int k = rn(4); for (int i = 0; i < n; i++) s[i] = k == 0 ? i * 7 : k == 1 ? (char)rn(256) : k == 2 ? 0 : 1 + rn(120); return s; }
static std::string cut(const std::string &s) { return s.substr(0, s.find('\0')); }
static Arr src(int i) { if (us[i]) { const sockaddr_in *a = us[i]->source(); return Arr().b(&a->sin_addr, 4).i(ntohs(a->sin_port)); } const sockaddr_un *a = xs[i]->source(); std::string p(a->sun_path, strnlen(a->sun_path, sizeof a->sun_path)); return Arr().b(p); }
static void readR(int i, char *b, int n, double t, unsigned timeout) { Arr r; r.i(n); if (n >= 0) { r.b(b, n > MAX_UDP_LENGTH ? MAX_UDP_LENGTH : n); r.sub(src(i)); } else r.i(t >= timeout); R(r); }
struct Late { int from, delay, back; std::string d; int ret; };
static void *late(void *v) { Late *l = (Late *)v; usleep(l->delay * 1000); l->ret = l->back ? sk(l->from)->writeBack(l->d.data(), l->d.size()) : sk(l->from)->write(l->d.data(), l->d.size()); return 0; }
// a signal caught while a read waits: the wait may end early only with an error
static void onAlarm(int) {}
static timer_t sigTimer;
static void alarmIn(int ms) { struct itimerspec v; memset(&v, 0, sizeof v); v.it_value.tv_nsec = ms * 1000000L; timer_settime(sigTimer, 0, &v, 0); }
static void socks(long) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sigaction(SIGUSR2, &sa, 0); struct sigevent se; memset(&se, 0, sizeof se); se.sigev_notify = SIGEV_SIGNAL; se.sigev_signo = SIGUSR2; timer_create(CLOCK_MONOTONIC, &se, &sigTimer);
	memset(us, 0, sizeof us); memset(xs, 0, sizeof xs); memset(shut, 0, sizeof shut); char *buf = (char *)malloc(MAX_UDP_LENGTH);
	int unixy = rn(2), n = 15 + rn(25), out = 0; std::string base = "s" + std::to_string(getpid()); std::vector<std::string> paths; for (int i = 0; i < 4; i++) { std::string p = base + "abcd"[i]; if (i == 1) p += "-rather-longer-name"; if (i == 3) p += std::string(107 - p.size(), 'L'); paths.push_back(p); }
	unsigned short fixedport = 20000 + getpid() % 1200 * 10;
	std::vector<std::pair<int,int>> held; auto hold = [&](int port) { if (!port) return; struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); int t = ::socket(AF_INET, SOCK_DGRAM, 0); if (!::bind(t, (sockaddr *)&a, sizeof a)) held.push_back(std::make_pair(port, t)); else ::close(t); };	// keeps a port from being given to other processes
	std::vector<int> hogs; if (rn(25) == 0) { struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); if (rl.rlim_max >= 2000) for (int i = 0; i < 1100; i++) hogs.push_back(dup(0)); }
	auto slot = [&](bool live) { int c[NS], m = 0; for (int i = 0; i < NS; i++) if (live ? sk(i) && !shut[i] : !sk(i)) c[m++] = i; return m ? c[rn(m)] : -1; };
	auto udps = [&]() { std::vector<int> v; for (int i = 0; i < NS; i++) if (us[i] && !shut[i]) v.push_back(i); return v.size() ? v[rn(v.size())] : -1; };
	auto settle = [&](unsigned *before) { double t0 = now(); while (now() - t0 < 300) { for (int i = 0; i < NS; i++) if (sk(i) && !shut[i] && rmem(i) > before[i]) return; usleep(50); } };
	auto sent = [&](int ret, unsigned *before) { if (ret >= 0 && !unixy) settle(before); if (ret >= 0) out++; };
	auto mem = [&](unsigned *b) { for (int i = 0; i < NS; i++) b[i] = sk(i) && !shut[i] ? rmem(i) : 0; };
	auto drain = [&]() { for (int i = 0; i < NS; i++) if (sk(i) && !shut[i]) { OP("nb", Arr().i(i).i(1)); sk(i)->nonblocking(); R(); for (int k = 0; k < 40; k++) { OP("read", Arr().i(i)); double t = now(); int m; try { m = sk(i)->read(buf); } catch (SocketError &) { RX("err"); break; } readR(i, buf, m, now() - t, 0); if (m < 0) break; } } out = 0; };
	for (int j = 0; j < n; j++) {
		static const int W[] = {5, 3, 8, 8, 4, 8, 3, 4, 2, 2, 2, 2, 2}; int s = 0, k = 0; for (int w : W) s += w; int r = rn(s); while (r >= W[k]) r -= W[k++];
		if (j < 3) k = 0; unsigned before[NS]; int i = slot(true); if (k != 0 && i < 0) continue; if (out > 7) drain(); bool cstr = rn(5) == 0; static const char *LO[] = {"127.0.0.1", "localhost", "127.0.0.2"}; const char *lo = LO[rn(3)];
		switch (k) {
			case 0: { int f = slot(false); if (f < 0) break; shut[f] = 0;
				if (!unixy) { int d = rn(2) ? udps() : -1; unsigned short lp = rn(4) ? 0 : fixedport + rn(8); if (lp) { for (auto &x : held) if (x.first == lp) { ::close(x.second); x.second = -1; x.first = 0; } int t = ::socket(AF_INET, SOCK_DGRAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(lp); if (::bind(t, (sockaddr *)&a, sizeof a)) lp = 0; ::close(t); }
					Arr a; a.i(f).i(lp); if (d >= 0) { a.sub(Arr().i(us[d]->port())); } else a.sub(Arr()); OP("udp", a); if (d >= 0) us[f] = new U(lp, lo, us[d]->port()); else us[f] = new U(lp); R(Arr().i(us[f]->port())); }
				else { std::string l = rn(6) ? paths[rn(4)] : rn(3) ? "" : paths[rn(4)] + std::string(108 + rn(200), 'o'), q = rn(2) ? paths[rn(4)] : ""; Arr a; a.i(f).b(l).b(q); OP("udd", a); try { xs[f] = new X(l.size() ? l.c_str() : 0, q.size() ? q.c_str() : 0); RX("ok"); } catch (SocketError &) { xs[f] = 0; RX("err"); } }
				break; }
			case 1: if (us[i]) { int d = udps(); OP("dest", Arr().i(i).i(us[d]->port())); us[i]->destination(us[d]->port(), lo); R(); }
				else { std::string q = rn(6) ? paths[rn(4)] : paths[rn(4)] + std::string(80 + rn(60), 'w'); OP("destu", Arr().i(i).b(q)); xs[i]->destination(q.c_str()); R(); } break;
			case 2: case 3: { std::string d = data(rn(6) == 0); if (cstr) d = cut(d); OP(k == 2 ? "write" : "back", Arr().i(i).b(d).i(cstr)); mem(before); int ret = k == 2 ? cstr ? sk(i)->write(d.c_str()) : sk(i)->write(d.data(), d.size()) : cstr ? sk(i)->writeBack(d.c_str()) : sk(i)->writeBack(d.data(), d.size()); sent(ret, before); R(Arr().i(ret)); break; }
			case 4: { std::string d = data(rn(6) == 0); if (cstr) d = cut(d); int ret; if (us[i]) { int t = udps(); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001); a.sin_port = htons(us[t]->port()); OP("send", Arr().i(i).b(d).i(cstr).i(us[t]->port())); mem(before); ret = cstr ? sk(i)->send((sockaddr *)&a, d.c_str()) : sk(i)->send((sockaddr *)&a, d.data(), d.size()); }
				else { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; std::string q = paths[rn(4)]; strcpy(a.sun_path, q.c_str()); OP("sendu", Arr().i(i).b(d).i(cstr).b(q)); mem(before); ret = cstr ? sk(i)->send((sockaddr *)&a, d.c_str()) : sk(i)->send((sockaddr *)&a, d.data(), d.size()); } sent(ret, before); R(Arr().i(ret)); break; }
			case 5: case 6: { bool lt = k == 6; unsigned to = rn(4) ? rn(25) : rn(3) ? 0 : rn(6) ? 26 + rn(40) : 1000 + rn(60); Late l; l.from = slot(true); l.delay = rn(3); l.back = l.from != i && rn(2); l.d = data(0); Arr a; a.i(i).i(to); if (lt) a.sub(Arr().i(l.from).i(l.back).b(l.d)); else a.sub(Arr()); int si = !lt && rn(6) == 0; if (si) { to = 15 + rn(40); a = Arr(); a.i(i).i(to).sub(Arr()); } a.i(si); OP("readt", a); pthread_t th; if (si) alarmIn(2 + rn(8)); double t = now(); if (lt) pthread_create(&th, 0, late, &l); int m; bool err = false; mem(before); try { m = sk(i)->read(buf, to); } catch (SocketError &) { err = true; } t = now() - t; alarmIn(0); if (lt) { pthread_join(th, 0); out++; if (!unixy) usleep(2500); } if (err) RX("err"); else readR(i, buf, m, t, to); break; }
			case 7: drain(); break;
			case 8: { int x = rn(2); OP("nb", Arr().i(i).i(x)); if (x) sk(i)->nonblocking(); else sk(i)->blocking(); R(); struct pollfd p = {fd(i), POLLIN, 0}; if (!x && poll(&p, 1, 0) != 1) break; OP("read", Arr().i(i)); double t = now(); int m = sk(i)->read(buf); readR(i, buf, m, now() - t, 0); break; }
			case 11: if (us[i]) { int pt = us[i]->port(); unsigned short lp = 0; OP("open", Arr().i(i).i(lp)); us[i]->open(lp); R(Arr().i(us[i]->port())); hold(pt); }
				else { std::string l = rn(8) ? paths[rn(4)] : paths[rn(4)] + std::string(108 + rn(200), 'o'); OP("openu", Arr().i(i).b(l)); try { xs[i]->open(l.c_str()); RX("ok"); } catch (SocketError &) { RX("err"); shut[i] = 1; } } break;
			case 12: { int f = slot(true); if (!us[i] || f == i) break; OP("dest", Arr().i(f).i(us[i]->port())); us[f]->destination(us[i]->port(), lo); R(); OP("nb", Arr().i(i).i(0)); sk(i)->blocking(); R(); Late l; l.from = f; l.delay = rn(3); l.back = 0; l.d = data(0); OP("readw", Arr().i(i).sub(Arr().i(f).i(0).b(l.d))); pthread_t th; pthread_create(&th, 0, late, &l); int m = sk(i)->read(buf); pthread_join(th, 0); out++; usleep(2500); readR(i, buf, m, 1, 0); break; }
			case 9: { int pt = us[i] ? us[i]->port() : 0; OP("close", Arr().i(i)); sk(i)->close(); shut[i] = 1; R(); hold(pt); break; }
			case 10: { int c[NS], m = 0; for (int q = 0; q < NS; q++) if (sk(q)) c[m++] = q; i = c[rn(m)]; int pt = us[i] && !shut[i] ? us[i]->port() : 0; OP("del", Arr().i(i)); delete us[i]; delete xs[i]; us[i] = 0; xs[i] = 0; shut[i] = 0; R(); hold(pt); break; }
		}
	}
	drain(); for (int i = 0; i < NS; i++) if (sk(i)) { OP("del", Arr().i(i)); delete us[i]; delete xs[i]; us[i] = 0; xs[i] = 0; R(); }
	timer_delete(sigTimer); for (int h : hogs) ::close(h); for (auto &x : held) if (x.second >= 0) ::close(x.second); for (auto &p : paths) unlink(p.c_str()); free(buf);
}
// ---- many sockets with ports assigned by the system: all different
static void many(long) { struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); std::vector<UDPSocket *> v; std::vector<int> p; int n = 600; OP("many", Arr().i(n)); for (int i = 0; i < n; i++) { v.push_back(new UDPSocket()); p.push_back(v.back()->port()); } std::sort(p.begin(), p.end()); int d = std::unique(p.begin(), p.end()) - p.begin(); for (auto x : v) delete x; R(Arr().i(d)); }
static void setup() { memset(us, 0, sizeof us); }
int main(int argc, char **argv) { seq_setup = setup; SeqScenario sc[] = {{"res", res, 0}, {"socks", socks, 0}, {"many", many, 0}}; return seq_main(argc, argv, sc, 3); }
