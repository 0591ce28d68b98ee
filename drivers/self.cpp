// C51 program registration, clean-up at exit, signal handlers: several real processes in a scratch directory
#include "UnixSignal.cpp"
#include "SelfDetect.h"
#include "Configuration.h"
#include "seq.h"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sys/resource.h>
#include <sys/socket.h>
ConfigurationTable gConfig; UnixSignal gSigVec; SelfDetect gSelf;
extern "C" const char *__asan_default_options() { return "handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0"; }
extern "C" void syslog(int, const char *, ...) {}
// ---- what a process shares with the one that watches it
struct Me { volatile int pauseAt, calls, paused, release, killAt, sigcalls, nlog, log[100], nother, muted; volatile int ncore; char core[4][300]; pid_t pid; };
static Me *me;
template <class F> static F nx(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
// ---- file names in /var/run are redirected to the scratch directory; calls on them can be paused
static __thread char rb[8][5000]; static __thread int ri;
static const char *rd(const char *p) { static const char R[] = "/var/run/"; if (!p || strncmp(p, R, 9)) return p; char *b = rb[ri++ % 8]; snprintf(b, 5000, "./%s", p + 9); return b; }
static void point(const char *p) { if (!me || me->pid != getpid() || !p || strncmp(p, "/var/run/", 9)) return; int n = ++me->calls; if (n == me->pauseAt) { me->paused = 1; while (!me->release) usleep(50); } }
static void after(const char *p) { int e = errno; point(p); errno = e; }
#define RD(ret, name, args, call, path) extern "C" ret name args { typedef ret (*F) args; static F f = nx<F>(#name); point(path); ret r = f call; after(path); return r; }
extern "C" int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); static auto f = nx<int (*)(const char *, int, ...)>("open"); point(p); int r = f(rd(p), fl, m); after(p); return r; }
extern "C" int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); static auto f = nx<int (*)(const char *, int, ...)>("open64"); point(p); int r = f(rd(p), fl, m); after(p); return r; }
extern "C" int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); static auto f = nx<int (*)(int, const char *, int, ...)>("openat"); point(p); int r = f(d, rd(p), fl, m); after(p); return r; }
RD(int, creat, (const char *p, mode_t m), (rd(p), m), p)
RD(FILE *, fopen, (const char *p, const char *m), (rd(p), m), p)
RD(FILE *, fopen64, (const char *p, const char *m), (rd(p), m), p)
RD(int, stat, (const char *p, struct stat *s), (rd(p), s), p)
RD(int, lstat, (const char *p, struct stat *s), (rd(p), s), p)
RD(int, stat64, (const char *p, struct stat64 *s), (rd(p), s), p)
RD(int, access, (const char *p, int m), (rd(p), m), p)
RD(int, unlink, (const char *p), (rd(p)), p)
RD(int, remove, (const char *p), (rd(p)), p)
RD(int, rename, (const char *p, const char *q), (rd(p), rd(q)), p)
RD(int, link, (const char *p, const char *q), (rd(p), rd(q)), q)
RD(int, symlink, (const char *p, const char *q), (p, rd(q)), q)
RD(int, truncate, (const char *p, off_t n), (rd(p), n), p)
extern "C" int system(const char *) { if (me) me->nother++; return 0; }
extern "C" int WriteCoreDump(const char *n) { if (me && me->ncore < 4) { snprintf(me->core[me->ncore], 300, "%s", n); me->ncore++; } return 0; }
extern "C" int kill(pid_t p, int s) { static auto f = nx<int (*)(pid_t, int)>("kill"); if (me && p != getpid()) _exit(98); return f(p, s); }
static void didsig(int s) { if (!me || me->pid != getpid() || s == 17 || s == 18 || s == 23 || s == 28 || (s >= 20 && s <= 22)) return; if (++me->sigcalls == me->killAt) { static auto f = nx<int (*)(pid_t, int)>("kill"); f(getpid(), s); } }
extern "C" sighandler_t signal(int s, sighandler_t h) { static auto f = nx<sighandler_t (*)(int, sighandler_t)>("signal"); sighandler_t r = f(s, h); if (r != SIG_ERR && h != SIG_DFL && h != SIG_IGN) didsig(s); return r; }
extern "C" int sigaction(int s, const struct sigaction *a, struct sigaction *o) { static auto f = nx<int (*)(int, const struct sigaction *, struct sigaction *)>("sigaction"); int r = f(s, a, o); if (r == 0 && a && a->sa_handler != SIG_DFL && a->sa_handler != SIG_IGN) didsig(s); return r; }
// ---- a process taking commands
static char pidfile[6000];
template <int N> static void handler(int s) { if (me && !me->muted && me->nlog < 99) { me->log[me->nlog] = s * 10 + N + (pidfile[0] && access(pidfile, 0) == 0 ? 5 : 0); me->nlog++; } }
static void (*const HAND[])(int) = {handler<0>, handler<1>, handler<2>, handler<3>};
struct Order { int op, a, b; char s[5000]; };
enum { REG, FIL, HAN, QUIT, GONE, FAULT, ABRT, FULL };
static void serve(int fd) {
	Order c; int rep = 0;
	while (read(fd, &c, sizeof c) == (ssize_t)sizeof c) {
		switch (c.op) {
			case FULL: { struct rlimit l = {0, 0}; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); }	// no room for the number
			case REG: { const char *b = strrchr(c.s, '/'); snprintf(pidfile, sizeof pidfile, "%s.pid", b ? b + 1 : c.s); gSelf.RegisterProgram(c.s); break; }
			case FIL: gSelf.RegisterFile(c.s); break;
			case HAN: gSigVec.Register(HAND[c.b], c.a); break;
			case QUIT: exit(c.a);
			case GONE: { pid_t k = fork(); if (k == 0) { me->muted = 1; if (c.a) { kill(getpid(), c.a); pause(); } exit(0); } int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR); me->muted = 0; break; }	// a child of the registered process ends
			case FAULT: { volatile int *p = (volatile int *)c.a; *p = 1; break; }
			case ABRT: abort();
		}
		if (write(fd, &rep, sizeof rep) != sizeof rep) break;
	}
	_exit(97);
}
static const char *const LEFT[] = {"junk\n", "junk\n", "", "4999999\n"};	// what files have in them: also that of a process cut short, or of one long gone
struct Proc { pid_t pid; int fd; Me *m; bool live, reg; };
enum { NP = 4 }; static Proc P[NP]; static std::string corefile; static int corepid, save; static std::map<pid_t, int> who; static int gen;
static void start(int i) {
	Proc &p = P[i]; p.m = (Me *)mmap(0, sizeof(Me), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(p.m, 0, sizeof(Me)); int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort();
	pid_t k = fork();
	if (k == 0) { alarm(40); for (auto &q : P) if (q.live) close(q.fd); close(sv[0]); struct rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l); if (geteuid() == 0) { if (setgid(65534) || setuid(65534)) _exit(96); } gConfig.set("Core.File", corefile); gConfig.set("Core.Pid", corepid ? "1" : "0"); gConfig.set("Core.TarFile", "t"); gConfig.set("Core.SaveFiles", save ? "1" : "0"); p.m->pid = getpid(); me = p.m; SQ = 0; serve(sv[1]); }
	close(sv[1]); p.pid = k; p.fd = sv[0]; p.live = true; p.reg = false; while (!p.m->pid) usleep(20); who[k] = ++gen;
}
static void tell(int i, int op, int a = 0, int b = 0, const std::string &s = "") { Order c; memset(&c, 0, sizeof c); c.op = op; c.a = a; c.b = b; strcpy(c.s, s.c_str()); ssize_t n = write(P[i].fd, &c, sizeof c); (void)n; }
// how a command or signal ended: [0] still there, [1,n] by signal n, [2,c] exit code c; then the handlers called, the core files
static void gone(int i) { close(P[i].fd); P[i].live = false; }
static Arr outcome(int i, int st) {	Proc &p = P[i]; Arr a; if (st == -1) a.i(0).i(0); else if (WIFSIGNALED(st)) a.i(1).i(WTERMSIG(st)); else a.i(2).i(WEXITSTATUS(st)); Arr l; for (int k = 0; k < p.m->nlog; k++) l.i(p.m->log[k]); Arr c; for (int k = 0; k < p.m->ncore; k++) { std::string n = p.m->core[k], x = "." + std::to_string(p.pid); if (n.size() > x.size() && n.substr(n.size() - x.size()) == x) n = n.substr(0, n.size() - x.size()) + ".P"; c.b(n); } a.sub(l).sub(c); p.m->nlog = 0; p.m->ncore = 0; if (st != -1) gone(i); return a; }
static int waitfor(int i, bool paused = false) {	// -1 answered, -2 paused, else status
	for (;;) { int st; if (waitpid(P[i].pid, &st, WNOHANG) == P[i].pid) return st; if (paused && P[i].m->paused) return -2; int r; if (recv(P[i].fd, &r, sizeof r, MSG_DONTWAIT) == sizeof r) return -1; usleep(30); } }
static void ls() { OP("ls"); std::vector<std::pair<std::string, int>> v; DIR *d = opendir("."); while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::ifstream f(n); std::string c((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); int o = -1; for (auto l : LEFT) if (c == l) o = 0; if (o == 0); else for (auto &w : who) if (c == std::to_string(w.first) + "\n") o = w.second; v.push_back(std::make_pair(n, o)); } closedir(d); std::sort(v.begin(), v.end()); Arr a; for (auto &x : v) a.sub(Arr().b(x.first).i(x.second)); R(a); }
static void self(long h) {
	char old[1000]; if (!getcwd(old, sizeof old)) abort(); std::string dir = "run" + std::to_string(getpid()) + "_" + std::to_string(h); mkdir(dir.c_str(), 0777); chmod(dir.c_str(), 0777); if (chdir(dir.c_str())) abort(); umask(0);
	who.clear(); gen = 0; memset(P, 0, sizeof P); corefile = rn(2) ? "cf" : rn(2) ? "dir/core" : std::string("dir/") + std::string(40 + rn(200), 'c'); corepid = rn(2); save = rn(2); OP("conf", Arr().b(corefile).i(corepid)); R();
	std::string names[3] = {"prog", "/usr/bin/other", "./prog"}; if (rn(4) == 0) names[1] = std::string(70 + rn(60), 'n') + "z"; if (rn(8) == 0) names[2] = names[1] + "y"; if (rn(15) == 0) names[2] = std::string(255 + rn(1000), 'q'); if (rn(20) == 0) names[2] = "./a/"; if (rn(10) == 0) names[0] = "pr%sog %d";
	std::string files[4] = {"f0", "f1", "/var/run/f2", std::string(150, 'g')}; auto key = [](const std::string &f) { return f.compare(0, 9, "/var/run/") ? f : f.substr(9); };
	static const int TERM[] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 35, 36, 50, 61, 62, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31, 34, 40, 63}; int fav = (int[]){2, 15, 6, 11, 13, 1}[rn(6)]; auto sig = [&]() { return rn(3) == 0 ? fav : rn(4) ? TERM[rn(sizeof TERM / sizeof *TERM)] : (int[]){2, 15, 6, 11}[rn(4)]; };
	auto junk = [&](const std::string &f) { std::ofstream o(f.c_str()); o << LEFT[rn(4)]; o.close(); chmod(f.c_str(), 0666); };
	static auto rkill = nx<int (*)(pid_t, int)>("kill");
	int n = 8 + rn(14), lastS[NP] = {0}, lastB[NP] = {0};
	for (int j = 0; j < n; j++) {
		int i = rn(NP); if (j < 2 || !P[i].live) { for (i = 0; i < NP && P[i].live; i++); if (i == NP) i = rn(NP); if (!P[i].live) { start(i); lastS[i] = 0; OP("start", Arr().i(i).i(gen)); R(); if (rn(4)) continue; } }
		int k = rn(22); if (k >= 14 && k < 20 && !P[i].reg && rn(3)) { int c[NP], m = 0; for (int q = 0; q < NP; q++) if (P[q].live && P[q].reg) c[m++] = q; if (m) i = c[rn(m)]; } Proc &p = P[i];
		if (k < 6) { if (p.reg) { if (rn(2)) continue; k = 8; } else { std::string nm = names[rn(3)]; int how = rn(12);
			if (how == 0) { OP("regfull", Arr().i(i).b(nm)); tell(i, FULL, 0, 0, nm); R(outcome(i, waitfor(i))); }
			else if (how == 1) { OP("regro", Arr().i(i).b(nm)); chmod(".", 0755); tell(i, REG, 0, 0, nm); int st = waitfor(i); chmod(".", 0777); p.reg = st == -1; R(outcome(i, st)); }
			else if (how < 4) { p.m->killAt = 1 + rn(59); OP("regkill", Arr().i(i).b(nm)); p.m->sigcalls = 0; tell(i, REG, 0, 0, nm); int st = waitfor(i); p.m->killAt = 0; p.reg = st == -1; R(outcome(i, st)); }
			else if (how < 9) {	// several at once, each stopped at one of its steps, continued in some order
				std::vector<int> c; c.push_back(i); for (int q = 0; q < NP; q++) if (q != i && P[q].live && !P[q].reg && c.size() < 3) c.push_back(q); std::vector<int> st(c.size(), 0); std::vector<std::string> nn; Arr a; for (int q : c) { nn.push_back(rn(4) ? nm : names[rn(3)]); a.sub(Arr().i(q).b(nn.back())); } OP("regs", a);
				for (size_t x = 0; x < c.size(); x++) { Me *m = P[c[x]].m; m->calls = 0; m->paused = 0; m->release = 0; m->pauseAt = 1 + rn(6); tell(c[x], REG, 0, 0, nn[x]); st[x] = waitfor(c[x], true); }
				std::vector<int> ord; for (size_t x = 0; x < c.size(); x++) ord.push_back(x); for (size_t x = ord.size(); x > 1; x--) std::swap(ord[x - 1], ord[rn(x)]);
				for (int x : ord) { Me *m = P[c[x]].m; m->release = 1; if (st[x] == -2) st[x] = waitfor(c[x]); m->pauseAt = 0; }
				Arr r; for (size_t x = 0; x < c.size(); x++) { P[c[x]].reg = st[x] == -1; r.sub(outcome(c[x], st[x])); } R(r); }
			else { OP("reg", Arr().i(i).b(nm)); tell(i, REG, 0, 0, nm); int st = waitfor(i); p.reg = st == -1; R(outcome(i, st)); } ls(); continue; } }
		if (k < 9) { std::string f = files[rn(4)]; OP("file", Arr().i(i).b(key(f))); tell(i, FIL, 0, 0, f); R(outcome(i, waitfor(i))); }
		else if (k < 12) { int s = sig(), b = rn(4); if (rn(8) == 0) s = (int[]){0, -1, 64, 65, 1000, -5}[rn(6)]; if (rn(2) && lastS[i]) { s = lastS[i]; if (rn(2)) b = lastB[i]; } if (s > 0 && s < 64) { lastS[i] = s; lastB[i] = b; } OP("hand", Arr().i(i).i(s).i(b)); tell(i, HAN, s, b); R(outcome(i, waitfor(i))); }
		else if (k < 14) { std::string f = files[rn(4)]; if (access(f.c_str(), 0)) { OP("mk", Arr().b(key(f))); junk(key(f)); R(); } }
		else if (k == 14) { std::string f = names[rn(2)]; size_t s = f.rfind('/'); if (s != std::string::npos) f = f.substr(s + 1); f += ".pid"; bool owned = false; std::ifstream x(f.c_str()); pid_t o = 0; if (x >> o) for (auto &q : P) if (q.live && q.pid == o) owned = true; if (owned || f.size() > 255) continue; if (!access(f.c_str(), 0)) { OP("rm", Arr().b(f)); ::unlink(f.c_str()); R(); } else { OP("mk", Arr().b(f)); junk(f); R(); } }
		else if (k < 18) { int s = lastS[i] && rn(2) ? lastS[i] : sig(); int w = rn(8); if (w == 0) s = 9; if (w == 1 && p.reg) s = (int[]){17, 18, 23, 28, 20, 21, 22}[rn(7)]; OP("sig", Arr().i(i).i(s));
			bool soft = s == 17 || s == 18 || s == 23 || s == 28 || (s >= 20 && s <= 22);
			if (s == 11 && rn(2)) tell(i, FAULT); else if (s == 6 && rn(2)) tell(i, ABRT); else rkill(p.pid, s);
			int st; if (soft) { usleep(1500); rkill(p.pid, SIGCONT); tell(i, FIL, 0, 0, "f0"); st = waitfor(i); } else st = waitfor(i); R(outcome(i, st)); ls(); }
		else if (k < 20) { int c = rn(200); OP("exit", Arr().i(i).i(c)); tell(i, QUIT, c); R(outcome(i, waitfor(i))); ls(); }
		else { int s = rn(2) ? sig() : 0; OP("child", Arr().i(i).i(s)); tell(i, GONE, s); int st = waitfor(i); p.m->ncore = 0; R(outcome(i, st)); ls(); }
	}
	for (int i = 0; i < NP; i++) if (P[i].live) { OP("exit", Arr().i(i).i(0)); tell(i, QUIT, 0); R(outcome(i, waitfor(i))); ls(); }
	DIR *d = opendir("."); while (dirent *e = readdir(d)) if (e->d_name[0] != '.' || strlen(e->d_name) > 2) unlink(e->d_name); closedir(d); if (chdir(old)) abort(); rmdir(dir.c_str());
}
int main(int argc, char **argv) {
	for (int s = 1; s < 65; s++) if (s != 9 && s != 19 && s != 32 && s != 33) signal(s, SIG_DFL);	// we may have been started with signals ignored or blocked
	sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, 0);
	SeqScenario sc[] = {{"self", self, 0}}; return seq_main(argc, argv, sc, 1); }
