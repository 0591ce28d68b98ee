// C50 host names resolved by several threads with a resolver that has one static result
#define SOCK_PLAIN_RESOLVER
#include "Sockets.cpp"
#include "Configuration.h"
ConfigurationTable gConfig;
#include "cc.h"
static const unsigned char ADDR[10][4] = {{127, 0, 0, 1}, {10, 1, 2, 3}, {10, 1, 2, 4}, {192, 168, 0, 7}, {1, 1, 1, 1}, {2, 2, 2, 2}, {3, 3, 3, 3}, {4, 4, 4, 4}, {5, 5, 5, 5}, {0}};
extern "C" struct hostent *gethostbyname(const char *n) {
	static struct hostent h; static char buf[4]; static char *l[2] = {buf, 0}; vs_yield(); int k = atoi(n + 1); memset(buf, 0, 4); vs_yield(); if (k >= 9) { h_errno = HOST_NOT_FOUND; return 0; }
	h.h_name = buf; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = l; memcpy(buf, ADDR[k], 4); return &h; }
extern "C" struct hostent *gethostbyname2(const char *n, int) { return gethostbyname(n); }
static void run(void *, const PThread &p) { for (size_t i = 0; i < p.size(); i++) { int k = p[i].a; char nm[40]; struct sockaddr_in a; memset(&a, 0, sizeof a); CALL("match", "0,%d", k); bool ok; if (p[i].b) { snprintf(nm, sizeof nm, "h%d:%d", k, 100 + k); ok = resolveAddress(&a, nm); } else { snprintf(nm, sizeof nm, "h%d", k); ok = resolveAddress(&a, nm, 100 + k); }
	const unsigned char *b = (const unsigned char *)&a.sin_addr; RET("%d", !ok ? -1 : a.sin_family == AF_INET && ntohs(a.sin_port) == 100 + k ? (b[0] << 16 | b[1] << 8 | b[3]) : -2); } }
static void resolve(int) {
	std::string s; for (int i = 0; i < 10; i++) { char b[16]; const unsigned char *x = ADDR[i]; snprintf(b, 16, "%s%d", i ? "," : "", i == 9 ? -1 : x[0] << 16 | x[1] << 8 | x[3]); s += b; }
	ev_init(s.c_str()); Prog p(2 + vs_prand(2)); for (size_t t = 0; t < p.size(); t++) { int n = 1 + vs_prand(2); for (int i = 0; i < n; i++) { POp o = {0, (int)vs_prand(10), (int)vs_prand(2), 0}; p[t].push_back(o); } }
	run_prog(p, run, 0);
}
int main(int argc, char **argv) { VsScenario SC[] = {{"resolve", resolve}}; return vs_main(argc, argv, SC, 1); }
