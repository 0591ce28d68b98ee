// Stand-ins for syslog: every record is kept; nothing leaves the process.
#ifndef LOGSINK_H
#define LOGSINK_H
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
static void sys_rec(int prio, const char *text);	// the driver's
extern "C" {
static void sys_v(int p, const char *f, va_list ap) { va_list b; va_copy(b, ap); int n = vsnprintf(0, 0, f, b); va_end(b); char *s = (char *)malloc(n + 1); vsnprintf(s, n + 1, f, ap); if (!strstr(s, "lockid=") && !strstr(s, "opening configuration table")) sys_rec(p, s); free(s); }
void ls_syslog(int p, const char *f, ...) asm("syslog"); void ls_syslog_chk(int p, int, const char *f, ...) asm("__syslog_chk");
void ls_vsyslog(int p, const char *f, va_list ap) asm("vsyslog"); void ls_vsyslog_chk(int p, int, const char *f, va_list ap) asm("__vsyslog_chk");
void ls_syslog(int p, const char *f, ...) { va_list ap; va_start(ap, f); sys_v(p, f, ap); va_end(ap); }
void ls_syslog_chk(int p, int, const char *f, ...) { va_list ap; va_start(ap, f); sys_v(p, f, ap); va_end(ap); }
void ls_vsyslog(int p, const char *f, va_list ap) { sys_v(p, f, ap); }
void ls_vsyslog_chk(int p, int, const char *f, va_list ap) { sys_v(p, f, ap); }
}
#endif
