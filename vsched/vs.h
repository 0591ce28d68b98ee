// vsched: controlled scheduler for real multi-threaded code (see DESIGN.md).
#ifndef VS_H
#define VS_H
#include <stdint.h>
#include <stdarg.h>
extern "C" {
// ---- used by drivers, inside a scenario -----------------------------------
void vs_ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));	// append one JSON event (uninstrumented)
int  vs_self();						// logical thread number (0 = scenario main)
int64_t vs_now_us();				// virtual clock, microseconds since scenario start (no scheduling point)
uint32_t vs_prand(uint32_t n);		// program random numbers: depend on the program number only
uint32_t vs_srand_(uint32_t n);		// schedule random numbers
void vs_quiet(int on);			// no scheduling points until switched off (blocking calls still switch)
void vs_yield();					// explicit scheduling point
void vs_advance(int64_t us);		// advance the virtual clock
int  vs_spawn(void (*fn)(void *), void *arg);	// start a controlled thread
void vs_join(int id);
void vs_joinall();
void vs_end(const char *kind);		// finish this execution with an end event
int  vs_punctual();					// 1: clock moves only when everybody is blocked
void vs_start_clock(int64_t us_of_second);	// set sub-second phase of the virtual clock (call first)
int  vs_controlled();
int  vs_isfreed(const void *p);
}
struct VsScenario { const char *name; void (*run)(int prog); };
int vs_main(int argc, char **argv, const VsScenario *sc, int nsc);
#endif
