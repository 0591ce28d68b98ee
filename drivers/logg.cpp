// log statements belonging to a log group
int g_group;
#define LOG_GROUP ((LogGroup::Group)g_group)
#include "Logger.h"
#include "logfn.h"
#line 1 "A.cpp"
void glogA(int lv, const std::string &s) { EMIT(lv, s) }
bool gtestA(int lv) { return TEST(IS_LOG_LEVEL, lv); }
bool gwatch(int lv) { return TEST(IS_WATCH_LEVEL, lv); }
#line 1 "B.cpp"
void glogB(int lv, const std::string &s) { EMIT(lv, s) }
