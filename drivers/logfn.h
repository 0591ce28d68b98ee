// Log statements of every level, as found in a file: EMIT(level, text)
#define EMIT(lv, x) switch (lv) { case 0: { LOG(EMERG) << x; } break; case 1: { LOG(ALERT) << x; } break; case 2: { LOG(CRIT) << x; } break; case 3: { LOG(ERR) << x; } break; case 4: { LOG(WARNING) << x; } break; case 5: { LOG(NOTICE) << x; } break; case 6: { LOG(INFO) << x; } break; case 7: { LOG(DEBUG) << x; } break; }
#define EMITU(lv, x) switch (lv) { case 0: { _LOG(EMERG) << x; } break; case 1: { _LOG(ALERT) << x; } break; case 2: { _LOG(CRIT) << x; } break; case 3: { _LOG(ERR) << x; } break; case 4: { _LOG(WARNING) << x; } break; case 5: { _LOG(NOTICE) << x; } break; case 6: { _LOG(INFO) << x; } break; case 7: { _LOG(DEBUG) << x; } break; }
#define TEST(macro, lv) (lv == 0 ? macro(EMERG) : lv == 1 ? macro(ALERT) : lv == 2 ? macro(CRIT) : lv == 3 ? macro(ERR) : lv == 4 ? macro(WARNING) : lv == 5 ? macro(NOTICE) : lv == 6 ? macro(INFO) : macro(DEBUG))
