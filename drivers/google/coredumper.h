// stand-in for libcoredumper: the driver records the name
extern "C" int WriteCoreDump(const char *name);
