#include "c13.hpp"
static void go(Ctx &c) { run(c, true); }
VF_MAIN("C13", go)
