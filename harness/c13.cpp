#include "c13.hpp"
static void go(Ctx &c) { run(c, false); }
VF_MAIN("C13", go)
