#include "c12.hpp"
static void go(Ctx &c) { run(c, false); }
VF_MAIN("C12", go)
