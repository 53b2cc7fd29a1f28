#include "common.h"
MC_SECTION("setup", [](mc::Ctx&) {}, opts(0, 1));
