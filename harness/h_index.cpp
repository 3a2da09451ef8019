// Histories of one writer against a sequential model (C03).
#include "world.h"
using namespace vf;

VF_MODE(history) {
    World w(c, "history");
    int steps = (int)c.rng.range(20, c.rng.oneIn(4) ? 160 : 60);
    w.openWriter(false);
    for (int i = 0; i < steps; ++i) w.step();
    if (!w.w) w.openWriter(false);
    w.closeWriter();
    checkIndexClean(w.dir, "history.final");
    if (wantSample()) sample(c.log.str());
    count("steps", steps);
}

VF_MAIN
