"""P08: mutated and random frames against decoders in any state, with and without concealment, under sanitizers."""
import os
from vlib import build, streams, hostile
from vlib.common import pmap

LEVEL = "exploration"
TECHNIQUE = "sanitizers (ASan, UBSan, memcheck), watchdog and heap-poison differential over structure-aware mutated frame sequences"
NOTE = ("frames are exactly-sized heap blocks; plain-C and SSE paths as built by the repository; hand-written assembly is not instrumented, "
        "accesses it makes outside a heap block are seen only by valgrind; picture sizes up to a few hundred pixels")
RULE = ("a case is a batch of frame sequences (6 to 20 frames each, up to three decoders with copies between them) made by structure-aware mutation of generated streams; "
        "it must end in acceptance or an ordinary exception of every frame, without a sanitizer report, signal or time-out, after which the decoders still decode a clean key frame; "
        "distinct by outcome digest")
SIZES = [(64, 48), (33, 17), (16, 16), (1, 1), (50, 34), (175, 49), (17, 130), (96, 80)]

def mk(a): streams.make(*a)

def check(c):
    asan, opt = build.build("asan", ["h:hostile"])["h:hostile"], build.build("opt", ["h:hostile"])["h:hostile"]
    g = c.rng("streams")
    sets, mkjobs = [], []
    for i, s in enumerate(SIZES):
        l = []
        for k in range(5):
            p = os.path.join(c.work, "s%d_%d.ivf" % (i, k)); l.append(p)
            mkjobs.append((p, g.getrandbits(40), s, 7, dict(parts=[0, 1, 2, 3, None][k])))
        sets.append(l)
    pmap(mk, mkjobs)
    plan = []
    for r in range(c.n(1, 12)):
        for i, l in enumerate(sets):
            big = SIZES[i][0] * SIZES[i][1] > 5000
            plan.append(("%d.%d" % (i, r), "asan", asan, "frames", g.getrandbits(30), c.n(110 if big else 160, 1200), 6, l))
            s = g.getrandbits(30)
            for m in ("perturb85", "perturb170"): plan.append(("%d.%d" % (i, r), m, opt, "frames", s, c.n(120, 1500), 6, l))
            if i in (1, 2, 3, 4): plan.append(("%d.%d" % (i, r), "valgrind", opt, "frames", g.getrandbits(30), c.n(8, 60), 3, l))
    hostile.campaign(c, plan)
