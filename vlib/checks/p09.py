"""P09: mutated state files, IVF and Y4M files, JPEG pictures and datagrams, under sanitizers."""
import os
from vlib import build, streams, hostile
from vlib.common import pmap

LEVEL = "exploration"
TECHNIQUE = "sanitizers (ASan, UBSan, memcheck), allocation limit, watchdog and heap-poison differential over structure-aware mutated files and datagrams"
NOTE = ("files are mapped into exactly-sized heap blocks by a link-time stand-in for mmap; allocation beyond 200 MB for inputs of a few kB counts as out of proportion; "
        "pictures of the size an input declares are allocated by design, so declared sizes stay below some megapixels; libjpeg itself is not instrumented")
RULE = ("a case is one mutated file (or set of datagrams): it must be read or refused with an ordinary exception, without sanitizer report, signal, time-out or outsized allocation; "
        "a state that loads is hashed, compared, saved again and used to decode frames with and without concealment; distinct by outcome digest")
KINDS = ["state", "ivf", "y4m", "jpeg", "packet"]

def mk(a): streams.make(*a)

def check(c):
    asan, opt = build.build("asan", ["h:hostile"])["h:hostile"], build.build("opt", ["h:hostile"])["h:hostile"]
    g = c.rng("streams")
    l, mkjobs = [], []
    for i, s in enumerate([(64, 48), (33, 17), (16, 16), (1, 1), (50, 34), (48, 64), (17, 16), (20, 20)]):
        p = os.path.join(c.work, "s%d.ivf" % i); l.append(p)
        mkjobs.append((p, g.getrandbits(40), s, 6, dict(segmentation=[0, .9][i % 2], lf_delta=.9, golden=.3)))
    pmap(mk, mkjobs)
    plan = []
    for r in range(c.n(1, 10)):
        for k in KINDS:
            for part in range(3): plan.append(("%d.%d" % (r, part), "asan", asan, k, g.getrandbits(30), c.n(dict(state=300, ivf=400, y4m=300, jpeg=400, packet=200)[k], 2500), 1, l))
            s = g.getrandbits(30)
            for m in ("perturb85", "perturb170"): plan.append((str(r), m, opt, k, s, c.n(400, 4000), 1, l))
            plan.append((str(r), "valgrind", opt, k, g.getrandbits(30), c.n(8 if k != "packet" else 4, 100), 1, l))
    hostile.campaign(c, plan)
