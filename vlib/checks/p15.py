"""P15: threads decode, encode, hash, copy and release at the same time, under ThreadSanitizer."""
import os, re
from vlib import build, streams
from vlib.common import pmap, run, HarnessError

LEVEL = "exploration"
TECHNIQUE = "ThreadSanitizer and AddressSanitizer on threads sharing pictures, decoders and encoders, with random delays; every thread's results compared with the same task run alone afterwards; watchdog for deadlocks"
NOTE = "the assembly kernels are not instrumented (they touch only planes that the instrumented callers touch too); data races are found by happens-before, so the particular timing matters little"
RULE = ("an evaluation is one task run in a thread; distinct by the sequence of overlaps seen (how many other tasks were running when each task began)")

def one(job):
    var, exe, seed, t, n, w, h, l = job
    r = run([exe, str(seed), str(t), str(n), str(w), str(h)] + l, timeout=300)
    ls, bad = streams.lines(r, "%s seed %d, %d threads" % (var, seed, t))
    reports = re.findall(r"WARNING: ThreadSanitizer: ([^\n(]*).*?\n((?:.*\n){1,40})", r.errtext)
    if reports:
        bad = [b for b in bad if b[0] != "failed"]
        for what, text in reports[:3]:
            bad.append(("tsan-" + what.strip().replace(" ", "-"), "%s seed %d, %d threads: %s %s" % (var, seed, t, what, " | ".join(x.strip() for x in text.splitlines() if x.strip().startswith("#") or "of size" in x)[:1200])))
    return ls, bad

def mk(a): streams.make(*a)

def check(c):
    g = c.rng("streams")
    sets = []
    mkjobs = []
    for k, (w, h) in enumerate([(48, 48), (33, 17), (64, 32), (16, 16)]):
        l = []
        for i in range(3):
            p = os.path.join(c.work, "s%d.%d.ivf" % (k, i)); l.append(p)
            mkjobs.append((p, g.getrandbits(40), (w, h), 5, dict(golden=.4, segmentation=.5, hidden=.2, key_again=.1)))
        sets.append((w, h, l))
    pmap(mk, mkjobs)
    plan = []
    for var, runs, tasks in (("tsan", c.n(160, 3000), 6), ("asan", c.n(60, 1200), 8), ("opt", c.n(300, 6000), 25)):
        exe = build.build(var, ["h:threads"])["h:threads"]
        for i in range(runs):
            w, h, l = sets[i % len(sets)]
            plan.append((var, exe, g.getrandbits(40), g.choice([2, 3, 4, 8, 12]), tasks, w, h, l))
    for job, (ls, bad) in zip(plan, pmap(one, plan, procs=False, jobs=5)):
        for x in ls:
            if x.startswith("S "):
                _, v, name = x.split(" ", 2); c.saw(name, int(v))
                if name == "tasks run by threads": c.ev(int(v)); c.saw("tasks under " + job[0], int(v))
            elif x.startswith("K "): c.state(x[2:])
        c.sample("%s seed %d, %d threads, %dx%d: %s" % (job[0], job[2], job[3], job[5], job[6], [x for x in ls if x[:2] == "S "][:3]))
        for key, text in bad[:3]: c.violation("%s:%s" % (key, job[0]), text)
