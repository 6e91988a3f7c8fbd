"""P14: the pacer under a virtual clock, the event loop against a model of readiness and interest."""
from vlib import build, streams
from vlib.common import pmap, run

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: online checkers of a trace specification; the clock is replaced at link time, descriptor readiness is taken from the kernel just before each round, events also arrive from another thread while the loop waits"
NOTE = "interest counts as of the beginning of a round; a pacer may be early by less than a millisecond (its unit); which order ready callbacks run in is left open"
RULE = ("an evaluation is one pacer state or one round of the event loop; distinct by queue length and due state, and by outcome, number of callbacks, number of actions and late arrival")

def one(job):
    var, exe, cmd, seed, n = job
    return streams.lines(run([exe, cmd, str(seed), str(n)], timeout=400), "%s %s seed %d" % (var, cmd, seed))

def check(c):
    opt, asan = build.build("opt", ["h:events"])["h:events"], build.build("asan", ["h:events"])["h:events"]
    g = c.rng("cases")
    plan = []
    for var, exe, k in (("opt", opt, 1), ("asan", asan, .25)):
        for cmd, total, per in (("pacer", c.n(8000, 400000), 250), ("poller", c.n(16000, 800000), 250)):
            for i in range(max(1, int(total * k) // per)): plan.append((var, exe, cmd, g.getrandbits(40), per))
    for job, (ls, bad) in zip(plan, pmap(one, plan, procs=False)):
        for l in ls:
            if l.startswith("S "):
                _, v, name = l.split(" ", 2); c.saw(name, int(v))
                if name in ("pacer states checked", "rounds of the event loop"): c.ev(int(v))
            elif l.startswith("K "): c.state(l[2:])
        c.sample("%s %s seed %d: %s" % (job[0], job[2], job[3], [l for l in ls if l[:2] == "S "][:4]))
        for key, text in bad[:3]: c.violation("%s:%s" % (key, job[2]), text)
