"""P22: the pieces everything is built of: chunks, optionals, the arithmetic coder, descriptors, datagrams, addresses, arrays."""
import os, shutil
from vlib import build, streams
from vlib.common import pmap, run

LEVEL = "exploration"
TECHNIQUE = ("runtime monitor: every piece driven side by side with a plain model of it (an unlimited-precision arithmetic coder, byte strings, numbered copies), short reads and writes on "
             "files, pipes and sockets fed by another thread, datagrams over loopback; ASan and UBSan")
NOTE = "host names are not looked up (no network); at most 64 kB per datagram and 2 MB per stream of bytes"
RULE = "an evaluation is one case: a run of operations on one piece, each compared with the model; distinct by piece, kind of operation and size class"
PLAN = [("chunk", 4000, 100), ("optional", 4000, 200), ("coder", 4000, 100), ("io", 1600, 40), ("udp", 800, 40), ("address", 1600, 200), ("array", 2400, 200)]

failed = {}

def one(job):
    var, exe, cmd, seed, n, d = job
    if failed.get(cmd, 0) > 7: return [], []            # this piece is broken; do not wait for every run to hang
    os.makedirs(d, exist_ok=True)
    r = streams.lines(run([exe, cmd, str(seed), str(n), d], timeout=150), "%s %s seed %d" % (var, cmd, seed))
    if r[1]: failed[cmd] = failed.get(cmd, 0) + 1
    shutil.rmtree(d, ignore_errors=True)
    return r

def check(c):
    g = c.rng("cases")
    plan = []
    for var, k in (("opt", 1), ("asan", .5)):
        exe = build.build(var, ["h:blocks"])["h:blocks"]
        for cmd, total, per in PLAN:
            for i in range(max(1, int(c.n(total, total * 40) * k) // per)): plan.append((var, exe, cmd, g.getrandbits(40), per, os.path.join(c.work, "d%d" % len(plan))))
    for job, (ls, bad) in zip(plan, pmap(one, plan, procs=False)):
        for l in ls:
            if l.startswith("S "):
                _, v, name = l.split(" ", 2)
                if name == "cases": c.ev(int(v)); name = job[2] + " cases"
                c.saw(name, int(v))
            elif l.startswith("K "): c.state(l[2:])
        c.sample("%s %s seed %d: %s" % (job[0], job[2], job[3], [l for l in ls if l[:2] == "S "][:4]))
        for key, text in bad[:3]: c.violation("%s:%s" % (key, job[2]), text)
