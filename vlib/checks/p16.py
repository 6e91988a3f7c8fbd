"""P16: the real salsify-sender and salsify-receiver, alone against a scripted peer and together
over a faulty network; what they received, sent and showed is judged afterwards."""
import os, re, shutil
from vlib import build, streams
from vlib.common import pmap, run

LEVEL = "fault_enumeration"
TECHNIQUE = "offline checking of recorded event logs: the programs' datagrams, acknowledgements, pictures taken and pictures shown against an independent model of the protocol and a reference decoding of every frame from its named starting state; loss, duplication, delay, reordering, blackouts and bandwidth limits injected; sanitizers"
NOTE = "the camera and the display are stand-ins (a generated picture, a recorded digest), so small pictures can be used; the clock that decides the sender's conservative period is speeded up in part of the runs"
RULE = ("an evaluation is one datagram, acknowledgement or frame judged; distinct by the history of losses and the frames' fates in a run")

def one(job):
    drv, var, snd, rcv, mode, seed, ms, w, h, op, clock, pace, d = job
    os.makedirs(d)
    r = run([drv, mode, str(seed), str(ms), str(w), str(h), snd, rcv, d, op, str(clock), str(pace)], timeout=240)
    what = "%s %s seed %d, %dx%d, %s, clock x%d, %d us" % (mode, var, seed, w, h, op, clock, pace)
    ls, bad = streams.lines(r, what)
    files = []
    for n in ("sender.err", "receiver.err"):
        p = os.path.join(d, n)
        if not os.path.exists(p): continue
        t = open(p, errors="replace").read()
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)((?:.*\n){1,40})", t)
        if m: bad.append(("tsan-" + m.group(1).strip().replace(" ", "-"), "%s: %s" % (what, " | ".join(x.strip() for x in m.group(2).splitlines() if x.strip().startswith("#"))[:1200])))
    if bad: files = [os.path.join(d, n) for n in sorted(os.listdir(d))]
    else: shutil.rmtree(d)
    return what, ls, bad, files

def check(c):
    g = c.rng("salsify")
    drv = build.build("opt", ["h:salsa"])["h:salsa"]
    ex = {}
    for v in ("opt", "asan", "tsan"):
        b = build.build(v, ["h:salsa_send", "h:salsa_recv"]); ex[v] = (b["h:salsa_send"], b["h:salsa_recv"])
    plan = []
    def add(n, mode, ms, variants):
        for i in range(n):
            var = variants[i % len(variants)]
            w, h = g.choice([(48, 48), (48, 48), (64, 48), (33, 17), (96, 64), (16, 16)])
            op = g.choice(["s2", "s2", "s1", "conventional"])
            m = ms if var == "opt" else ms // 2 if mode == "recv" else ms
            plan.append((drv, var) + ex[var] + (mode, g.getrandbits(32), m, w, h, op, g.choice([1, 4, 12]), g.choice([2500, 4000, 7000]) * (1 if var == "opt" else 3),
                         os.path.join(c.work, "r%d" % len(plan))))
    add(c.n(40, 900), "recv", 400, ["opt", "opt", "opt", "asan", "tsan"])
    add(c.n(48, 500), "send", 5000, ["opt", "opt", "opt", "asan", "opt", "tsan"])
    add(c.n(36, 500), "e2e", 6000, ["opt", "opt", "opt", "asan", "opt", "tsan"])
    for job, (what, ls, bad, files) in zip(plan, pmap(one, plan, procs=False, jobs=c.n(16, 14))):
        for x in ls:
            if x.startswith("S "):
                _, v, name = x.split(" ", 2); c.saw(name, int(v))
                if name in ("acknowledgements judged", "frames sent", "pictures shown"): c.ev(int(v))
            elif x.startswith("K "): c.state(job[4] + x[2:])
        c.saw("runs %s %s" % (job[4], job[1]))
        c.sample("%s: %s" % (what, [x[2:] for x in ls if x.startswith("S ") and " frames " in x][:6]))
        for key, text in bad[:2]: c.violation("%s:%s" % (job[4], key), text if text.startswith(job[4]) else "%s: %s" % (what, text), files)
