"""P20: what the real salsify-sender sends, judged against what the receiver reported; what the real
salsify-receiver reports, judged against when its datagrams arrived."""
import os
from vlib import build
from vlib.checks.p16 import one
from vlib.common import pmap

LEVEL = "fault_enumeration"
TECHNIQUE = "offline checking of recorded event logs: every picture taken, encoding made, frame chosen, datagram sent and acknowledgement received by the real salsify-sender, in order, against an independent model of the capacity; every delay reported by the real salsify-receiver against the kernel's arrival times; delays, holds, jitter, loss and bandwidth limits injected"
NOTE = "the camera is a stand-in; the encodings made and the frames chosen are recorded by wrapping Encoder::encode_with_quantizer and FragmentedFrame's constructor at link time; quality of the congestion estimate itself (how well the reported delay predicts the network) is not judged"
RULE = "an evaluation is one choice (frame sent or picture dropped), departure or reported delay judged; distinct by the history of reported capacities in a run"

def check(c):
    g = c.rng("capacity")
    drv = build.build("opt", ["h:salsa"])["h:salsa"]
    ex = {}
    for v in ("opt", "asan"):
        b = build.build(v, ["h:salsa_send", "h:salsa_recv"]); ex[v] = (b["h:salsa_send"], b["h:salsa_recv"])
    plan = []
    def add(n, mode, ms, variants):
        for i in range(n):
            var = variants[i % len(variants)]
            w, h = g.choice([(48, 48), (64, 48), (96, 64), (160, 96), (33, 17)])
            op = g.choice(["s2", "s2", "s2", "s1", "s1", "conventional"])
            m = ms if var == "opt" else ms // 2 if mode == "cap-recv" else ms
            plan.append((drv, var) + ex[var] + (mode, g.getrandbits(32), m, w, h, op, 1, g.choice([2500, 4000, 7000]) * (1 if var == "opt" else 3),
                         os.path.join(c.work, "r%d" % len(plan))))
    add(c.n(56, 900), "cap-send", 5000, ["opt", "opt", "opt", "opt", "asan", "opt"])
    add(c.n(16, 300), "cap-recv", 300, ["opt", "opt", "opt", "asan"])
    add(c.n(24, 400), "cap-e2e", 5000, ["opt", "opt", "opt", "asan"])
    for job, (what, ls, bad, files) in zip(plan, pmap(one, plan, procs=False, jobs=c.n(16, 14))):
        for x in ls:
            if x.startswith("S "):
                _, v, name = x.split(" ", 2); c.saw(name, int(v))
                if name in ("choices judged", "pictures dropped", "departures judged", "reported delays judged"): c.ev(int(v))
            elif x.startswith("K "): c.state(job[4] + x[2:])
        c.saw("runs %s %s" % (job[4], job[1]))
        c.sample("%s: %s" % (what, [x[2:] for x in ls if x.startswith("S ") and "frames" in x][:6]))
        for key, text in bad[:2]: c.violation("%s:%s" % (job[4], key), text if text.startswith(job[4]) else "%s: %s" % (what, text), files)
