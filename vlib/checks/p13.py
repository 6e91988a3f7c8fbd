"""P13: frames cut into datagrams and put together again behind a network model."""
from vlib import build, streams
from vlib.common import pmap, run

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: a reference model of what has arrived, compared with complete(), frame(), partial_frame(), packets() and every field after each delivery, under ASan and UBSan as well; loopback sockets"
NOTE = "network model: loss, duplication, reordering (windows of 1, 3, 30, all; reversed) and interleaving of up to five frames; up to 32770 fragments per frame (the format's limit of 65535 is not reached in the quick tier)"
RULE = ("an evaluation is one delivered datagram or one packet or acknowledgement through the wire format; distinct by fragment-count class, order, loss and duplication pattern, "
        "exact multiples of the payload size apart")

def one(job):
    var, exe, cmd, seed, n = job
    ls, bad = streams.lines(run([exe, cmd, str(seed), str(n)], timeout=400), "%s %s seed %d" % (var, cmd, seed))
    return ls, bad

def check(c):
    opt, asan = build.build("opt", ["h:packet"])["h:packet"], build.build("asan", ["h:packet"])["h:packet"]
    g = c.rng("cases")
    plan = []
    for var, exe, k in (("opt", opt, 1), ("asan", asan, .25)):
        for cmd, total, per in (("frag", c.n(16000, 300000), 100), ("wire", c.n(40000, 1000000), 2500), ("sock", c.n(400, 8000), 25), ("huge", c.n(2, 20), 1)):
            for i in range(max(1, int(total * k) // per)): plan.append((var, exe, cmd, g.getrandbits(40), per))
    for job, (ls, bad) in zip(plan, pmap(one, plan, procs=False)):
        for l in ls:
            if l.startswith("S "):
                _, v, name = l.split(" ", 2); c.saw(name, int(v))
                if name in ("datagrams delivered", "packets through the wire format", "acknowledgements through the wire format", "datagrams through sockets"): c.ev(int(v))
            elif l.startswith("K "): c.state(l[2:])
        c.sample("%s %s seed %d: %s" % (job[0], job[2], job[3], [l for l in ls if l[:2] == "S "][:4]))
        for key, text in bad[:3]: c.violation("%s:%s" % (key, job[2]), text)
