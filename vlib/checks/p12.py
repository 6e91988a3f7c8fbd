"""P12: Y4M, JPEG and camera pictures in and out, sample by sample."""
import os, shutil
from vlib import build, streams
from vlib.common import pmap, run

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: every sample of every raster (edge included) compared with the bytes that went in, short reads and writes injected at link time, pipes and sockets fed by another thread, libjpeg's ordinary interface and a V4L2 stand-in as references; ASan and UBSan"
NOTE = "the camera is a link-time stand-in for ioctl over a mapped file, with even sizes; libjpeg is trusted; the first picture of an MJPEG camera is skipped by the code"
RULE = ("an evaluation is one picture compared sample by sample; distinct by way of input, fragment size, width and height modulo 16 and format")

def one(job):
    var, exe, cmd, seed, n, d = job
    os.makedirs(d, exist_ok=True)
    ls, bad = streams.lines(run([exe, cmd, str(seed), str(n), d], timeout=400), "%s %s seed %d" % (var, cmd, seed))
    shutil.rmtree(d, ignore_errors=True)
    return ls, bad

def check(c):
    opt, asan = build.build("opt", ["h:rawvideo"])["h:rawvideo"], build.build("asan", ["h:rawvideo"])["h:rawvideo"]
    g = c.rng("cases")
    plan = []
    for var, exe, k in (("opt", opt, 1), ("asan", asan, .25)):
        for cmd, total, per in (("y4m", c.n(6000, 200000), 100), ("refuse", c.n(720, 4320), 36), ("jpeg", c.n(1200, 40000), 50), ("camera", c.n(1200, 40000), 50)):
            for i in range(max(1, int(total * k) // per)): plan.append((var, exe, cmd, g.getrandbits(40), per, os.path.join(c.work, "d%d" % len(plan))))
    for job, (ls, bad) in zip(plan, pmap(one, plan, procs=False)):
        for l in ls:
            if l.startswith("S "):
                _, v, name = l.split(" ", 2); c.saw(name, int(v))
                if name == "pictures compared sample by sample": c.ev(int(v))
            elif l.startswith("K "): c.state(l[2:])
        c.sample("%s %s seed %d: %s" % (job[0], job[2], job[3], [l for l in ls if l[:2] == "S "][:4]))
        for key, text in bad[:3]: c.violation("%s:%s" % (key, job[2]), text)
