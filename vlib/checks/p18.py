"""P18: what the encoder delivers against what was asked of it."""
import os, random, shutil
from vlib import build, streams, video, encoding
from vlib.common import pmap
from vlib.vp8tables import AC_Q, DC_Q

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: error, own SSIM and quantizer of every encoded frame against the request, with copies of the encoder probing the neighbouring quantizers"
NOTE = "oracle: own SSIM and error measurement on the decoded picture; neighbours of the chosen quantizer encoded by copies of the encoder"
RULE = ("a case is one encoded frame; distinct by (call, frame type, quantizer, quality, content); error bounded by the step size, reported SSIM true, minimum SSIM met with the coarsest quantizer "
        "that meets it, target size with the finest quantizer whose estimate fits")

def bound(qi):
    """mean square error and largest error allowed at a quantizer: about twice the worst seen in calibration; a real-time
    encoder may still filter at the level a coarse frame needed, hence the constants"""
    st = AC_Q[qi]
    return st * st * .25 + 12, 2.5 * st + 60

def one(job):
    exe, work, seed, calibrate = job
    rng = random.Random(seed)
    d = os.path.join(work, "q%d" % seed); os.makedirs(d)
    w, h = rng.choice(encoding.SIZES)
    big = w * h > 10000
    n = rng.randrange(2, 4 if big else 6)
    kind, frs = video.frames(seed, w, h, n)
    encoding.write_yuv(os.path.join(d, "in.yuv"), frs)
    two, rt = rng.randrange(2), rng.randrange(2)
    script = ["new 0 %d %d" % (two, rt)]
    plan = []
    for f in range(n):
        x = rng.random()
        if x < .5: script.append("q 0 %d %d" % (f, rng.choice([0, 1, 10, 30, 64, 100, 127, rng.randrange(128), rng.randrange(128)])))
        elif x < .75:
            script.append("copy 1 0"); script.append("scan 1 %d 0 127" % f); script.append("s 0 %d %d" % (f, encoding.target(rng, w, h)))
        else: script += ["copy 2 0", "m 0 %d %.5f" % (f, rng.choice([.3, .7, .9, .95, .99, .999, 1, 1.2, rng.uniform(.5, 1), rng.uniform(.9, 1), rng.uniform(.98, 1)]))]
    what = "%dx%d %s two=%d rt=%d seed %d" % (w, h, kind, two, rt, seed)
    # minimum-SSIM requests need neighbours, known only after a first run
    ev, ls, bad = encoding.execute(exe, d, w, h, script, None, what)
    out, worst = [], []
    if not bad:
        last, scan, follow, i = None, None, [], 0
        it = iter(ls)
        e_it = iter(ev)
        for l in script:
            follow.append(l)
            if l.startswith("copy 2 0"): continue
            if l.startswith("scan"):
                xl = next(x for x in it if x.startswith("X ")); scan = list(map(int, xl.split()[3:])); continue
            if l[0] not in "qsm": continue
            e = next(e_it)
            out.append((e.kind, e.type, e.qi, rt, kind))
            if abs(e.ssim - e.true) > 2e-4: bad.append(("ssim", "%s: %s reports SSIM %.5f, it is %.5f" % (what, e.op, e.ssim, e.true)))
            mse, peak = bound(e.qi)
            worst.append((max(e.mse) / (AC_Q[e.qi] ** 2), max(e.peak) / AC_Q[e.qi], e.qi, two, e.type, max(e.mse), max(e.peak)))
            if max(e.mse) > mse: bad.append(("error", "%s: %s at quantizer %d (step %d): mean square errors %s, bound %.1f" % (what, e.op, e.qi, AC_Q[e.qi], e.mse, mse)))
            if max(e.peak) > peak: bad.append(("peak", "%s: %s at quantizer %d (step %d): largest errors %s, bound %.1f" % (what, e.op, e.qi, AC_Q[e.qi], e.peak, peak)))
            if e.kind == "q" and e.qi != int(e.arg): bad.append(("quantizer", "%s: %s used quantizer %d" % (what, e.op, e.qi)))
            if e.kind == "s":
                lo, hi = 4, 127
                if rt and last is not None:
                    if last - 16 >= 4: lo = last - 16
                    hi = min(127, last + 16)
                t = int(e.arg)
                if not lo <= e.qi <= hi: bad.append(("target-range", "%s: %s chose quantizer %d outside %d..%d" % (what, e.op, e.qi, lo, hi)))
                elif scan[e.qi] > t and e.qi != hi: bad.append(("target", "%s: %s chose quantizer %d, estimated at %d" % (what, e.op, e.qi, scan[e.qi])))
                elif e.qi > lo and scan[e.qi - 1] <= t: bad.append(("target", "%s: %s chose quantizer %d, though %d is estimated at %d" % (what, e.op, e.qi, e.qi - 1, scan[e.qi - 1])))
            if e.kind == "m":
                for q in sorted({0, e.qi, min(127, e.qi + 1)}): follow += ["copy 3 2", "q 3 %d %d" % (e.frame, q)]
            last = e.qi
        if any(x.startswith("m ") for x in script) and not bad:
            ev2, _, bad = encoding.execute(exe, d, w, h, follow, None, what + " with neighbours")
            m, near = None, {}
            def judge():
                if m is None: return
                req = m.arg
                if m.true < req - 1e-4 and near[0].true >= req + 1e-4: bad.append(("ssim-missed", "%s: %s got SSIM %.5f at quantizer %d; quantizer 0 gives %.5f" % (what, m.op, m.true, m.qi, near[0].true)))
                if m.qi < 127 and m.true >= req - 1e-4 and near[m.qi + 1].true > req + 1e-4:
                    bad.append(("ssim-wasted", "%s: %s used quantizer %d, though %d gives SSIM %.5f" % (what, m.op, m.qi, m.qi + 1, near[m.qi + 1].true)))
                if m.true < req - 1e-4 and m.qi > 0 and near[0].true > m.true + .02: bad.append(("ssim-short", "%s: %s stops at quantizer %d with SSIM %.5f, quantizer 0 gives %.5f" % (what, m.op, m.qi, m.true, near[0].true)))
                out.append(("m-neighbours", m.type, m.qi, rt, kind))
            for e in ev2:
                if e.slot == 3: near[int(e.arg)] = e
                else:
                    judge(); near = {}
                    m = e if e.kind == "m" else None
            judge()
    files = [os.path.join(d, x) for x in ("script", "in.yuv")]
    if not bad: shutil.rmtree(d)
    return bad, out, worst, files

def check(c):
    exe = build.build("opt", ["h:enc"])["h:enc"]
    g = c.rng("cases")
    jobs = [(exe, c.work, g.getrandbits(40), 0) for _ in range(c.n(3000, 30000))]
    wm, wp = (0,), (0,)
    for job, (bad, out, worst, files) in zip(jobs, pmap(one, jobs, chunk=2)):
        for o in out: c.ev(); c.state(o); c.saw("frames by call " + o[0])
        for x in worst:
            if x[2] >= 4: wm = max(wm, x); wp = max(wp, (x[1],) + x)
        for key, text in bad[:2]: c.violation("%s:seed%d" % (key, job[2]), text, files)
    c.sample("largest mean square error: %.3f of the squared step (quantizer %d)" % (wm[0], wm[2] if len(wm) > 2 else -1))
    c.sample("largest error: %.3f steps (quantizer %d)" % (wp[0], wp[3] if len(wp) > 3 else -1))
