"""P17: the same encoder history, alone and amid copies, probes and other encoders."""
import os, random, shutil
from vlib import build, streams, video, encoding
from vlib.common import pmap

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: trace of encoded bytes and states of one encoder alone in a process, against the same calls amid probes, copies, moves and other encoders' work"
NOTE = "oracle: the trace of the encoder running alone; exported states re-digested after every operation; copies must trace alike"
RULE = ("a case is one encode call made again under other circumstances (in a copy, after estimates, with other encoders active, recycled buffers, other heap contents); distinct by "
        "(call, frame type, quantizer, kind of circumstance); bytes and state must be those of the undisturbed run")

def one(job):
    exe, work, seed = job
    rng = random.Random(seed)
    d = os.path.join(work, "v%d" % seed); os.makedirs(d)
    w, h = rng.choice(encoding.SIZES)
    big = w * h > 10000
    n = rng.randrange(2, 4 if big else 7)
    kind, frs = video.frames(seed, w, h, n)
    _, other = video.frames(seed + 1, w, h, 3)
    encoding.write_yuv(os.path.join(d, "in.yuv"), frs + other)
    two, rt = rng.randrange(2), rng.randrange(2)
    ssim = .03 if big else .1
    if rng.random() < .25:
        m = streams.make(os.path.join(d, "st.ivf"), seed + 1, (w, h), rng.randrange(1, 5))
        start = ["dec 0 %s %d" % (m.path, m.n), "from 0 0 %d %d" % (two, rt)]
    else: start = ["new 0 %d %d" % (two, rt)]
    calls = [encoding.call(rng, 0, f, w, h, ssim) for f in range(n)]
    alone = start + calls
    busy, twins, used = [], [], set()
    def clutter():
        for _ in range(rng.randrange(0, 4)):
            f = rng.randrange(n + 3)
            x = rng.randrange(9)
            if x == 0: busy.append("noise %d" % rng.randrange(1, 6))
            elif x == 1: busy.append("est 0 %d %d" % (f, rng.randrange(128)))
            elif x == 2: busy.append("exp 0")
            elif x == 3: busy.append("hash 0")
            elif x == 4: busy.append("hold 0")
            elif x == 5:
                busy.append("new 9 %d %d" % (rng.randrange(2), rng.randrange(2)))
                for _ in range(rng.randrange(1, 4)): busy.append(encoding.call(rng, 9, rng.randrange(n + 3), w, h, .02))
                if rng.random() < .5: busy.append("drop 9")
            elif x == 6:
                busy.append("copy 8 0")
                for _ in range(rng.randrange(1, 3)): busy.append(encoding.call(rng, 8, rng.randrange(n + 3), w, h, .02))
                if rng.random() < .5: busy.append("drop 8")
            elif x == 7: busy.extend(["copy 7 0", "move 0 7"] if rng.random() < .5 else ["move 7 0", "move 0 7"])
            else: busy.extend(["move 7 0", "assign 0 7"])
    busy += start
    for k, cl in enumerate(calls):
        clutter()
        t = []
        for i in range(rng.randrange(0, 3)):
            busy.append("copy %d 0" % (20 + i)); t.append(20 + i)
        before = rng.random() < .5
        me = lambda s: cl.replace(" 0 ", " %d " % s, 1)
        for s in (t if before else []): busy.append(me(s)); clutter()
        busy.append(cl)
        for s in ([] if before else t): clutter(); busy.append(me(s))
        for s in t: busy.append("drop %d" % s)
    what = "%dx%d %s two=%d rt=%d seed %d" % (w, h, kind, two, rt, seed)
    a, _, bad = encoding.execute(exe, d, w, h, alone, {"MALLOC_PERTURB_": "0"}, what + " alone")
    a2, _, b2 = encoding.execute(exe, d, w, h, alone, {"MALLOC_PERTURB_": str(1 + seed % 254)}, what + " alone again"); bad += b2
    b, _, b3 = encoding.execute(exe, d, w, h, busy, {"MALLOC_PERTURB_": str(1 + seed % 253)}, what + " amid others"); bad += b3
    out = []
    if not bad:
        key = lambda e: (e.dig, e.parts, e.hash)
        if [key(e) for e in a] != [key(e) for e in a2]: bad.append(("rerun", what + ": two runs of the same calls differ"))
        exp = iter(a)
        b0 = [e for e in b if e.slot == 0]
        for i, (x, y) in enumerate(zip(a, b0)):
            if key(x) != key(y):
                bad.append(("disturbed", "%s: call %d (%s): %s alone, amid probes, copies and other encoders %s" % (what, i, x.op, (x.len, x.dig, x.parts), (y.len, y.dig, y.parts)))); break
            out.append((x.kind, x.type, x.qi, "amid"))
        if len(a) != len(b0): bad.append(("disturbed", what + ": calls lost"))
        # copies against the original: same call in slots 20, 21
        ops = [e for e in b if e.slot in (0, 20, 21)]
        byop = {}
        cur = 0
        for e in ops:
            k = "_".join(e.op.split("_")[:1] + e.op.split("_")[2:])
            byop.setdefault((e.frame, k), []).append(e)
        for (f, k), es in byop.items():
            if len({key(e) for e in es}) > 1: bad.append(("copy-differs", "%s: %s gives %s" % (what, k, [(e.slot, e.len, e.dig) for e in es])))
            for e in es:
                if e.slot: out.append((e.kind, e.type, e.qi, "copy"))
    files = [os.path.join(d, x) for x in ("script", "in.yuv")]
    if not bad: shutil.rmtree(d)
    return bad, out, files

def check(c):
    exe = build.build("opt", ["h:enc"])["h:enc"]
    g = c.rng("cases")
    jobs = [(exe, c.work, g.getrandbits(40)) for _ in range(c.n(3000, 15000))]
    for job, (bad, out, files) in zip(jobs, pmap(one, jobs, chunk=2)):
        for o in out: c.ev(); c.state(o); c.saw("calls repeated: " + o[3]); c.saw("frames by call " + o[0])
        for key, text in bad[:2]: c.violation("%s:seed%d" % (key, job[2]), text, files)
    c.sample("circumstances: probes (estimate, export, hash), held exports, copies, moves, assignments, foreign encoders, recycled garbage, other heap contents")
