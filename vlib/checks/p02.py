"""P02: after every encoded frame, encoder and decoder are compared component by component."""
import os, random, shutil
from vlib import build, streams, video, encoding
from vlib.common import pmap

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: a shadow decoder follows every encoder through random histories of calls; states compared after each frame, pictures with libvpx"
NOTE = "oracle: own component digests of the shadow decoder, and vpxdec for streams that start with a key frame"
RULE = ("a case is one encoded frame inside a random history (size, content, quality, passes, kind of call and argument, starting state); distinct by (call kind, frame type, "
        "quantizer, filter level, quality, passes, kind of start, content); encoder and decoder must agree in every component")

def one(job):
    exe, work, seed, over = job
    rng = random.Random(seed)
    d = os.path.join(work, "e%d" % seed); os.makedirs(d)
    w, h = over.get("size") or rng.choice(encoding.SIZES)
    big = w * h > 10000
    n = rng.randrange(2, 5 if big else 8)
    kind, frs = video.frames(seed, w, h, n)
    encoding.write_yuv(os.path.join(d, "in.yuv"), frs)
    two, rt = rng.randrange(2), rng.randrange(2)
    start = over.get("start") or rng.choice(["fresh", "fresh", "enc", "stream"])
    script, ssim = [], .04 if big else .12
    order = list(range(n))
    if rng.random() < .3: order += [rng.randrange(n) for _ in range(3)]
    if start == "stream":
        m = streams.make(os.path.join(d, "st.ivf"), seed + 1, (w, h), rng.randrange(1, 6), over.get("profile"))
        script += ["dec 0 %s %d" % (m.path, m.n), "from 0 0 %d %d" % (two, rt)]
    else: script += ["new 0 %d %d" % (two, rt)]
    for k, f in enumerate(order):
        if k and start == "enc" and rng.random() < .4:
            two, rt = rng.randrange(2), rng.randrange(2)
            script += ["fromenc 0 0 %d %d" % (two, rt)]
        if rng.random() < .15: script += ["noise %d" % rng.randrange(1, 5)]
        if rng.random() < .1: script += ["est 0 %d %d" % (f, rng.randrange(128))]
        if rng.random() < .08: script += [rng.choice(["copy 1 0", "copy 1 0\nmove 0 1"])]
        script += [encoding.call(rng, 0, f, w, h, ssim)]
    ev, ls, bad = encoding.execute(exe, d, w, h, script, {"MALLOC_PERTURB_": str(seed % 255)}, "%dx%d %s two=%d rt=%d start=%s seed %d" % (w, h, kind, two, rt, start, seed))
    third = 0
    if not bad:
        for l in ls:
            if l.startswith("STREAM"):
                s = int(l.split()[1]); third += int(l.split()[2])
                e = encoding.third_party(d, w, h, s)
                if e: bad.append(("third-party", "%dx%d %s seed %d slot %d: %s" % (w, h, kind, seed, s, e)))
    out = [(e.kind, e.type, e.qi, e.lf, rt, two, start, kind) for e in ev]
    files = [os.path.join(d, x) for x in ("script", "in.yuv")]
    if not bad: shutil.rmtree(d)
    return bad, out, third, files

def check(c):
    exe = build.build("opt", ["h:enc"])["h:enc"]
    g = c.rng("cases")
    jobs = [(exe, c.work, g.getrandbits(40), {}) for _ in range(c.n(5000, 30000))]
    for job, (bad, out, third, files) in zip(jobs, pmap(one, jobs, chunk=2)):
        for o in out:
            c.ev(); c.state(o); c.saw("frames by call " + o[0]); c.saw("frames of type " + o[1]); c.saw("start " + o[6]); c.saw("content " + o[7])
        c.saw("frames compared with libvpx", third)
        for key, text in bad[:3]: c.violation("%s:seed%d" % (key, job[2]), text, files)
    c.sample("kinds: " + ", ".join(sorted({"%s/%s rt%d two%d %s" % (s[0], s[1], s[4], s[5], s[6]) for s in c.distinct}))[:390])
