"""P01: differential monitoring of vp8decode against libvpx over generated and encoder-made streams."""
import os, random
from vlib import build, ref, video
from vlib.common import pmap, run, HarnessError, JOBS
from vlib.vp8gen import StreamGen, Profile, ivf, SIZES

LEVEL = "exploration"
TECHNIQUE = "differential runtime monitoring: vp8decode against libvpx, frame by frame, over generated bitstreams"
NOTE = "every decoded byte of every shown frame is compared with libvpx; reach comes from a generator that draws every syntax element at random"
RULE = ("cases are VP8 streams: random valid syntax from vlib/vp8gen.py (every header field, mode, vector, token drawn at random, own entropy coder) and "
        "libvpx-encoded synthetic video; each is decoded by vp8decode built from /repo and by libvpx and compared byte for byte; a stream is distinct by "
        "the set of syntax features it used")

def decode(exe, path, w, h, work, tag):
    out = os.path.join(work, tag + ".y4m")
    r = run([exe, "-o", out, path], timeout=60)
    data = None
    if os.path.exists(out):
        data = open(out, "rb").read(); os.unlink(out)
    return r, (video.split_y4m(data, w, h) if data is not None else None)

def one(job):
    exe, work, seed, kind = job
    rng = random.Random(seed)
    prof = Profile(rng)
    n = rng.randrange(3, 12)
    w, h = rng.choice(SIZES)
    if kind == "long": n, (w, h) = 330, (rng.choice([16, 17, 24]), 16)
    elif kind == "large": n, (w, h) = 3, rng.choice([(640, 368), (1279, 35), (21, 1100), (401, 303)])
    elif kind.startswith("refuse:"): setattr(prof, kind.split(":")[1], int(kind.split(":")[2]))
    elif kind.startswith("known:"):
        prof.corners = (kind.split(":")[1],); prof.segmentation = prof.lf_delta = .6; prof.lf_style = "any"; prof.seg_keep = .6; prof.key_again = 0; n = 10; w, h = 64, 48
    g = StreamGen(rng, w, h, n, prof)
    tag = "s%s" % abs(hash((seed, kind)))
    path = os.path.join(work, tag + ".ivf")
    open(path, "wb").write(ivf(w, h, g.frames))
    exp, err = ref.vpxdec(path, w, h, work, tag)
    r, got = decode(exe, path, w, h, work, tag)
    problem = None; refused = False
    if exp is None: return ("harness", "libvpx refuses generated stream %s %s: %s" % (seed, kind, err), path, g.features, g.counts, len(g.frames), refused)
    if kind.startswith("refuse:") and not r.timeout and r.rc == 1 and b"unsupported" in r.err: refused = True
    elif r.rc != 0: problem = "vp8decode failed (exit %s%s) on a valid stream: %s" % (r.rc, ", timed out" if r.timeout else "", r.errtext[-300:])
    elif len(exp) != g.shown: return ("harness", "libvpx shows %d of %d frames" % (len(exp), g.shown), path, g.features, g.counts, len(g.frames), refused)
    else: problem = ref.compare(exp, got, w, h)
    if problem is None: os.unlink(path)
    else: problem = "%dx%d seed=%s kind=%s: %s" % (w, h, seed, kind, problem)
    return ("bad" if problem else "ok", problem, path, g.features, g.counts, len(g.frames), refused)

ENC = [["--good", "--cpu-used=0"], ["--rt", "--cpu-used=8"], ["--good", "--cpu-used=2", "--token-parts=3"], ["--good", "--auto-alt-ref=1", "--lag-in-frames=8", "--arnr-maxframes=5"],
       ["--rt", "--cpu-used=4", "--error-resilient=1"], ["--rt", "--error-resilient=3", "--token-parts=2"], ["--good", "--sharpness=5", "--min-q=0", "--max-q=20"],
       ["--good", "--min-q=50", "--max-q=63"], ["--rt", "--cpu-used=-4", "--noise-sensitivity=3"], ["--good", "--kf-max-dist=4", "--static-thresh=100"],
       ["--best", "--auto-alt-ref=1", "--lag-in-frames=12", "--target-bitrate=50"], ["--rt", "--static-thresh=1000", "--screen-content-mode=1"]]

def one_enc(job):
    exe, work, seed, n = job
    rng = random.Random(seed)
    w, h = rng.choice([(64, 64), (96, 80), (50, 34), (75, 61), (128, 96), (33, 47)])
    kind, fr = video.frames(seed, w, h, n, rng.choice(["motion", "motion+noise", "cuts", "checker", "fade", "noise"]))
    src = os.path.join(work, "e%s.y4m" % seed); path = src[:-4] + ".ivf"
    open(src, "wb").write(video.y4m(w, h, fr))
    args = ENC[seed % len(ENC)]
    ref.vpxenc(src, path, args)
    os.unlink(src)
    exp, err = ref.vpxdec(path, w, h, work, "e%s" % seed)
    r, got = decode(exe, path, w, h, work, "e%s" % seed)
    if exp is None: return ("harness", err, path, args, kind, 0)
    problem = ("vp8decode failed (exit %s): %s" % (r.rc, r.errtext[-300:])) if r.rc else ref.compare(exp, got, w, h)
    if problem: problem = "vpxenc %s %s %dx%d: %s" % (" ".join(args), kind, w, h, problem)
    else: os.unlink(path)
    return ("bad" if problem else "ok", problem, path, args, kind, len(exp))

def check(c):
    exe = build.build("opt", ["vp8decode"])["vp8decode"]
    base = c.rng("streams")
    jobs = [(exe, c.work, base.getrandbits(48), "random") for _ in range(c.n(3600, 30000))]
    jobs += [(exe, c.work, base.getrandbits(48), "long") for _ in range(c.n(8, 40))]
    jobs += [(exe, c.work, base.getrandbits(48), "large") for _ in range(c.n(16, 200))]
    for knob, vals in (("scale", [1]), ("color", [1]), ("clamp", [1]), ("version", [1, 2, 3]), ("simple", [1])):
        jobs += [(exe, c.work, base.getrandbits(48), "refuse:%s:%d" % (knob, v)) for v in vals for _ in range(c.n(3, 30))]
    known = [(exe, c.work, s, "known:" + k) for k in ("seg-off-on", "lf-off-on") for s in (11, 12, 13, 14, 15, 16)]
    for (job, res) in zip(jobs, pmap(one, jobs, chunk=4)):
        status, problem, path, feats, counts, nf, refused = res
        if status == "harness": raise HarnessError(problem)
        c.ev(); c.saw("frames decoded and compared", 0 if refused else nf)
        c.saw("streams " + job[3])
        if refused: c.saw("streams refused as unsupported")
        c.state(frozenset(feats))
        for k, v in counts.items(): c.saw("syntax " + k, v)
        c.sample("%s seed %d: %d frames, %s" % (job[3], job[2], nf, ",".join(sorted(feats))[:250]))
        if status == "bad": c.violation("stream:%s:%s" % (job[3], job[2]), problem, [path])
    for (job, res) in zip(known, pmap(one, known)):
        c.ev()
        if res[0] == "bad": c.violation(job[3].replace("known:", "stream:"), res[1], [res[2]])
        else: c.known_ok(job[3])
    enc = [(exe, c.work, base.getrandbits(20) * len(ENC) + i % len(ENC), c.n(10, 25)) for i in range(c.n(48, 600))]
    for job, (status, problem, path, args, kind, nf) in zip(enc, pmap(one_enc, enc)):
        if status == "harness": raise HarnessError(problem)
        c.ev(); c.saw("frames decoded and compared", nf); c.saw("streams vpxenc"); c.state(("enc", tuple(args), kind))
        if status == "bad": c.violation("vpxenc:%s" % job[2], problem, [path])
    c.assumptions += ["libvpx's vpxdec is a conforming VP8 decoder", "coefficients stay in the range any encoder produces (no 16-bit overflow in the inverse transforms)"]
