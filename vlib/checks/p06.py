"""P06: frames parsed and written back; chunk termination; residue removal."""
import os
from vlib import build, streams, ref, video
from vlib.common import pmap, run, HarnessError

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: every frame parsed, serialised, reparsed and decoded again, content compared field by field; rewritten streams also decoded by libvpx"
NOTE = "oracle: own digest of all header fields, modes, vectors and coefficients, plus libvpx on the rewritten stream"
RULE = ("a case is one frame of a generated or libvpx-encoded stream, rewritten by Frame::serialize, xc-terminate-chunk or xc-zero-out-residues; distinct by its set of syntax features; "
        "content, pictures and next states before and after are compared, and libvpx must show the same pictures")

def content(exe, path):
    r, bad = streams.lines(run([exe, "content", path]), "content of " + os.path.basename(path))
    return [l.split()[1:] for l in r if l.startswith("C ")], bad

def one(job):
    ex, work, seed, over, enc, cli = job
    exe = ex["h:state"]
    t = os.path.join(work, "r%d" % seed)
    src = t + ".ivf"
    if enc is None:
        m = streams.make(src, seed, None, None, over); w, h, feats, n = m.w, m.h, frozenset(m.features), m.n
    else:
        w, h = (64, 48) if seed % 2 else (51, 75)
        kind, fr = video.frames(seed, w, h, 8)
        open(t + ".y4m", "wb").write(video.y4m(w, h, fr))
        ref.vpxenc(t + ".y4m", src, enc); os.unlink(t + ".y4m")
        feats = frozenset(enc); n = len(streams.split_ivf(open(src, "rb").read()))
    bad = []; checked = 0
    outs = []
    r, b = streams.lines(run([exe, "reser", src, t + ".o.ivf"]), "rewrite"); bad += b
    exp, err = ref.vpxdec(src, w, h, work, "r%d" % seed)
    if exp is None: raise HarnessError(err)
    if not bad:
        checked += n
        got, err = ref.vpxdec(t + ".o.ivf", w, h, work, "r%d" % seed)
        p = err if got is None else ref.compare(exp, got, w, h)
        if p: bad.append(("libvpx", "libvpx shows the rewritten stream differently: %s" % p))
    if cli and not bad:
        a, b = content(exe, src); bad += b
        # chunk termination
        o, st = t + ".t.ivf", t + ".st"
        r = run([ex["xc-terminate-chunk"], src, o, st])
        if r.rc: bad.append(("terminate-fails", r.errtext[-300:]))
        else:
            z, b = content(exe, o); bad += b
            s, b = streams.lines(run([exe, "stateof", st]), "state"); bad += b
            if not bad:
                checked += n
                if len(z) != len(a): bad.append(("terminate-count", "%d frames became %d" % (len(a), len(z))))
                elif z[:-1] != a[:-1]: bad.append(("terminate-other", "frames before the last one changed"))
                else:
                    # index type show header noref modes coeffs nonzero parts
                    x, y = a[-1], z[-1]
                    if x[1] == "K":
                        if x != y: bad.append(("terminate-key", "a last key frame changed"))
                    elif x[1:3] + x[4:8] != y[1:3] + y[4:8]: bad.append(("terminate-last", "more than reference updates changed in the last frame"))
                    state, last, golden, alt = y[8].split(",")
                    if state != x[8].split(",")[0]: bad.append(("terminate-state", "entropy, segmentation or filter state changed"))
                    if not last == golden == alt: bad.append(("terminate-refs", "the references do not coincide at the end"))
                    if s[0].split()[1] != y[8]: bad.append(("terminate-saved", "the emitted state is not the one a decoder of the chunk ends in"))
                got, err = ref.vpxdec(o, w, h, work, "r%d" % seed)
                p = err if got is None else ref.compare(exp, got, w, h)
                if p: bad.append(("terminate-libvpx", p))
        outs += [o, st]
        # residue removal
        o = t + ".z.ivf"
        r = run([ex["xc-zero-out-residues"], src, o])
        if r.rc: bad.append(("zero-fails", r.errtext[-300:]))
        else:
            z, b = content(exe, o); bad += b
            if not b:
                checked += n
                if len(z) != len(a): bad.append(("zero-count", "%d frames became %d" % (len(a), len(z))))
                for x, y in zip(a, z):
                    if x[1] == "K":
                        if x != y: bad.append(("zero-key", "key frame %s changed" % x[0]))
                    else:
                        if x[:6] != y[:6]: bad.append(("zero-content", "frame %s: header, modes or vectors changed" % x[0]))
                        if y[7] != "0": bad.append(("zero-left", "frame %s keeps %s blocks with residues" % (x[0], y[7])))
                    if x[8].split(",")[0] != y[8].split(",")[0]: bad.append(("zero-state", "frame %s: entropy, segmentation or filter state changed" % x[0]))
                got, err = ref.vpxdec(o, w, h, work, "r%d" % seed)
                out = t + ".y4m"
                r = run([ex["vp8decode"], "-o", out, o])
                mine = video.split_y4m(open(out, "rb").read(), w, h) if r.rc == 0 else None
                p = err if got is None else ref.compare(got, mine, w, h) if mine else r.errtext
                if p: bad.append(("zero-libvpx", p))
                if os.path.exists(out): os.unlink(out)
        outs.append(o)
    for f in outs + [t + ".o.ivf"]:
        if os.path.exists(f): os.unlink(f)
    if not bad: os.unlink(src)
    return bad, checked, feats, src

def check(c):
    from vlib.checks.p01 import ENC
    ex = build.build("opt", ["h:state", "xc-terminate-chunk", "xc-zero-out-residues", "vp8decode"])
    g = c.rng("streams")
    jobs = [(ex, c.work, g.getrandbits(40), None, None, i % 3 == 0) for i in range(c.n(1700, 12000))]
    jobs += [(ex, c.work, g.getrandbits(40), dict(key_again=1, hidden=0), None, True) for i in range(c.n(50, 200))]
    jobs += [(ex, c.work, g.getrandbits(30) * 2 + i % 2, None, ENC[i % len(ENC)], True) for i in range(c.n(60, 300))]
    for job, (bad, n, feats, src) in zip(jobs, pmap(one, jobs, chunk=2)):
        c.ev(n); c.state(feats); c.saw("frames rewritten and compared", n)
        c.saw("streams through the tools", 1 if job[5] else 0)
        c.sample("seed %d: %s" % (job[2], ",".join(sorted(map(str, feats)))[:300]))
        for key, text in bad[:4]: c.violation("%s:seed%d" % (key, job[2]), text, [src])
    c.assumptions.append("libvpx's vpxdec is a conforming VP8 decoder")
