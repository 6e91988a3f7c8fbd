"""P03: states saved after every frame of generated streams and restored in the same and in other processes."""
import os, shutil
from vlib import build, streams, video
from vlib.common import pmap, run, HarnessError

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: state saved and restored (same process and another one) after every frame, component-wise digests and continued decoding compared"
NOTE = "the monitor reads every component of the state with its own digest, independently of the repository's comparison and hash functions"
RULE = ("a case is one saved state of a generated stream; distinct by state digest; the file is restored in the same process, in another process and by vp8decode -s, "
        "and what it holds and how it decodes the frames that follow is compared with the decoder it came from")

def one(job):
    exe, dec, work, seed, size, n, ncut = job
    d = os.path.join(work, "c%d" % seed); os.makedirs(d)
    m = streams.make(os.path.join(d, "s.ivf"), seed, size, n, dict(key_again=.25, golden=.3) if seed % 3 == 0 else None)
    bad, states, sample = [], [], ""
    r1, b1 = streams.lines(run([exe, "save", m.path, d], env={"MALLOC_PERTURB_": "90"}), "save")
    r2, b2 = streams.lines(run([exe, "load", m.path, d], env={"MALLOC_PERTURB_": "165"}), "load")
    bad += b1 + b2
    rs, bs = streams.lines(run([exe, "synth", seed, 12, m.path, d], env={"MALLOC_PERTURB_": "40"}), "synth")
    bad += bs
    synth = [l.split()[1] for l in rs if l.startswith("Y ")]
    cont = cuts = 0
    saved, nxt = {}, {}
    coincide = []
    if not bad:
        for l in r1:
            f = l.split()
            if f[0] == "S":
                st, la, go, al = f[2].split(",")
                saved[f[1]] = (",".join((st, la, la, la)), f[4], f[5])
                states.append(f[2])
                if f[3] == "1": coincide.append((int(f[1]), int(f[5])))
            elif f[0] == "N": nxt[f[1], f[2]] = f[3:]
        for l in r2:
            f = l.split()
            if f[0] == "S":
                if saved[f[1]] != (f[2], f[3], f[4]): bad.append(("other-process", "frame %s: restored %s, saved %s" % (f[1], f[2:], saved[f[1]])))
            elif f[0] == "N":
                cont += 1
                if nxt[f[1], f[2]] != f[3:]: bad.append(("continue", "saved after frame %s: frame %s decodes differently after restoring" % (f[1], f[2])))
        if len([l for l in r2 if l[0] == "S"]) != m.n: raise HarnessError("load lines")
    # cut the video, resume with the tool
    if not bad and ncut:
        full = os.path.join(d, "full.y4m")
        r = run([dec, "-o", full, m.path])
        whole = video.split_y4m(open(full, "rb").read(), m.w, m.h) if r.rc == 0 else None
        frames = streams.split_ivf(open(m.path, "rb").read())
        for (i, tag) in coincide[:ncut] if whole else []:
            if i >= m.n - 1: continue
            rest = os.path.join(d, "rest.ivf"); out = os.path.join(d, "rest.y4m")
            streams.write_ivf(rest, m.w, m.h, frames[i + 1:], tag=tag if i % 2 else 0)
            r = run([dec, "-s", os.path.join(d, "%d.st" % i), "-o", out, rest])
            shown = sum((f[0] >> 4) & 1 for f in frames[i + 1:])
            got = video.split_y4m(open(out, "rb").read(), m.w, m.h) if r.rc == 0 and os.path.exists(out) else None
            cuts += 1
            if got != whole[len(whole) - shown:]:
                bad.append(("resume", "cut after frame %d: resuming from the saved state %s" % (i, "shows other pictures" if got else "fails: " + r.errtext[-200:])))
    keep = os.path.join(work, "p%d.ivf" % seed)
    if bad: shutil.copy(m.path, keep)
    shutil.rmtree(d)
    return bad, states, synth, cont, cuts, len(coincide), "seed %d %dx%d %d frames" % (seed, m.w, m.h, m.n), keep, sorted(m.features & {"segmentation", "lf_delta"})

def check(c):
    ex = build.build("opt", ["vp8decode", "h:state"])
    g = c.rng("streams")
    sizes = [None, None, None, (16, 16), (1, 1), (17, 33), (320, 16), (300, 20), (31, 257), (63, 47), (15, 64)]
    jobs = [(ex["h:state"], ex["vp8decode"], c.work, g.getrandbits(40), sizes[i % len(sizes)], g.randrange(4, 10), 3 if i % 2 == 0 else 0) for i in range(c.n(900, 8000))]
    jobs += [(ex["h:state"], ex["vp8decode"], c.work, g.getrandbits(40), s, 3, 1) for s in [(1000, 70), (640, 368), (33, 1200)] for _ in range(c.n(1, 20))]
    for job, (bad, states, synth, cont, cuts, co, sample, keep, feats) in zip(jobs, pmap(one, jobs, chunk=2)):
        c.ev(len(states)); c.saw("states saved and restored", len(states)); c.saw("frames decoded after restoring", cont); c.saw("videos cut and resumed with vp8decode -s", cuts)
        c.saw("states whose three pictures coincide", co)
        c.ev(len(synth)); c.saw("states with drawn components (zeros, limits, repeated values) saved and restored", len(synth))
        for s in states + synth: c.state(s)
        c.sample(sample)
        for key, text in bad: c.violation("%s:seed%d" % (key, job[3]), text, [keep])
