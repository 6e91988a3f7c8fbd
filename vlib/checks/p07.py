"""P07: chunks encoded apart, terminated, rebased one after another and merged."""
import os, math, struct
from vlib import build, streams, ref, video
from vlib.common import pmap, run, HarnessError

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: the chunk pipeline of the command-line tools, its state files and streams observed at every boundary; libvpx plays the joined stream"
NOTE = "oracles: libvpx on the merged stream, own digest of decoder states, stream bytes for merging, distance to the source pictures relative to the quantizer and to the stream being rebased"
RULE = ("a case is one chunk rebased onto a state; distinct by the prediction's origin, boundary kind, frame kinds and weights; "
        "state files, first frames, frame counts, tags, joined pictures and closeness are compared")

VPX = [[], ["--cpu-used=0", "--auto-alt-ref=0"], ["--cpu-used=-8", "--rt"], ["--error-resilient=1"], ["--kf-max-dist=2"], ["--token-parts=2", "--min-q=50", "--max-q=63"],
       ["--min-q=0", "--max-q=10"], ["--sharpness=5", "--min-q=30"], ["--noise-sensitivity=3", "--rt", "--cpu-used=4"], ["--static-thresh=1000"],
       ["--target-bitrate=50"], ["--good", "--cpu-used=2", "--auto-alt-ref=0", "--lag-in-frames=0"]]
AC = list(range(4, 59)) + list(range(60, 117, 2)) + list(range(119, 156, 3)) + [158, 161, 164, 167, 170, 173] + list(range(177, 230, 4)) + [234, 239, 245, 249, 254, 259, 264, 269, 274, 279, 284]
assert len(AC) == 128

TOOLS = ["h:state", "xc-enc", "xc-terminate-chunk", "xc-merge", "vp8decode", "xc-decode-bundle"]

def rmse(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)) / len(a))

class Sc:
    """one scenario; everything it makes lies in files starting with its prefix"""
    def __init__(self, job):
        self.ex, self.work, self.seed, self.origin = job
        import random
        self.g = random.Random(self.seed)
        self.t = os.path.join(self.work, "m%d." % self.seed)
        self.bad, self.rebased, self.kinds, self.seen, self.files, self.unsup = [], 0, set(), {}, set(), 0
        self.close = []

    def f(self, n):
        p = self.t + n; self.files.add(p); return p
    def say(self, key, text): self.bad.append((key, text))
    def count(self, k, n=1): self.seen[k] = self.seen.get(k, 0) + n

    def predict(self, i, fr):
        """a chunk encoded on its own, starting with a key frame"""
        g, p = self.g, self.f("p%d.ivf" % i)
        y = self.f("p%d.y4m" % i); open(y, "wb").write(video.y4m(self.w, self.h, fr))
        if self.origin == "vpx": ref.vpxenc(y, p, g.choice(VPX))
        elif self.origin == "xc":
            r = run([self.ex["xc-enc"], "-i", "y4m", "-o", p] + g.choice([["-y", str(g.choice([0, 5, 30, 60, 100, 127]))], ["-s", "0.9"], ["-q", "rt", "-y", "40"]]) + g.choice([[], [], ["-2"]]) + [y], timeout=120)
            if r.rc: raise HarnessError("xc-enc: " + r.errtext[-300:])
        else:
            seg = self.origin == "gen-seg"
            streams.make(p, g.getrandbits(40), (self.w, self.h), len(fr),
                         dict(hidden=0, segmentation=.6 if seg else 0, key_again=g.choice([0, 0, .3]) if not seg else .3, lf_delta=self.lf, **(dict(lf_style='zero', qdelta=0) if self.plain else {})))
        n = len(streams.split_ivf(open(p, "rb").read()))
        if n != len(fr): return None
        return p, y

    def minihash(self, l): return int(l.split()[-1], 0)

    def follow(self, name, st, ivf, out):
        y = self.f(name + ".yuv")
        ls, bad = streams.lines(run([self.ex["h:state"], "follow", st, ivf, out, y], timeout=120), name)
        self.bad += bad
        d = dict(F=[])
        for l in ls:
            k, _, v = l.partition(" ")
            if k == "F": d["F"].append(v.split())
            elif k in "IEO": d[k] = v
        data = open(y, "rb").read() if os.path.exists(y) else b""
        fs = self.w * self.h + 2 * ((self.w + 1) // 2) * ((self.h + 1) // 2)
        d["pics"] = [data[k:k + fs] for k in range(0, len(data), fs)]
        return d

    def rebase(self, name, y4m, pred, ins, predstate, extra, frames, source):
        """returns (ivf, state, followed) or None"""
        g = self.g
        o, st = self.f(name + ".ivf"), self.f(name + ".st")
        kw = g.choice([1.0, 0.75, 0.5, 0.0, 1.0])
        cmd = [self.ex["xc-enc"], "-W", "-i", "y4m", "-o", o, "-r", "-I", ins, "-p", pred, "-O", st, "-w", str(kw)]
        if predstate: cmd += ["-S", predstate]
        if extra: cmd.append("-e")
        if g.random() < .2: cmd += ["-q", "rt"]
        if g.random() < .2: cmd += ["-2"]
        r = run(cmd + [y4m], timeout=300)
        what = "%s (%s onto %s, %d frames%s, weight %s)" % (name, os.path.basename(pred), os.path.basename(ins), frames, ", extra frame" if extra else "", kw)
        if r.rc:
            if "segmentation not supported" in r.errtext: self.unsup += 1; return None
            self.say("rebase-fails", "%s: exit %s %s" % (what, r.rc, r.errtext[-300:])); return None
        raw = open(o, "rb").read(); fr = streams.split_ivf(raw)
        w, h, cnt, tag = struct.unpack_from("<HH", raw, 12) + struct.unpack_from("<II", raw, 24)
        want = frames - (1 if extra else 0)
        if (w, h) != (self.w, self.h): self.say("header", "%s: header says %dx%d" % (what, w, h))
        if len(fr) != want or cnt != want: self.say("count", "%s: %d frames (header %d), expected %d" % (what, len(fr), cnt, want)); return None
        d = self.follow(name, ins, o, st)
        if self.bad: return None
        import re
        if fr and not fr[0][0] & 1: self.say("key", "%s: it starts with a key frame" % what)
        src = streams.split_ivf(open(pred, "rb").read())[1 if extra else 0:]
        for k, (a, b) in enumerate(zip(src, fr)):
            if k and (a[0] & 1) != (b[0] & 1): self.say("kind", "%s: frame %d changed between key and inter frame" % (what, k))
        self.rebased += 1; self.count("chunks rebased"); self.count("frames rebased", len(fr))
        self.kinds.add((self.origin, extra, bool(predstate), "".join("I" if x[0] & 1 else "K" for x in fr)[:4], kw))
        mh = d["I"].split()[1] if "I" in d else None
        self.tags.append((what, tag, d))
        # closeness
        if (self.origin in ("vpx", "xc") or self.plain) and len(d["pics"]) == len(source):
            for k, (a, b, p) in enumerate(zip(d["pics"], source, self.predpics[pred][1 if extra else 0:])):
                if self.plain and d["F"][k][1] == "1": continue    # a preserved key frame of a made-up chunk
                self.close.append((rmse(a, b), rmse(p, b), int(d['F'][k][3]), int(d['F'][k][4]), k, what))
        return o, st, d

    def go(self):
        g = self.g
        self.tags, self.predpics = [], {}
        self.w, self.h = g.choice([(64, 48), (48, 48), (33, 47), (80, 32), (16, 16), (70, 50)])
        self.lf = g.choice([0, 1, 1])      # switching them off and on again between chunks would meet P01's known finding
        self.plain = self.origin == 'gen' and g.random() < .6   # no loop filter, one quantizer: closeness can be bounded
        K, extra = g.randrange(2, 5), g.random() < .35
        ns = [g.randrange(1, 5) for _ in range(K)]
        _, src = video.frames(g.getrandbits(30), self.w, self.h, sum(ns))
        at, chunks = 0, []
        for i, n in enumerate(ns):
            e = extra and i > 0
            fr = src[at - 1 if e else at:at + n]
            p = self.predict(i, fr)
            if p is None: return
            t, st = self.f("t%d.ivf" % i), self.f("t%d.st" % i)
            r = run([self.ex["xc-terminate-chunk"], p[0], t, st])
            if r.rc: self.say("terminate-fails", r.errtext[-300:]); return
            d = self.follow("t%d" % i, "-", t, st)
            if self.bad: return
            pred = p[0] if g.random() < .4 else t        # rebasing terminates the chunk in any case
            self.predpics[t] = self.predpics[p[0]] = d["pics"]
            chunks.append(dict(n=len(fr), y4m=p[1], ivf=t, pred=pred, st=st, e=e, src=src[at:at + n], fr=fr, d=d)); at += n
        # first pass: every chunk onto the end of its own predecessor
        for i in range(1, K):
            c = chunks[i]
            r = self.rebase("a%d" % i, c["y4m"], c["pred"], chunks[i - 1]["st"], None, c["e"], c["n"], c["src"])
            if r is None: break
            c["a"] = r; self.predpics[r[0]] = r[2]["pics"]
        if self.bad: return
        # second pass: in order, onto the final state of the predecessor
        done = [(chunks[0]["ivf"], chunks[0]["st"], chunks[0]["d"])]
        for i in range(1, K):
            c = chunks[i]
            if "a" not in c: break
            if i == 1: done.append(c["a"]); continue
            y = self.f("s%d.y4m" % i); open(y, "wb").write(video.y4m(self.w, self.h, c["src"]))
            r = self.rebase("b%d" % i, y, c["a"][0], done[-1][1], chunks[i - 1]["st"], False, len(c["src"]), c["src"])
            if r is None: break
            done.append(r)
        if self.bad: return
        # merge
        if len(done) > 1:
            cur = done[0][0]
            for i in range(1, len(done)):
                nxt = self.f("j%d.ivf" % i)
                r = run([self.ex["xc-merge"], cur, done[i][0], nxt])
                if r.rc: self.say("merge-fails", r.errtext[-300:]); return
                cur = nxt
            fr = streams.split_ivf(open(cur, "rb").read())
            exp = [x for d in done for x in streams.split_ivf(open(d[0], "rb").read())]
            self.count("joined streams"); self.count("frames joined", len(exp))
            if fr != exp: self.say("merge", "the merged stream does not consist of the frames of the chunks in order"); return
            pics = [p for d in done for p in d[2]["pics"]]
            got, err = ref.vpxdec(cur, self.w, self.h, self.work, "m%d" % self.seed)
            p = err if got is None else ref.compare(pics, got, self.w, self.h)
            if p: self.say("joined", "libvpx shows the joined stream differently from the chunks decoded from their states: " + p); return
            r = run([self.ex["xc-decode-bundle"]], input="".join(d[0] + "\n" for d in done).encode())
            mine = video.split_y4m(r.out, self.w, self.h) if r.rc == 0 else None
            p = r.errtext[-300:] if r.rc else ref.compare(pics, mine, self.w, self.h)
            if p: self.say("bundle", "xc-decode-bundle on the chunks: " + p)
            i = g.randrange(1, len(done)); o = self.f("d.y4m")
            r = run([self.ex["vp8decode"], "-s", done[i - 1][1], "-o", o, done[i][0]])
            mine = video.split_y4m(open(o, "rb").read(), self.w, self.h) if r.rc == 0 else None
            p = r.errtext[-300:] if r.rc else ref.compare(done[i][2]["pics"], mine, self.w, self.h)
            if p: self.say("decode", "vp8decode -s on chunk %d: %s" % (i, p))
            # a chunk offered to a decoder in another state is refused
            if i > 1 and done[1][2]["I"].split()[-1] != done[i][2]["I"].split()[-1]:
                r = run([self.ex["xc-decode-bundle"]], input=(done[0][0] + "\n" + done[i][0] + "\n").encode())
                if r.rc == 0: self.say("mixed-up", "xc-decode-bundle accepts chunk %d directly after chunk 0" % i)
                self.count("misplaced chunks refused")

def one(job):
    s = Sc(job)
    s.go()
    for what, tag, d in s.tags:
        mh = d["I"].split()[-1]
        if tag != int(mh, 0 if mh.startswith("0x") else 10): s.say("tag", "%s: tag %x, state %s" % (what, tag, mh))
    # what quantization alone can do, half a step in every sample, and what the loop filter smooths away on top
    for got, pred, q, lf, k, what in s.close:
        s.count("frames compared with their source picture")
        if got > .8 * (AC[q] / 2 + 1) + lf / 4: s.say("closeness", "%s: frame %d is %.1f (rms) away from its source picture with quantizer %d (the frame it was made from: %.1f)" % (what, k, got, q, pred)); break
    keep = []
    for f in sorted(s.files):
        if os.path.exists(f):
            if s.bad and not f.endswith(".yuv"): keep.append(f)
            else: os.unlink(f)
    return s.bad, s.rebased, s.kinds, s.seen, s.unsup, s.close, keep

def check(c):
    ex = build.build("opt", TOOLS)
    g = c.rng("pipelines")
    plan = ["vpx"] * c.n(260, 2500) + ["xc"] * c.n(130, 800) + ["gen"] * c.n(600, 5000) + ["gen-seg"] * c.n(200, 1500)
    jobs = [(ex, c.work, g.getrandbits(40), o) for o in plan]
    if c.tier == "thorough":
        san = build.build("asan", TOOLS)
        jobs += [(san, c.work, g.getrandbits(40), o) for o in plan[::20]]
    for job, (bad, n, kinds, seen, unsup, close, keep) in zip(jobs, pmap(one, jobs)):
        c.ev(n)
        for k in kinds: c.state(k)
        for k, v in seen.items(): c.saw(k, v)
        c.saw("chunks refused because they use segmentation", unsup)
        c.sample("seed %d %s: %s" % (job[2], job[3], sorted(kinds)[:4]))
        for key, text in bad[:3]: c.violation("%s:seed%d" % (key, job[2]), text, keep)
        if os.environ.get("P07_CAL"):
            for x in close: print("CAL", job[3], *["%.3f" % v if isinstance(v, float) else v for v in x])
