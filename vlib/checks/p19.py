"""P19: what the inspection tools print, against streams, states and pictures whose content is known."""
import os, random, struct, math
from vlib import build, streams, video, ref, dissect
from vlib.common import pmap, run, HarnessError

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: the output and exit status of the real tools on streams with known syntax, states with known differences and pictures with known SSIM; the same tools under ASan/UBSan on bad input"
NOTE = "oracles: the generator's own record of what it wrote, an own reader of the state file, an own SSIM on vpxdec's pictures; SSIM of planes smaller than one 8x8 window is only checked where the padding is known"
RULE = ("a case is one printed frame, state comparison, SSIM value or refused input; distinct by frame syntax, differing parts, picture pair or kind of bad input; "
        "the output must say exactly what is in the input, and bad input must end in an error without a sanitizer report")

TOOLS = ["xc-dissect", "xc-ssim", "xc-dump", "xc-diff", "comp-states", "xc-framesize", "xc-enc", "vp8decode"]
SIZES = [(16, 16), (48, 32), (33, 17), (17, 33), (1, 1), (64, 48), (50, 34), (96, 16), (20, 12), (31, 64)]

def bits(a, b):
    return 8 * abs(len(a) - len(b)) + sum(bin(x ^ y).count("1") for x, y in zip(a, b))

# ---------------------------------------------------------------- states
class Bad(Exception): pass
def state(data):
    """own reader of the state file -> dict of parts (values and where they lie)"""
    p = 0
    def u(n):
        nonlocal p
        if p + n > len(data): raise Bad()
        v = int.from_bytes(data[p:p + n], "little"); p += n; return v
    def tag(*t):
        x = u(1)
        if x not in t: raise Bad("tag %d" % x)
        return x
    def take(n):
        nonlocal p
        if p + n > len(data): raise Bad()
        a = p; p += n; return a, data[a:p]
    s = {}
    tag(11); u(4); tag(4); u(4)
    s["dim"] = (u(2), u(2))
    tag(0); n = u(4)
    if n != 1056 + 4 + 3 + 38: raise Bad("probabilities")
    for k, n in (("coeff", 1056), ("ymode", 4), ("uvmode", 3), ("mv", 38)): s["@" + k], s[k] = take(n)
    s["@segopt"] = p
    if tag(5, 6) == 6:
        s["@segtag"] = p
        a = tag(2, 3); u(4); w, h = u(2), u(2)
        s["@segq"], q = take(4); s["@seglf"], l = take(4); s["@map"], m = take(w * h)
        s["seg"] = (a, w, h, q, l, m)
    else: s["seg"] = None
    s["@segend"] = p
    s["@filtopt"] = p
    if tag(5, 6) == 6: tag(1); u(4); s["@filt"], s["filt"] = take(8)
    else: s["filt"] = None
    s["@filtend"] = p
    tag(7); u(4); rw, rh = u(2), u(2)
    tag(8); n = u(4); s["@pix"], s["pix"] = take(n)
    if p != len(data): raise Bad("end")
    return s

def diff_text(a, b):
    """what xc-diff has to print"""
    o = []
    if a == b: return o
    o.append("Decoders are different.")
    st = []
    pr = [t for k, t in (("coeff", "Coefficient"), ("ymode", "Y-mode"), ("uvmode", "UV-mode"), ("mv", "Motion vector")) if a[k] != b[k]]
    if pr: st += ["    Probability tables are different."] + ["      %s probabilities are different." % x for x in pr]
    if a["seg"] != b["seg"]: st.append("    Segmentations are different.")
    if a["filt"] != b["filt"]: st.append("    Filter adjustments are different.")
    if st: o += ["  Decoder states are diffrent."] + st
    if a["pix"] != b["pix"]: o += ["  References are different."] + ["    %s references are different." % x for x in ("Last", "Golden", "Alternative")]
    return o

def parts(s): return {k: v for k, v in s.items() if k[0] != "@"}

def mutate(g, data):
    """a state that differs from data in known parts only"""
    s = state(data); d = bytearray(data)
    kinds = ["coeff", "ymode", "uvmode", "mv", "pix"] + (["segq", "seglf", "map", "segtag", "dropseg"] if s["seg"] else []) + (["filt", "dropfilt"] if s["filt"] else [])
    picked = g.sample(kinds, g.choice([1, 1, 1, 2, 3]))
    drops = []
    for k in picked:
        if k == "dropseg": drops.append((s["@segopt"], s["@segend"]))
        elif k == "dropfilt": drops.append((s["@filtopt"], s["@filtend"]))
        elif k == "segtag": d[s["@segtag"]] ^= 1
        else:
            n = len(s[k]) if k in s else dict(segq=4, seglf=4, map=len(s["seg"][5]) if s["seg"] else 0)[k]
            # the ends of the tables as often as the middle
            i = s["@" + k] + g.choice([0, n - 1, g.randrange(n), g.randrange(n)])
            if k == "map": d[i] = (d[i] + g.randrange(1, 4)) & 3
            elif k in ("segq", "seglf", "filt"): d[i] ^= g.choice([1, 0x80, 3])
            else: d[i] ^= g.choice([1, 2, 0x80, 0xff])
    for a, b in sorted(drops, reverse=True):
        d[a:b] = b"\x05"
        n = b - a - 1
        for at in (1, 6): struct.pack_into("<I", d, at, struct.unpack_from("<I", d, at)[0] - n)
    return bytes(d), "+".join(sorted(picked))

def compare_states(ex, a, b):
    """problems of xc-diff and comp-states on two state files"""
    A, B = open(a, "rb").read(), open(b, "rb").read()
    sa, sb = state(A), state(B)
    bad = []
    r = run([ex["xc-diff"], a, b])
    want = diff_text(parts(sa), parts(sb))
    got = [x for x in r.text.split("\n") if x.strip()]
    if r.rc != (1 if want else 0): bad.append(("diff-exit", "xc-diff exits %s on %s states %s" % (r.rc, "different" if want else "equal", r.errtext[-200:])))
    elif got != want: bad.append(("diff-text", "xc-diff prints %s, expected %s" % (got, want)))
    r = run([ex["comp-states"], a, b])
    n = bits(A, B)
    f = r.text.split()
    if r.rc != (1 if n else 0): bad.append(("comp-exit", "comp-states exits %s, %d bits differ" % (r.rc, n)))
    elif not f or f[0] != str(n): bad.append(("comp-bits", "comp-states prints %s, %d bits differ" % (f[:1], n)))
    elif n:
        d = [abs(x - y) for x, y in zip(sa["pix"], sb["pix"]) if x != y]
        ok = len(f) == 3
        if ok:
            x, y = float(f[1]), float(f[2])
            ok = abs(x - len(d) / len(sa["pix"])) < 1e-5 * max(x, 1e-9) + 1e-12 and (math.isnan(y) if not d else abs(y - sum(d) / len(d)) < 2e-5 * y)
        if not ok: bad.append(("comp-pixels", "comp-states prints %s; %d of %d samples differ by %d" % (f, len(d), len(sa["pix"]), sum(d))))
    return bad, tuple(want)

# ---------------------------------------------------------------- one generated stream
def stream(job):
    ex, work, seed, size = job
    g = random.Random(seed)
    t = os.path.join(work, "s%d" % seed)
    m = streams.make(t + ".ivf", seed, size, record=True)
    bad, cases, files, n = [], set(), [t + ".ivf"], 0
    R = [x["syntax"] for x in m.metas]
    # sizes
    r = run([ex["xc-framesize"], m.path])
    want = ["%08d %d" % (i, len(f)) for i, f in enumerate(m.frames)] + ["Total %d" % os.path.getsize(m.path)]
    n += 1
    if r.rc or r.text.split("\n")[:-1] != want: bad.append(("framesize", "xc-framesize prints %s" % r.text[:200]))
    # everything, then subsets of the options
    full = None
    for opts in ("mpc", g.choice(["m", "p", "mc", "mp", ""]), "f"):
        k = g.randrange(m.n)
        sel = g.choice(["mpc", "m", ""]) if opts == "f" else opts
        args = ["-" + x for x in sel] + (["-f", k] if opts == "f" else [])
        if g.random() < .3:
            long = dict(m="--macroblocks", p="--probability-tables", c="--coefficients", f="--frame")
            args = [long[x[1]] if x in ("-m", "-p", "-c", "-f") else x for x in map(str, args)]
        r = run([ex["xc-dissect"]] + args + [m.path])
        if r.rc: bad.append(("dissect-exit", "xc-dissect %s: exit %s %s" % (args, r.rc, r.errtext[-200:]))); continue
        try: fs = dissect.parse(r.text)
        except (ValueError, AssertionError, IndexError, TypeError, KeyError) as e: bad.append(("dissect-text", "xc-dissect %s: %s" % (args, e))); continue
        if opts == "mpc": full = r.text
        idx = [k] if opts == "f" else range(m.n)
        if [f["no"] for f in fs] != list(idx): bad.append(("dissect-frames", "xc-dissect %s prints frames %s of %d" % (args, [f["no"] for f in fs], m.n))); continue
        for f, i in zip(fs, idx):
            b = dissect.compare(f, R[i], i, len(m.frames[i]), "p" in sel, "m" in sel, "m" in sel and "c" in sel)
            n += 1; cases.add(("frame", seed, i, sel))
            if b: bad.append(("dissect", "xc-dissect %s, frame %d: %s" % (args, i, b))); break
    # states: dumped, equal to themselves, and compared with one another
    dumps = {}
    dec, err = ref.vpxdec(m.path, m.w, m.h, work, "s%d" % seed)
    for k in sorted(set([m.n - 1] + [i - 1 for i in range(1, m.n) if R[i]["key"]][:1] + [g.randrange(m.n), g.randrange(m.n)])):
        o = t + ".%d.state" % k; files.append(o)
        args = ["-f", k] if k < m.n - 1 or g.random() < .5 else []
        r = run([ex["xc-dump"]] + args + [m.path, o])
        if r.rc or not os.path.exists(o): bad.append(("dump-exit", "xc-dump %s: exit %s %s" % (args, r.rc, r.errtext[-200:]))); continue
        try: s = state(open(o, "rb").read())
        except Bad as e: bad.append(("dump-format", "xc-dump %s: not a state file (%s)" % (args, e))); continue
        dumps[k] = o
        if s["dim"] != (m.w, m.h): bad.append(("dump-dim", "the state of a %dx%d stream says %s" % (m.w, m.h, s["dim"])))
        # what is known of the state: the probabilities in force and the last reference
        if (s["coeff"], s["ymode"], s["uvmode"], s["mv"]) != R[k]["after"]: bad.append(("dump-probs", "the state after frame %d does not hold the probabilities in force" % k))
        if R[k]["show"] and (R[k]["key"] or R[k]["rl"]) and dec:
            pw, ph = (m.w + 15) & ~15, (m.h + 15) & ~15
            pix, at, got = s["pix"], 0, b""
            for w, h, cw, ch in ((m.w, m.h, pw, ph), ((m.w + 1) // 2, (m.h + 1) // 2, pw // 2, ph // 2), ((m.w + 1) // 2, (m.h + 1) // 2, pw // 2, ph // 2)):
                got += b"".join(pix[at + y * cw:at + y * cw + w] for y in range(h)); at += cw * ch
            if got != dec[sum(x["show"] for x in R[:k])]: bad.append(("dump-picture", "the state after frame %d holds another picture" % k))
            cases.add(("picture", seed, k))
    ks = sorted(dumps)
    if len(ks) > 1 and full:
        # the state of frame a, taken through the frames up to b, is the state of frame b: in particular where golden is not used
        a, b = ks[0], ks[-1]
        rest = t + ".rest.ivf"; files.append(rest)
        streams.write_ivf(rest, m.w, m.h, m.frames[a + 1:b + 1])
        r = run([ex["xc-dissect"], "-m", "-p", "-c", "-s", dumps[a], rest])
        if r.rc: bad.append(("dissect-state", "xc-dissect -s: exit %s %s" % (r.rc, r.errtext[-200:])))
        else:
            try: fs = dissect.parse(r.text)
            except (ValueError, AssertionError, IndexError, TypeError, KeyError) as e: fs = []; bad.append(("dissect-text", "xc-dissect -s: %s" % e))
            for i, f in enumerate(fs):
                n += 1; cases.add(("rest", seed, a + 1 + i))
                x = dissect.compare(f, R[a + 1 + i], i, len(m.frames[a + 1 + i]), 1, 1, 1)
                if x: bad.append(("dissect-state", "xc-dissect -s, frame %d: %s" % (a + 1 + i, x))); break
        lastonly = R[a + 1]["key"] or all(x["key"] or not any(y[2]["ref"] > 1 for y in x["mbs"]) for x in R[a + 1:b + 1])
        o = t + ".rest.state"; files.append(o)
        r = run([ex["xc-dump"], "-S", dumps[a], rest, o])
        n += 1
        if r.rc: bad.append(("dump-state", "xc-dump -S: exit %s %s" % (r.rc, r.errtext[-200:])))
        elif lastonly and open(o, "rb").read() != open(dumps[b], "rb").read(): bad.append(("dump-chain", "frames %d..%d after the state of frame %d end in another state" % (a + 1, b, a)))
        else: cases.add(("chain", lastonly, seed))
    for k in ks:
        A = open(dumps[k], "rb").read()
        pairs = [(dumps[k], "same"), (dumps[g.choice(ks)], "other frame")]
        for v in range(3):
            d, what = mutate(g, A)
            x = t + ".m%d" % v; files.append(x)
            open(x, "wb").write(d); pairs.append((x, what))
        for x, what in pairs:
            if g.random() < .5: b, w = compare_states(ex, dumps[k], x)
            else: b, w = compare_states(ex, x, dumps[k])
            n += 2; cases.add(("diff", what, w))
            bad += [(key, "%s: %s" % (what, text)) for key, text in b]
    if not bad:
        for f in files:
            if os.path.exists(f): os.unlink(f)
    return bad, n, cases, files

# ---------------------------------------------------------------- SSIM
def ssim(a, b, w, h):
    """x264's: 8x8 windows in steps of 4; None if there is no window"""
    nw, nh = (w >> 2) - 1, (h >> 2) - 1
    if nw < 1 or nh < 1: return None
    c1, c2 = int(.01 * .01 * 255 * 255 * 64 + .5), int(.03 * .03 * 255 * 255 * 64 * 63 + .5)
    def cell(x, y):
        s1 = s2 = ss = s12 = 0
        for j in range(4 * y, 4 * y + 4):
            o = j * w + 4 * x
            for p, q in zip(a[o:o + 4], b[o:o + 4]): s1 += p; s2 += q; ss += p * p + q * q; s12 += p * q
        return s1, s2, ss, s12
    cells = [[cell(x, y) for x in range(nw + 1)] for y in range(nh + 1)]
    tot = 0.
    for y in range(nh):
        for x in range(nw):
            s1, s2, ss, s12 = (sum(v) for v in zip(cells[y][x], cells[y][x + 1], cells[y + 1][x], cells[y + 1][x + 1]))
            var, cov = ss * 64 - s1 * s1 - s2 * s2, s12 * 64 - s1 * s2
            tot += (2. * s1 * s2 + c1) * (2. * cov + c2) / ((float(s1) * s1 + float(s2) * s2 + c1) * (float(var) + c2))
    return tot / (nw * nh)

def planes(f, w, h):
    cw, ch = (w + 1) // 2, (h + 1) // 2
    return [(f[:w * h], w, h), (f[w * h:w * h + cw * ch], cw, ch), (f[w * h + cw * ch:], cw, ch)]

def y4m(path, w, h, frames):
    with open(path, "wb") as f:
        f.write(b"YUV4MPEG2 W%d H%d F24:1 Ip A1:1 C420\n" % (w, h))
        for x in frames: f.write(b"FRAME\n" + x)

def distort(g, f):
    k = g.choice(["noise", "few", "shift", "invert", "other", "scale"])
    f = bytearray(f)
    if k == "noise": a = g.choice([1, 3, 20]); f = bytearray(min(255, max(0, x + g.randrange(-a, a + 1))) for x in f)
    elif k == "few":
        for _ in range(g.randrange(1, 6)): f[g.randrange(len(f))] = g.randrange(256)
    elif k == "shift": n = g.randrange(1, 9); f = f[n:] + f[:n]
    elif k == "invert": f = bytearray(255 - x for x in f)
    elif k == "other": f = bytearray(g.randbytes(len(f)))
    elif k == "scale": f = bytearray(x * 3 // 4 for x in f)
    return bytes(f)

def quality(job):
    ex, work, seed, size = job
    g = random.Random(seed); w, h = size
    t = os.path.join(work, "q%d" % seed)
    kind, src = video.frames(seed, w, h, 3)
    bad, cases, n = [], set(), 0
    one = [src, [distort(g, x) for x in src], list(src)]
    names = []
    for i, fr in enumerate(one): names.append((t + ".%d.y4m" % i, "y4m", fr)); y4m(names[-1][0], w, h, fr)
    # a coded video, and its pictures by the reference decoder
    if seed & 1:
        i1 = t + ".a.ivf"; ref.vpxenc(names[0][0], i1, g.choice([["--end-usage=q", "--cq-level=50", "--min-q=40"], ["--target-bitrate=60"], ["--auto-alt-ref=1", "--lag-in-frames=3"]]))
    else: i1 = streams.make(t + ".a.ivf", seed, size, 4).path
    dec, err = ref.vpxdec(i1, w, h, work, "q%d" % seed)
    if dec is None: raise HarnessError("vpxdec: " + err)
    names.append((i1, "ivf", dec))
    names.append((t + ".d.y4m", "y4m", dec)); y4m(t + ".d.y4m", w, h, dec)
    pairs = [(0, 0), (0, 1), (1, 0), (0, 2), (3, 4), (4, 3), (3, 3), (0, 3), (1, 3), (3, 1)]
    for i, j in pairs:
        (p1, f1, a), (p2, f2, b) = names[i], names[j]
        args = []
        allp = g.random() < .7
        if allp: args.append(g.choice(["-a", "--all-planes"]))
        # ivf is the documented default
        if f1 != "ivf" or g.random() < .5: args += ["-1", f1] if g.random() < .5 else ["--video1-format=" + f1]
        if f2 != "ivf" or g.random() < .5: args += ["-2", f2] if g.random() < .5 else ["--video2-format=" + f2]
        r = run([ex["xc-ssim"]] + args + [p1, p2])
        what = "xc-ssim %s (%dx%d %s)" % (" ".join(map(str, args + [os.path.basename(p1), os.path.basename(p2)])), w, h, kind)
        if r.rc: bad.append(("ssim-exit", "%s: exit %s %s" % (what, r.rc, r.errtext[-200:]))); continue
        rows = [x.split() for x in r.text.split("\n")[:-1]]
        if len(rows) != min(len(a), len(b)): bad.append(("ssim-rows", "%s: %d lines for %d and %d pictures" % (what, len(rows), len(a), len(b)))); continue
        for k, row in enumerate(rows):
            if len(row) != (3 if allp else 1): bad.append(("ssim-planes", "%s: %s" % (what, row))); break
            for z, ((x, pw, ph), (y, _, _)) in enumerate(zip(planes(a[k], w, h), planes(b[k], w, h))):
                if z >= len(row): break
                v = ssim(x, y, pw, ph); got = float(row[z]); n += 1
                if v is None:
                    # smaller than a window: only that equal pictures are equal
                    if f1 == f2 == "y4m" and x == y and got != 1: bad.append(("ssim-small", "%s: %s of equal pictures" % (what, row)))
                    continue
                if x == y: v = 1.
                if not abs(v - got) <= 3e-5: bad.append(("ssim", "%s: picture %d plane %d: %s, really %.6f" % (what, k, z, row[z], v))); break
                cases.add(("ssim", seed, i, j, k, z) if x != y else ("same", f1, f2, size, z))
    files = [x[0] for x in names]
    if not bad:
        for f in files: os.unlink(f)
    return bad, n, cases, files

# ---------------------------------------------------------------- bad input
def refused(job):
    """no tool may take bad input for good, and none may go astray on it"""
    exes, work, seed = job
    g = random.Random(seed); t = os.path.join(work, "b%d" % seed)
    w, h = g.choice([(48, 32), (33, 17), (64, 64)])
    m = streams.make(t + ".ivf", seed, (w, h), 4, record=True)
    o = streams.make(t + ".o.ivf", seed + 1, (w + 16 * g.randrange(1, 4), h), 4)
    good = open(m.path, "rb").read()
    ex = exes["opt"]
    st, so = t + ".state", t + ".o.state"
    for a, b in ((m.path, st), (o.path, so)):
        r = run([ex["xc-dump"], a, b])
        if r.rc: return [("dump-exit", "xc-dump: %s" % r.errtext[-200:])], 1, set(), [a]
    sd = open(st, "rb").read()
    def file(name, data):
        p = t + "." + name
        with open(p, "wb") as f: f.write(data)
        return p
    big = bytearray(good); struct.pack_into("<I", big, 24, m.n + g.choice([1, 2, 1000, 0x7fffffff, 0xffffffff - m.n]))
    cut = good[:g.randrange(44, len(good))]
    huge = bytearray(good); struct.pack_into("<I", huge, 32, g.choice([0xffffffff, 0x80000000, len(good)]))
    hdr = bytearray(good); struct.pack_into("<H", hdr, 6, g.choice([0, 31, 33, 65535]))
    sig = bytearray(good); sig[g.randrange(4)] ^= 0x20
    fcc = bytearray(good); fcc[8:12] = g.choice([b"VP90", b"AV01", b"VP81", b"\0\0\0\0"])
    ivfs = {"missing": t + ".none", "directory": work, "empty": file("e", b""), "short": file("h", good[:g.randrange(1, 32)]), "count": file("n", big), "cut": file("c", cut),
            "frame length": file("l", huge), "header length": file("hl", hdr), "signature": file("s", sig), "codec": file("f", fcc), "text": file("t", b"This is not a video.\n" * 40)}
    sbad = bytearray(sd); at = g.choice([0, 5, 14, 1 + g.randrange(3)]); sbad[at] ^= 0x11
    states = {"missing": t + ".none", "directory": work, "empty": file("se", b""), "cut": file("sc", sd[:g.randrange(1, len(sd))]), "long": file("sl", sd + b"\0" * g.randrange(1, 9)),
              "malformed": file("sb", sbad), "text": file("st", b"This is not a state.\n" * 40), "video": m.path}
    out = t + ".out"
    cmds = []
    for k, p in ivfs.items():
        if k != "codec": cmds.append(("xc-framesize", k, [p]))
        cmds += [("xc-dissect", k, [p]), ("xc-dissect", k, ["-m", "-c", "-p", p]), ("xc-dump", k, [p, out]), ("xc-ssim", k, [p, m.path]), ("xc-ssim", k, [m.path, p]), ("xc-ssim", k, ["-1", "y4m", p, m.path])]
    for k, p in states.items():
        cmds += [("xc-diff", "state " + k, [p, st]), ("xc-diff", "state " + k, [st, p]), ("comp-states", "state " + k, [p, st]), ("comp-states", "state " + k, [st, p]),
                 ("xc-dump", "state " + k, ["-S", p, m.path, out]), ("xc-dissect", "state " + k, ["-s", p, m.path])]
    cmds += [("xc-dump", "state of another size", ["-S", so, m.path, out]), ("xc-dissect", "state of another size", ["-s", so, m.path]), ("comp-states", "state of another size", [so, st]),
             ("xc-diff", "state of another size", [so, st]), ("xc-ssim", "pictures of different sizes", [m.path, o.path]), ("xc-ssim", "pictures of different sizes", [o.path, m.path])]
    # the file says which state it starts from
    tagged = bytearray(good); struct.pack_into("<I", tagged, 28, g.randrange(1, 1 << 32))
    tg = file("tg", tagged)
    cmds += [("xc-dump", "wrong expected state", [tg, out]), ("xc-dump", "wrong expected state", ["-S", st, tg, out])]
    for k in (m.n, m.n + 1, 1 << 31, (1 << 64) - 2): cmds.append(("xc-dump", "frame number", ["-f", k, m.path, out]))
    cmds += [("xc-dump", "frame number", ["-f", "zero", m.path, out]), ("xc-dissect", "frame number", ["-f", "zero", m.path]),
             ("xc-dump", "output", [m.path, os.path.join(work, "none", "x")]), ("xc-dump", "output", [m.path, work]), ("xc-dump", "output full", [m.path, "/dev/full"])]
    for tool in ("xc-framesize", "xc-dissect", "xc-dump", "xc-diff", "comp-states", "xc-ssim"):
        cmds.append((tool, "arguments", []))
        if tool not in ("xc-framesize", "xc-dissect"): cmds.append((tool, "arguments", [m.path]))
        if tool not in ("xc-framesize", "comp-states"): cmds += [(tool, "option", ["--nothing", m.path, m.path])]
    cmds += [("xc-dump", "arguments", ["-f", 1]), ("xc-dump", "arguments", ["-f", 1, m.path]), ("xc-dump", "arguments", ["-f", 1, "-S", st]), ("xc-ssim", "arguments", ["-a", "-a"]), ("xc-ssim", "arguments", ["-a", m.path]),
             ("xc-dissect", "arguments", ["-m"]), ("xc-ssim", "format", ["-1", "webm", m.path, m.path])]
    bad, n, cases = [], 0, set()
    env = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:handle_abort=0:max_allocation_size_mb=4000", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=77:print_stacktrace=1"}
    for variant in ("opt", "asan"):
        for tool, what, args in cmds:
            if variant == "asan" and g.random() < .5: continue
            if os.path.exists(out): os.unlink(out)
            r = run([exes[variant][tool]] + args, env=env, timeout=60)
            n += 1; cases.add((tool, what, variant))
            line = "%s %s (%s)" % (tool, " ".join(str(x).replace(work + "/", "") for x in args), what)
            if r.timeout: bad.append(("hang:" + what, line + ": no end"))
            elif r.rc == 0: bad.append(("accepted:%s:%s" % (tool, what), line + ": exit 0 %s" % r.text[-100:]))
            elif r.rc < 0 and r.rc != -6 or r.rc == 77: bad.append(("crash:%s:%s" % (tool, what), line + ": exit %s %s" % (r.rc, r.errtext[:1200])))
            elif tool == "xc-dump" and os.path.exists(out) and os.path.getsize(out): bad.append(("output:%s" % what, line + ": failed, but left a state"))
    files = [t + ".ivf", t + ".o.ivf", st, so]
    if not bad:
        for f in os.listdir(work):
            if f.startswith("b%d." % seed): os.unlink(os.path.join(work, f))
    return bad, n, cases, files

def check(c):
    ex = build.build("opt", TOOLS); asan = build.build("asan", TOOLS[:6])
    g = c.rng("tools")
    jobs = [(stream, (ex, c.work, g.getrandbits(32), SIZES[i % len(SIZES)])) for i in range(c.n(240, 3000))]
    jobs += [(quality, (ex, c.work, g.getrandbits(31) * 2 + i % 2, SIZES[i % len(SIZES)])) for i in range(c.n(100, 1000))]
    jobs += [(refused, (dict(opt=ex, asan=asan), c.work, g.getrandbits(32))) for _ in range(c.n(12, 100))]
    g.shuffle(jobs)
    for (fn, job), (bad, n, cases, files) in zip(jobs, pmap(call, jobs)):
        c.ev(n)
        for x in cases: c.state(x)
        c.saw(fn.__name__ + " cases", n)
        c.sample("%s %s: %d cases" % (fn.__name__, job[-1] if fn is not refused else job[2], n))
        seen = set()
        for key, text in bad:
            if key not in seen: c.violation("%s:seed%d" % (key, job[2]) if key.split(":")[0] not in ("accepted", "crash") else key, text, files)
            seen.add(key)

def call(j): return j[0](j[1])
