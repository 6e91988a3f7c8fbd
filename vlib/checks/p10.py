"""P10: inter frames cut at every byte, decoded with error concealment."""
import os, struct
from vlib import build, streams, ref
from vlib.common import pmap, run, HarnessError

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: frames cut at every byte decoded with concealment; per-macroblock oracle from the bit positions the stream generator recorded, differential against repaired complete frames, heap-poison differential, ASan/UBSan subset"
NOTE = ("the positions at which a macroblock's modes and tokens start and end are known from the generator's own arithmetic coder; within two bytes of the cut a macroblock may be judged either way; "
        "exact pixel expectations for modes that did not arrive need the loop filter off; a cut inside the tokens has the exact oracle of the same bytes with corrected partition sizes")
RULE = ("a case is one inter frame cut at one byte; distinct by resulting picture and state; complete frames are decoded with and without concealment and must agree; "
        "macroblocks whose modes had arrived must not change, later ones must equal the last picture; frames cut in the tokens must equal the repaired frame")
SLACK = 16

def repair(frame, meta, cut):
    """the same bytes as a complete frame: token partitions shortened to what is there; None when the first partition is cut"""
    n, first = len(meta["parts"]), meta["first"] + (7 if meta["key"] else 0)
    if cut <= 3 + first: return None
    got = frame[3 + first:cut]
    hd = 3 * (n - 1)
    if len(got) < hd: data, sizes = b"", [0] * (n - 1)
    else:
        rest, sizes = len(got) - hd, []
        for l in meta["parts"][:-1]:
            sizes.append(min(l, rest)); rest -= sizes[-1]
        data = got[hd:]
    if len(got) < hd:
        # sizes that arrived have nothing behind them
        pass
    body = b"".join(struct.pack("<I", x)[:3] for x in sizes) + data
    if not body: body = b"\0"
    return frame[:3 + first] + body

def expect(meta, cut, last, full, nmb):
    """text when the masks contradict what had arrived"""
    first = meta["first"]
    if meta["key"]:
        # a key frame without its uncompressed header is a frame of which nothing arrived
        return (None if cut >= 10 or "0" not in last else "the header did not arrive, yet the picture is not the last picture", 0, nmb if cut < 10 else 0)
    if cut > 3 + first:
        # every mode is there; macroblocks in order up to the first one whose tokens are not
        end = {}
        pos = meta["tpos"]
        base, b = [], 3 + first + 3 * (len(meta["parts"]) - 1)
        for l in meta["parts"]: base.append(b); b += l
        nxt = dict((i, t) for i, t in enumerate(meta["tend"]))
        stop = [0] * nmb
        for i in range(nmb - 1, -1, -1): stop[i] = nxt[pos[i][0]]; nxt[pos[i][0]] = pos[i][1]
        if meta["lf"]: return None, 0, 0
        k = 0
        while k < nmb and base[pos[k][0]] * 8 + stop[k] + SLACK + 8 <= cut * 8: k += 1
        if "0" in full[:k]: return "macroblock %d of %d changed although all its data and that of the ones before it had arrived" % (full.index("0"), nmb), k, 0
        return None, k, 0
    c = cut - 3
    if c <= 0: return (None if "0" not in last else "nothing arrived, yet the picture is not the last picture", 0, nmb)
    f = meta["fpos"]
    if f[0] >= 8 * c + 24: return (None if "0" not in last else "the header did not arrive, yet the picture is not the last picture", 0, nmb)
    if f[0] + SLACK >= 8 * c: return None, 0, 0          # the end of the header is cut
    if meta["lf"]: return None, 0, 0
    lost = next((i for i in range(nmb) if f[i] >= 8 * c + 8), nmb)
    if "0" in last[lost:]: return "macroblock %d of %d, whose modes did not arrive, is not taken from the last picture" % (last.index("0", lost), nmb), 0, nmb - lost
    return None, 0, nmb - lost

def one(job):
    exe, work, seed, size, n, stride, over, env = job
    m = streams.make(os.path.join(work, "c%d_%s.ivf" % (seed, "a" if "asan" in exe else "o")), seed, size, n, over)
    plan, want = [], {}
    for i, (fr, meta) in enumerate(zip(m.frames, m.metas)):
        if len(fr) > 6000: continue
        first = (10 if meta["key"] else 3) + meta["first"]
        cuts = set(range(13)) | set(range(10 + seed % stride, len(fr), 3 * stride)) | {first - 1, first, first + 1, first + 2, len(fr) - 1} if meta["key"] else  set(range(seed % stride, len(fr), stride)) | {0, 1, 2, 3, 4, 5} | {first - 1, first, first + 1, first + 2, first + 3} | {len(fr) - 1}
        for c in sorted(x for x in cuts if 0 <= x < len(fr)):
            rp = repair(fr, meta, c)
            plan.append("%d %d %s\n" % (i, c, rp.hex() if rp else "-")); want[i, c] = meta
    pf = m.path + ".plan"
    open(pf, "w").writelines(plan)
    bad, res = [], []
    r = [streams.lines(run([exe, m.path, pf], timeout=600, env={"MALLOC_PERTURB_": e}), "conceal") for e in env]
    for ls, b in r: bad += b
    if len(r) > 1 and not bad and r[0][0] != r[1][0]:
        d = next(a for a, b in zip(r[0][0], r[1][0]) if a != b)
        bad.append(("uninitialised", "a cut frame decodes differently when fresh heap memory holds other bytes: " + d[:60]))
    stat = dict(cuts=0, written=0, keycuts=0, refused=0, kept=0, concealed=0, repaired=0, header=0)
    if not bad:
        cl = [l.split() for l in r[0][0] if l.startswith("C ")]
        stat["written"] += sum(int(l[2:]) for l in r[0][0] if l.startswith("W "))
        if len(cl) != len(plan): raise HarnessError("conceal lines %d of %d" % (len(cl), len(plan)))
        nmb = ((m.w + 15) // 16) * ((m.h + 15) // 16)
        for f in cl:
            i, c, how, w, h, pic, st, hsh, last, full, rep = int(f[1]), int(f[2]), f[3], int(f[4]), int(f[5]), f[6], f[7], f[8], f[9], f[10], f[11]
            where = "frame %d of %d bytes (modes end at %d) cut at %d: " % (i, len(m.frames[i]), 3 + want[i, c]["first"], c)
            stat["cuts"] += 1; stat["keycuts"] += bool(want[i, c]["key"])
            if want[i, c]["key"] and how != "ok" and c >= 10: stat["refused"] += 1; continue
            if how != "ok": bad.append(("refused", where + "it is refused (%s) instead of concealed" % how)); break
            if (w, h) != (m.w, m.h): bad.append(("size", where + "picture of %dx%d" % (w, h))); break
            t, kept, conc = expect(want[i, c], c, last, full, nmb)
            stat["kept"] += kept; stat["concealed"] += conc
            if t: bad.append(("conceal", where + t)); break
            if rep != "-":
                stat["repaired"] += 1
                if rep != "same": bad.append(("repaired", where + "the same bytes as a complete frame decode to something else (%s)" % rep)); break
            res.append(pic + st)
    os.unlink(pf)
    if not bad: os.unlink(m.path)
    return bad, res, stat, m.path

SIZES = [(64, 48), (33, 47), (16, 16), (48, 80), (17, 70), (96, 32)]

def check(c):
    opt, asan = (build.build(v, ["h:conceal"])["h:conceal"] for v in ("opt", "asan"))
    g = c.rng("streams")
    jobs = []
    for i in range(c.n(110, 3000)):
        over = dict(hidden=0, key_again=[0, .25][i % 2])
        if i % 4: over["lf_style"] = "zero"
        if i % 5 == 0: over["parts"] = None
        if i % 3 == 0: over.update(intra=.05, residue="sparse")
        if i % 3 == 1: over.update(intra=.3, split=.5, golden=.5, sign_bias=.5)
        over["segmentation"] = [0, 0, .8][i % 3]
        jobs.append((opt, c.work, g.getrandbits(40), SIZES[i % len(SIZES)], g.randrange(3, 6), c.n(5, 2), over, ("85", "170")))
    for i in range(c.n(28, 800)):
        jobs.append((asan, c.work, g.getrandbits(40), SIZES[i % len(SIZES)], 3, c.n(9, 3), dict(hidden=0, golden=.5, parts=None), ("0",)))
    for job, (bad, res, stat, path) in zip(jobs, pmap(one, jobs, chunk=1)):
        c.ev(stat["cuts"]); c.saw("frames cut and decoded" + (" under ASan" if "asan" in job[0] else ""), stat["cuts"])
        c.saw("macroblocks that had to stay as in the complete frame", stat["kept"]); c.saw("macroblocks that had to equal the last picture", stat["concealed"])
        c.saw("cut frames equal to a complete frame with the modes they were taken to have", stat["written"])
        c.saw("key frames cut", stat["keycuts"]); c.saw("key frames cut after their first ten bytes and refused", stat["refused"])
        c.saw("cut frames equal to their repaired complete form", stat["repaired"])
        for s in res: c.state(s)
        c.sample("seed %d %dx%d" % (job[2], job[3][0], job[3][1]))
        for key, text in bad: c.violation("%s:seed%d" % (key, job[2]), text, [path])
