"""generated streams on disk, and the harness protocol (VIOL / STAT / DONE lines)"""
import os, random, struct
from vlib.vp8gen import StreamGen, Profile, ivf, SIZES
from vlib.common import run, BROKEN

class Made:
    __slots__ = ("path", "w", "h", "features", "counts", "shown", "n", "seed", "metas", "frames")

def make(path, seed, size=None, n=None, over=None, drop_first=False, record=False):
    rng = random.Random(seed)
    prof = Profile(rng)
    m = Made()
    m.w, m.h = size or rng.choice(SIZES)
    m.n = n or rng.randrange(4, 12)
    for k, v in (over or {}).items(): setattr(prof, k, v)
    cls = type("Rec", (StreamGen,), {"record": True}) if record else StreamGen
    g = cls(rng, m.w, m.h, m.n, prof)
    frames = g.frames[1:] if drop_first else g.frames
    m.metas, m.frames = g.metas[len(g.frames) - len(frames):], frames
    m.n = len(frames)
    m.path, m.features, m.counts, m.shown, m.seed = path, g.features, g.counts, g.shown, seed
    with open(path, "wb") as f: f.write(ivf(m.w, m.h, frames))
    return m

def split_ivf(data):
    p, fr = 32, []
    while p + 12 <= len(data):
        n = struct.unpack_from("<I", data, p)[0]
        fr.append(data[p + 12:p + 12 + n]); p += 12 + n
    return fr

def write_ivf(path, w, h, frames, tag=0, fourcc=b"VP80", rate=30, scale=1):
    with open(path, "wb") as f:
        f.write(b"DKIF" + struct.pack("<HH4sHHIIII", 0, 32, fourcc, w, h, rate, scale, len(frames), tag))
        for i, x in enumerate(frames): f.write(struct.pack("<IQ", len(x), i) + x)

def lines(r, what):
    """lines of a harness run; problems as (key, text) pairs"""
    ls = r.text.splitlines()
    bad = []
    for l in ls:
        if l.startswith("VIOL "):
            f = l.split(" ", 2); bad.append((f[1], "%s: %s" % (what, f[2] if len(f) > 2 else "")))
        elif l.startswith("HARNESS"): bad.append(("harness", BROKEN + "%s: %s" % (what, l)))
    if r.rc in (90, 91, 92, 127) or (r.rc == 126): bad.append(("harness", BROKEN + "%s: exit %s %s" % (what, r.rc, r.errtext[-500:])))
    elif r.timeout: bad.append(("hang", "%s: no end" % what))
    elif r.rc != 0 or not ls or ls[-1] != "DONE":
        bad.append(("failed", "%s: exit %s: %s %s" % (what, r.rc, ls[-1][:300] if ls else "", r.errtext[-1500:])))
    if bad and ls and not r.text.endswith("\n"): ls.pop()       # cut short
    return ls, bad
