"""Reference decoder / encoder (libvpx command-line tools)."""
import os
from vlib.common import run, HarnessError

def vpxdec(ivf, w, h, work, tag):
    out = os.path.join(work, tag + ".ref.yuv")
    r = run(["vpxdec", "--rawvideo", "--i420", "-o", out, ivf], timeout=60)
    try: data = open(out, "rb").read()
    except OSError: data = b""
    if os.path.exists(out): os.unlink(out)
    fs = w * h + 2 * ((w + 1) // 2) * ((h + 1) // 2)
    if r.rc != 0: return None, r.errtext[-300:]
    return [data[i:i + fs] for i in range(0, len(data), fs)], ""

def compare(ref, got, w, h):
    """None if equal, else a description of the first difference"""
    if got is None: return "output is not a well-formed Y4M file"
    if len(ref) != len(got): return "%d frames shown, expected %d" % (len(got), len(ref))
    for k, (a, b) in enumerate(zip(ref, got)):
        if a != b:
            nd = sum(x != y for x, y in zip(a, b)); i = next(j for j in range(len(a)) if a[j] != b[j])
            where = "Y(%d,%d)" % (i % w, i // w) if i < w * h else "chroma+%d" % (i - w * h)
            return "shown frame %d differs in %d of %d samples, first at %s (expected %d, got %d)" % (k, nd, len(a), where, a[i], b[i])
    return None

def vpxenc(y4m, out, args):
    r = run(["vpxenc", "--codec=vp8", "--ivf", "-o", out, "-q"] + args + [y4m], timeout=120)
    if r.rc != 0: raise HarnessError("vpxenc failed: " + r.errtext[-300:])
