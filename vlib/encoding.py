"""scripts of encoder calls, run by harness/enc.cc"""
import os, random, shutil
from vlib import streams, video, ref
from vlib.common import run

SIZES = [(16, 16), (32, 32), (64, 64), (64, 48), (33, 47), (90, 70), (1, 1), (5, 3), (17, 15), (2, 40), (100, 18), (128, 96), (160, 120), (63, 65), (176, 144)]

class Ev:
    """one encoded frame"""
    def __init__(self, f):
        self.slot, self.op, self.type, self.len, self.dig = int(f[1]), f[2], f[3], int(f[5]), f[7]
        self.parts, self.hash, self.qi, self.lf = f[9], f[11], int(f[13]), int(f[15])
        self.ssim, self.true = float(f[17]), float(f[19])
        self.mse = tuple(map(float, f[21:24])); self.peak = tuple(map(int, f[25:28]))
        a = self.op.split("_"); self.kind, self.frame, self.arg = a[0], int(a[2]), float(a[3])

def write_yuv(path, frs):
    with open(path, "wb") as f: f.write(b"".join(frs))

def execute(exe, d, w, h, script, env=None, what="script", timeout=120):
    """runs a script (list of lines); returns events, other lines, problems"""
    with open(os.path.join(d, "script"), "w") as f: f.write("\n".join(script) + "\n")
    ls, bad = streams.lines(run([exe, w, h, os.path.join(d, "in.yuv"), os.path.join(d, "script"), d], env=env, timeout=timeout), what)
    return [Ev(l.split()) for l in ls if l.startswith("E ")], ls, bad

def target(rng, w, h):
    """a target size: from hopeless to generous"""
    return int(rng.choice([0, 30, 100, w * h / 50, w * h / 20, w * h / 8, w * h / 2, w * h, 10 * w * h]) * rng.uniform(.5, 1.5))

def call(rng, slot, f, w, h, ssim=.1):
    x = rng.random()
    if x < .3: return "s %d %d %d" % (slot, f, target(rng, w, h))
    if x < .3 + ssim: return "m %d %d %.4f" % (slot, f, rng.choice([0, .3, .6, .8, .9, .95, .99, .999, 1, 1.5]))
    return "q %d %d %d" % (slot, f, rng.choice([0, 1, 4, 10, 20, 30, 40, 50, 64, 80, 100, 120, 127, rng.randrange(128)]))

def third_party(d, w, h, slot):
    """does a conforming decoder show the same pictures as alfalfa's decoder?"""
    base = os.path.join(d, "s%d" % slot)
    r, err = ref.vpxdec(base + ".ivf", w, h, d, "s%d" % slot)
    if r is None: return "the stream is refused by the reference decoder: " + err
    fs = w * h + 2 * ((w + 1) // 2) * ((h + 1) // 2)
    data = open(base + ".yuv", "rb").read()
    return ref.compare(r, [data[i:i + fs] for i in range(0, len(data), fs)], w, h)
