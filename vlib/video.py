"""Synthetic raw video (Y4M) of varied content, in pure Python, for the encoders."""
import math, random

def plane(rng, kind, w, h, t, seedstate):
    out = bytearray(w * h)
    if kind == "flat":
        v = seedstate["v"]; return bytes([v]) * (w * h)
    if kind == "black": return bytes(w * h)
    if kind == "white": return b"\xff" * (w * h)
    if kind == "noise": return rng.randbytes(w * h)
    if kind == "lownoise":
        v = seedstate["v"]; v = min(max(v, 8), 247)
        return bytes(v + (x & 7) - 3 for x in rng.randbytes(w * h))
    if kind == "checker":
        s = seedstate["s"]
        rows = [bytes(255 if ((x // s) + p) & 1 else 0 for x in range(w)) for p in (0, 1)]
        return b"".join(rows[((y + t) // s) & 1] for y in range(h))
    if kind == "extreme":
        return bytes(0 if x & 1 else 255 for x in rng.randbytes(w * h))
    # smooth moving pattern, with a moving block and a little noise
    ax, ay, vx, vy = seedstate["ax"], seedstate["ay"], seedstate["vx"], seedstate["vy"]
    sx = [int(60 * math.sin((x + vx * t) * ax)) for x in range(w)]
    sy = [int(50 * math.cos((y + vy * t) * ay)) for y in range(h)]
    for y in range(h):
        b = 128 + sy[y]
        out[y * w:(y + 1) * w] = bytes(b + v for v in sx)
    bw, bh = max(1, w // 4), max(1, h // 4)
    bx, by = int(seedstate["bx"] + t * seedstate["bvx"]) % max(1, w - bw + 1), int(seedstate["by"] + t * seedstate["bvy"]) % max(1, h - bh + 1)
    tex = seedstate["tex"]
    for y in range(bh):
        o = (by + y) * w + bx
        out[o:o + bw] = bytes(tex[(y * 7 + i) & 255] for i in range(bw))
    if kind == "motion+noise":
        for _ in range(w * h // 6):
            i = rng.randrange(w * h); out[i] = min(255, max(0, out[i] + rng.randrange(-12, 13)))
    return bytes(out)

KINDS = ["motion", "motion", "motion+noise", "motion+noise", "noise", "lownoise", "flat", "checker", "extreme", "black", "white", "cuts", "fade"]

def frames(seed, w, h, n, kind=None):
    rng = random.Random(seed)
    kind = kind or rng.choice(KINDS)
    cw, ch = (w + 1) // 2, (h + 1) // 2
    def st():
        return dict(v=rng.randrange(256), s=rng.choice([1, 2, 3, 4, 8, 16]), ax=rng.uniform(.02, .6), ay=rng.uniform(.02, .6), vx=rng.choice([0, .25, .5, 1, 3, 7.3]),
                    vy=rng.choice([0, .25, 1, -2, 5.1]), bx=rng.randrange(64), by=rng.randrange(64), bvx=rng.choice([0, 1, -1, 2.5, 9]), bvy=rng.choice([0, 1, -1.5, 4]), tex=rng.randbytes(256))
    states = [st() for _ in range(3)]
    out = []
    cur = rng.choice(KINDS[:11]) if kind == "cuts" else kind
    for t in range(n):
        if kind == "cuts" and (t == 0 or rng.random() < .3):
            cur = rng.choice(KINDS[:11]); states = [st() for _ in range(3)]
        k = "motion" if cur == "fade" else cur
        y = plane(rng, k, w, h, t, states[0])
        u = plane(rng, k, cw, ch, t, states[1]); v = plane(rng, k, cw, ch, t, states[2])
        if kind == "fade":
            f = (n - t) / n
            y = bytes(int(x * f) for x in y)
        out.append(y + u + v)
    return kind, out

def y4m(w, h, frs, rate="30:1", extra=b" Ip A1:1 C420jpeg"):
    head = b"YUV4MPEG2 W%d H%d F%s%s\n" % (w, h, rate.encode(), extra)
    return head + b"".join(b"FRAME\n" + f for f in frs)

def split_y4m(data, w, h):
    """frames of a Y4M file; None if malformed"""
    fs = w * h + 2 * ((w + 1) // 2) * ((h + 1) // 2)
    head, _, rest = data.partition(b"\n")
    out = []; p = 0
    while p < len(rest):
        e = rest.find(b"\n", p)
        if e < 0 or not rest.startswith(b"FRAME", p) or e + 1 + fs > len(rest): return None
        out.append(rest[e + 1:e + 1 + fs]); p = e + 1 + fs
    return out
