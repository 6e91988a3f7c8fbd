"""Random VP8 stream generator, written from RFC 6386 and independent of alfalfa's code.

It is a syntax-level encoder: every header field, macroblock mode, motion vector and coefficient is
drawn at random under the knobs of a Profile and then coded with this file's own bool encoder and
its own copy of the entropy-coding state.  The streams are valid VP8 by construction, and cover
what no natural encoder emits: every combination of reference updates, probability persistence,
segmentation, filter deltas, split motion vectors, far vectors and so on."""
import random, struct
from vlib.vp8tables import *

NORM = bytes([0, 7, 6, 6, 5, 5, 5, 5] + [4] * 8 + [3] * 16 + [2] * 32 + [1] * 64 + [0] * 128)

class BoolEncoder:
    def __init__(self):
        self.out = bytearray(); self.range = 255; self.low = 0; self.count = -24
    def put(self, bit, prob=128):
        split = 1 + (((self.range - 1) * prob) >> 8)
        if bit:
            self.low += split; rng = self.range - split
        else: rng = split
        shift = NORM[rng]
        self.range = rng << shift
        count = self.count + shift
        if count >= 0:
            offset = shift - count
            if (self.low << (offset - 1)) & 0x80000000:
                o = self.out; i = len(o) - 1
                while i >= 0 and o[i] == 255: o[i] = 0; i -= 1
                o[i] += 1
            self.out.append((self.low >> (24 - offset)) & 0xff)
            self.low = (self.low << offset) & 0xffffff
            shift = count
            count -= 8
        self.count = count
        self.low = (self.low << shift) & 0xffffffff
    @property
    def pos(self):
        """bits a decoder has consumed by here"""
        return 8 * len(self.out) + self.count + 24
    def lit(self, v, n):
        for i in range(n - 1, -1, -1): self.put((v >> i) & 1)
    def flag_signed(self, v, n):
        if v is None: self.put(0); return
        self.put(1); self.lit(abs(v), n); self.put(1 if v < 0 else 0)
    def path(self, p, probs):
        for i, b in p: self.put(b, probs[i])
    def flush(self):
        for _ in range(32): self.put(0)
        return bytes(self.out)

def paths(tree, n):
    out = {}
    def walk(i, acc):
        for b in (0, 1):
            t = tree[i + b]
            if t is None or isinstance(t, str): out[int(t)] = acc + [(i >> 1, b)]
            else: walk(t, acc + [(i >> 1, b)])
    walk(0, [])
    assert len(out) == n
    return out
KF_Y = paths(["4", 2, 4, 6, "0", "1", "2", "3"], 5)
Y_T = paths(["0", 2, 4, 6, "1", "2", "3", "4"], 5)
UV_T = paths(["0", 2, "1", 4, "2", "3"], 4)
B_T = paths(["0", 2, "1", 4, "2", 6, 8, 12, "3", 10, "5", "6", "4", 14, "7", 16, "8", "9"], 10)
SEG_T = paths([2, 4, "0", "1", "2", "3"], 4)
SMALL_T = paths([2, 8, 4, 6, "0", "1", "2", "3", 10, 12, "4", "5", "6", "7"], 8)
# inter modes: 0 zero 1 nearest 2 near 3 new 4 split
MV_T = paths(["0", 2, "1", 4, "2", 6, "3", "4"], 5)
SUB_T = paths(["0", 2, "1", 4, "2", "3"], 4)      # left above zero new
SPLIT_T = paths(["3", 2, "2", 4, "0", "1"], 4)
PARTS = [[[r * 4 + c for r in (0, 1) for c in range(4)], [r * 4 + c for r in (2, 3) for c in range(4)]],
         [[r * 4 + c for r in range(4) for c in (0, 1)], [r * 4 + c for r in range(4) for c in (2, 3)]],
         [[0, 1, 4, 5], [2, 3, 6, 7], [8, 9, 12, 13], [10, 11, 14, 15]],
         [[i] for i in range(16)]]
IMPLIED = {0: 0, 1: 2, 2: 3, 3: 1}
BIDX = [BANDS[i] for i in range(16)]

class Profile:
    """knobs of one stream; each value is a probability (0..1) unless said otherwise"""
    def __init__(self, rng):
        r = rng
        self.segmentation = r.choice([0, 0, 0.6, 0.95])
        self.seg_partial = r.choice([0, 0.3])
        self.seg_keep = r.choice([0, 0.5])                     # frames that rely on an earlier map / data
        self.lf_delta = r.choice([0, 0.3, 0.95])
        self.lf_partial = r.choice([0, 0.5])
        self.parts = r.choice([0, 0, 1, 2, 3, None])          # log2 of token partitions, None: vary
        self.q_style = r.choice(["low", "mid", "high", "any"])
        self.qdelta = r.choice([0, 0.2, 0.8])
        self.lf_style = r.choice(["zero", "low", "high", "any"])
        self.golden = r.choice([0.1, 0.5])
        self.hidden = r.choice([0, 0, 0.2])
        self.keep_probs = r.choice([1, 0.5, 0.1])
        self.coeff_updates = r.choice([0, 0.01, 0.3, 1])
        self.residue = r.choice(["none", "sparse", "mid", "dense"])
        self.amp = r.choice([8, 40, 200, 900])
        self.zero_runs = r.choice([0, 0.01])                  # blocks that spell out their zeros up to the end
        self.skip = r.choice([None, 0, 0.5, 0.95, "vary"])
        self.intra = r.choice([0.05, 0.3, 0.9, "vary"])
        self.bpred = r.choice([0.1, 0.5, 0.9])
        self.split = r.choice([0, 0.2, 0.8])
        self.mode_updates = r.choice([0, 0.3, 1])
        self.mv_updates = r.choice([0, 0.1, 1])
        self.mv_style = r.choice(["tiny", "mid", "mid", "far", "any"])
        self.key_again = r.choice([0, 0, 0.1])
        self.sign_bias = r.choice([0, 0.5])
        self.nothing = r.choice([0, 0, 0, .4])                # adjustments that are switched on and adjust nothing
        self.scale = 0            # alfalfa documents upscaling as unsupported
        self.color = 0
        self.clamp = 0
        self.version = 0
        self.simple = 0
        self.corners = ()                                       # known findings, see known-findings.json

def clampq(v): return 0 if v < 0 else 127 if v > 127 else v

class StreamGen:
    record = False                # keep in metas[...]["syntax"] everything that was written
    def __init__(self, rng, width, height, nframes, profile=None, start_key=True):
        self.r = rng; self.w = width; self.h = height; self.n = nframes
        self.p = profile or Profile(rng)
        self.mbw = (width + 15) // 16; self.mbh = (height + 15) // 16
        self.features = set(); self.counts = {}
        self.seg_on = False; self.seg_abs = False; self.seg_q = [0] * 4
        self.map = [0] * (self.mbw * self.mbh); self.map_valid = False; self.seg_data_valid = False
        self.frames = []; self.metas = []
        self.shown = 0; self.seg_seen = False; self.lf_stale = self.lf_set = False
        self.reset_probs()
        for i in range(nframes):
            key = (i == 0 and start_key) or rng.random() < self.p.key_again
            show = True if i == nframes - 1 else rng.random() >= self.p.hidden
            self.shown += show
            self.frames.append(self.frame(key, show))

    def reset_probs(self):
        self.coeff = bytearray(COEFF_DEFAULT); self.ymode = list(Y_MODE_DEFAULT); self.uvmode = list(UV_MODE_DEFAULT)
        self.mvp = [bytearray(MV_DEFAULT[:19]), bytearray(MV_DEFAULT[19:])]

    def cnt(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n

    def prob(self):
        r = self.r
        if r.random() < 0.05: return r.choice([0, 1, 254, 255])
        return r.randrange(1, 256)

    def quant(self):
        r = self.r
        return {"low": lambda: r.randrange(0, 20), "mid": lambda: r.randrange(20, 80),
                "high": lambda: r.randrange(80, 128), "any": lambda: r.choice([0, 1, 3, 63, 126, 127, r.randrange(128)])}[self.p.q_style]()
    def lflevel(self):
        r = self.r
        return {"zero": lambda: 0 if r.random() < .8 else r.randrange(64), "low": lambda: r.randrange(0, 16),
                "high": lambda: r.randrange(40, 64), "any": lambda: r.choice([0, 1, 14, 15, 16, 19, 20, 39, 40, 63, r.randrange(64)])}[self.p.lf_style]()

    # ---------------------------------------------------------------- frame
    def frame(self, key, show):
        r, p, F = self.r, self.p, self.features
        b = BoolEncoder()
        self.key = key
        H = dict(key=key, show=show, mbs=[])
        F.add("key" if key else "inter"); self.cnt("frame.key" if key else "frame.inter")
        if not show: F.add("hidden"); self.cnt("frame.hidden")
        if key:
            b.put(p.color); b.put(p.clamp)
            self.reset_probs()
            self.seg_q = [0] * 4; self.seg_abs = False; self.seg_data_valid = False; self.map_valid = False; self.seg_seen = False
        # segmentation
        seg = r.random() < p.segmentation
        b.put(1 if seg else 0)
        upd_map = False
        segprobs = [255] * 3
        if not seg:
            if "seg-off-on" not in p.corners: self.map_valid = False; self.seg_data_valid = False
        elif not self.map_valid and not self.seg_seen and r.random() < p.seg_keep:
            self.map_valid = True; self.map = [0] * len(self.map); F.add("seg on, map never sent"); self.cnt("seg.nomap")
        self.seg_seen = self.seg_seen or seg
        if seg:
            keep = r.random() < p.seg_keep
            upd_map = not self.map_valid or not keep
            upd_data = not self.seg_data_valid or r.random() >= p.seg_keep
            b.put(upd_map); b.put(upd_data)
            F.add("seg map=%d data=%d key=%d" % (upd_map, upd_data, key)); self.cnt("seg.map%d.data%d" % (upd_map, upd_data))
            if upd_data:
                self.seg_data_valid = True
                absolute = r.random() < 0.5
                idle = r.random() < p.nothing
                if idle: absolute = False; F.add("seg idle"); self.cnt("seg.idle")
                self.seg_abs = absolute
                F.add("seg abs=%d" % absolute)
                b.put(absolute)
                for i in range(4):
                    if idle: v = r.choice([None, 0])
                    elif r.random() < p.seg_partial: v = None
                    elif absolute: v = r.randrange(0, 128)
                    else: v = r.choice([r.randrange(-127, 128), r.randrange(-20, 21)])
                    b.flag_signed(v, 7)
                    self.seg_q[i] = v or 0
                for i in range(4):
                    if idle: v = r.choice([None, 0])
                    elif r.random() < p.seg_partial: v = None
                    elif absolute: v = r.randrange(0, 64)
                    else: v = r.choice([r.randrange(-63, 64), r.randrange(-10, 11)])
                    b.flag_signed(v, 6)
            if upd_map:
                self.map_valid = True
                for i in range(3):
                    f = r.random() < .8
                    b.put(f)
                    if f: segprobs[i] = self.prob(); b.lit(segprobs[i], 8)
        b.put(p.simple)
        lf = self.lflevel()
        b.lit(lf, 6)
        sh = r.choice([0, 0, r.randrange(8)])
        b.lit(sh, 3)
        H.update(color=p.color, clamp=p.clamp, seg=seg, simple=p.simple, lf=lf, sharp=sh)
        F.add("lf%d sh%d" % (lf // 16 if lf else -1, sh))
        lfd = r.random() < p.lf_delta
        b.put(lfd); H.update(lfd=lfd, lfdelta=None)
        # deltas that outlive a frame on which they are disabled: see the directed streams (KF-LFDELTA)
        if key: self.lf_stale = self.lf_set = False
        if not lfd: self.lf_stale = self.lf_set and "lf-off-on" not in p.corners
        if lfd:
            u = r.random() < 0.6 or self.lf_stale
            b.put(u)
            F.add("lfdelta upd=%d key=%d" % (u, key)); self.cnt("lfdelta.upd%d" % u)
            if u:
                full = r.random() >= p.lf_partial or self.lf_stale
                self.lf_stale = False; self.lf_set = True
                idle = full and r.random() < p.nothing
                H["lfdelta"] = []
                for i in range(8):
                    v = 0 if idle else r.choice([r.randrange(-63, 64), r.randrange(-12, 13)]) if full or r.random() < .5 else None
                    b.flag_signed(v, 6); H["lfdelta"].append(v)
                if not full: F.add("lfdelta partial"); self.cnt("lfdelta.partial")
        parts = p.parts if p.parts is not None else r.randrange(4)
        b.lit(parts, 2); F.add("parts%d" % parts)
        q = self.quant(); b.lit(q, 7)
        F.add("q%d" % (q // 32))
        qd = []; H.update(q=q, qd=[])
        for i in range(5):
            d = r.random() < p.qdelta
            if d: F.add("qdelta%d" % i)
            v = r.randrange(-15, 16) if d else None
            b.flag_signed(v, 4); qd.append(v or 0); H["qd"].append(v)
        self.base_q, self.qd = q, qd
        refresh_probs = r.random() < p.keep_probs
        self.bias = [0, 0, 0, 0]
        if not key:
            rg = r.random() < p.golden; ra = r.random() < p.golden
            b.put(rg); b.put(ra)
            cg = ca = 0
            if not rg: cg = r.choice([0, 0, 1, 2]); b.lit(cg, 2)
            if not ra: ca = r.choice([0, 0, 1, 2]); b.lit(ca, 2)
            sg = int(r.random() < p.sign_bias); sa = int(r.random() < p.sign_bias)
            b.put(sg); b.put(sa)
            self.bias = [0, 0, sg, sa]
            b.put(refresh_probs)
            rl = r.random() < 0.85
            b.put(rl)
            H.update(rg=rg, ra=ra, rl=rl)
            F.add("ref g%d a%d cg%d ca%d l%d" % (rg, ra, cg, ca, rl)); F.add("bias%d%d" % (sg, sa))
        else:
            b.put(refresh_probs)
        F.add("saveprobs%d" % refresh_probs)
        H.update(keep=refresh_probs, coeff=[None] * 1056)
        saved = None
        if not refresh_probs: saved = (bytearray(self.coeff), list(self.ymode), list(self.uvmode), [bytearray(x) for x in self.mvp])
        dens = 0 if r.random() < 0.3 else p.coeff_updates
        F.add("coeffupd%s" % dens)
        for i in range(1056):
            do = dens and (r.random() < dens)
            b.put(1 if do else 0, COEFF_UPDATE[i])
            if do:
                v = max(1, self.prob()) if r.random() < .9 else self.prob()
                b.lit(v, 8); self.coeff[i] = v; H["coeff"][i] = v
        skip = p.skip if p.skip != "vary" else r.choice([None, 0.2, 0.9])
        self.skip = skip
        if skip is None: b.put(0); F.add("noskip")
        else:
            self.skip_prob = self.prob() if r.random() < .3 else max(1, min(255, int(255 * (1 - skip))))
            b.put(1); b.lit(self.skip_prob, 8); F.add("skip")
        H["skip"] = None if skip is None else self.skip_prob
        if not key:
            self.intra = p.intra if p.intra != "vary" else r.random()
            self.p_intra = max(1, min(255, int(255 * self.intra)))
            self.p_last = self.prob(); self.p_gf = self.prob()
            b.lit(self.p_intra, 8); b.lit(self.p_last, 8); b.lit(self.p_gf, 8)
            H.update(probs=(self.p_intra, self.p_last, self.p_gf), ymode=None, uvmode=None, mv=[None] * 38)
            m = r.random() < p.mode_updates; b.put(m)
            if m:
                F.add("ymode upd")
                for i in range(4): self.ymode[i] = self.prob(); b.lit(self.ymode[i], 8)
                H["ymode"] = list(self.ymode)
            m = r.random() < p.mode_updates; b.put(m)
            if m:
                F.add("uvmode upd")
                for i in range(3): self.uvmode[i] = self.prob(); b.lit(self.uvmode[i], 8)
                H["uvmode"] = list(self.uvmode)
            for c in range(2):
                for i in range(19):
                    m = r.random() < p.mv_updates
                    b.put(1 if m else 0, MV_UPDATE[c * 19 + i])
                    if m:
                        F.add("mv upd")
                        v = r.choice([0, 127, r.randrange(128), r.randrange(128)])
                        b.lit(v, 7); self.mvp[c][i] = v << 1 if v else 1; H["mv"][c * 19 + i] = self.mvp[c][i]
        # macroblocks
        nparts = 1 << parts
        toks = [BoolEncoder() for _ in range(nparts)]
        self.above_ctx = [[0] * 9 for _ in range(self.mbw)]
        self.info = {}
        self.quants = [self.quantizer(clampq(q if not seg else (self.seg_q[i] if self.seg_abs else q + self.seg_q[i]))) for i in range(4)]
        fpos, tpos = [], []                                    # where every macroblock starts, in bits
        for row in range(self.mbh):
            self.left_ctx = [0] * 9
            for col in range(self.mbw):
                i = row * self.mbw + col
                fpos.append(b.pos); tpos.append((row % nparts, toks[row % nparts].pos))
                if upd_map:
                    s = r.randrange(4)
                    # keep the cost finite when a segment has probability zero
                    b.path(SEG_T[s], segprobs)
                    self.map[i] = s
                self.coefs = []
                self.macroblock(b, toks[row % nparts], row, col, self.quants[self.map[i] if seg else 0])
                if self.record: H["mbs"].append((col, row, self.info[row, col], self.coefs))
        fpos.append(b.pos)
        tend = [t.pos for t in toks]
        if saved: self.coeff, self.ymode, self.uvmode, self.mvp = saved
        if self.record: H["after"] = (bytes(self.coeff), bytes(self.ymode), bytes(self.uvmode), bytes(self.mvp[0] + self.mvp[1]))
        first = b.flush()
        chunks = [t.flush() for t in toks]
        tokens = b"".join(struct.pack("<I", len(c))[:3] for c in chunks[:-1]) + b"".join(chunks)
        self.last_first_size = len(first)
        self.metas.append(dict(key=key, lf=lf, fpos=fpos, tpos=tpos, tend=tend, first=len(first), parts=[len(c) for c in chunks]))
        if self.record: self.metas[-1]["syntax"] = H
        tag = (0 if key else 1) | (p.version << 1) | ((1 if show else 0) << 4) | (len(first) << 5)
        assert len(first) < 1 << 19
        out = struct.pack("<I", tag)[:3]
        if key:
            sx, sy = (r.randrange(4), r.randrange(4)) if p.scale else (0, 0)
            out += b"\x9d\x01\x2a" + struct.pack("<HH", self.w | sx << 14, self.h | sy << 14)
        return out + first + tokens

    def quantizer(self, q):
        y1dc, y2dc, y2ac, uvdc, uvac = self.qd
        return {1: (DC_Q[clampq(q + y2dc)] * 2, max(8, AC_Q[clampq(q + y2ac)] * 155 // 100)),
                0: (0, AC_Q[q]), 3: (DC_Q[clampq(q + y1dc)], AC_Q[q]),
                2: (min(132, DC_Q[clampq(q + uvdc)]), AC_Q[clampq(q + uvac)])}

    # ---------------------------------------------------------------- macroblock
    def macroblock(self, b, tok, row, col, quant):
        r, p = self.r, self.p
        skipped = False
        if self.skip is not None:
            skipped = r.random() < self.skip
            b.put(1 if skipped else 0, self.skip_prob)
        inter = False
        if not self.key:
            inter = r.random() >= self.intra
            b.put(1 if inter else 0, self.p_intra)
        mb = {"ref": 0, "mode": None, "mv": (0, 0), "bmv": None, "bm": None}
        if inter: has_y2 = self.inter_mb(b, mb, row, col)
        else: has_y2 = self.intra_mb(b, mb, row, col)
        self.info[row, col] = mb
        above, left = self.above_ctx[col], self.left_ctx
        if skipped:
            for c in (above, left):
                for i in range(8): c[i] = 0
                if has_y2: c[8] = 0
            self.cnt("mb.skip")
            return
        nothing = r.random() < (0.3 if p.residue == "sparse" else .6 if p.residue == "none" else 0.05)
        if has_y2:
            n = self.block(tok, 1, 0, above[8] + left[8], quant[1], nothing)
            above[8] = left[8] = n
        t, first = (0, 1) if has_y2 else (3, 0)
        for y in range(4):
            for x in range(4):
                n = self.block(tok, t, first, above[x] + left[y], quant[t], nothing)
                above[x] = left[y] = n
        for base in (4, 6):
            for y in range(2):
                for x in range(2):
                    n = self.block(tok, 2, 0, above[base + x] + left[base + y], quant[2], nothing)
                    above[base + x] = left[base + y] = n

    def block(self, tok, type_, first, ctx, quant, nothing):
        r, p = self.r, self.p
        probs = self.coeff
        coefs = [0] * 16
        last = first
        zero_run = False
        res = p.residue
        if not nothing and r.random() < {"none": .1, "sparse": .3, "mid": .6, "dense": .95}[res]:
            n = {"none": 1, "sparse": r.choice([1, 1, 2]), "mid": r.randrange(1, 6), "dense": r.randrange(1, 17)}[res]
            amp = p.amp * (4 if type_ == 1 else 1)
            if r.random() < .02 and n == 1: amp = 8000
            for _ in range(n):
                i = r.choice([first, r.randrange(first, 16)])
                qf = quant[0] if i == 0 else quant[1]
                m = min(2048 + 66, max(1, amp // (qf * (1 if n < 4 else 2))))
                v = r.choice([1, 1, 2, r.randint(1, m)])
                if v * qf > 8000: v = 1
                coefs[i] = v * r.choice([1, -1])
                last = max(last, i + 1)
        if p.zero_runs and not nothing and r.random() < p.zero_runs:
            zero_run = True; self.cnt("block.zero_run"); last = 16
        self.coefs.append((type_, coefs))
        self.cnt("block.type%d.%s" % (type_, "coded" if last > first else "empty"))
        put = tok.put
        i = first
        prev_zero = False
        while i < 16:
            o = ((type_ * 8 + BIDX[i]) * 3 + ctx) * 11
            if not prev_zero:
                if i >= last: put(0, probs[o]); return 1 if last > first else 0
                put(1, probs[o])
            v = coefs[i]
            if v == 0:
                put(0, probs[o + 1]); prev_zero = True; ctx = 0; i += 1; continue
            prev_zero = False
            put(1, probs[o + 1])
            a = abs(v)
            if a == 1: put(0, probs[o + 2]); ctx = 1
            else:
                ctx = 2
                put(1, probs[o + 2])
                if a <= 4:
                    put(0, probs[o + 3])
                    if a == 2: put(0, probs[o + 4])
                    else: put(1, probs[o + 4]); put(a - 3, probs[o + 5])
                else:
                    put(1, probs[o + 3])
                    c = 5
                    while CATS[c][0] > a: c -= 1
                    self.cnt("cat%d" % (c + 1))
                    if c < 2: put(0, probs[o + 6]); put(c, probs[o + 7])
                    else:
                        put(1, probs[o + 6])
                        if c < 4: put(0, probs[o + 8]); put(c - 2, probs[o + 9])
                        else: put(1, probs[o + 8]); put(c - 4, probs[o + 10])
                    base, ps = CATS[c]
                    x = a - base
                    for k, pr in enumerate(ps): put((x >> (len(ps) - 1 - k)) & 1, pr)
            put(1 if v < 0 else 0)
            i += 1
        return 1

    def intra_mb(self, b, mb, row, col):
        r, p = self.r, self.p
        ym = 4 if r.random() < p.bpred else r.randrange(4)
        self.cnt("intra%s.%d" % ("K" if self.key else "I", ym))
        b.path((KF_Y if self.key else Y_T)[ym], KF_YMODE if self.key else self.ymode)
        if ym == 4:
            bm = []
            style = r.randrange(11)
            for i in range(16):
                m = r.randrange(10) if style == 10 or r.random() < .3 else style
                if self.key:
                    a = bm[i - 4] if i >= 4 else (self.info[row - 1, col]["bm"][12 + i] if row else 0)
                    l = bm[i - 1] if i & 3 else (self.info[row, col - 1]["bm"][i + 3] if col else 0)
                    o = (a * 10 + l) * 9
                    b.path(B_T[m], KF_BMODE[o:o + 9])
                else: b.path(B_T[m], BMODE_DEFAULT)
                bm.append(m)
            for m in set(bm): self.cnt("bmode.%d" % m)
            mb["bm"] = bm
        else: mb["bm"] = [IMPLIED[ym]] * 16
        mb["mode"] = "intra"; mb["ymode"] = ym
        uv = mb["uvmode"] = r.randrange(4)
        b.path(UV_T[uv], KF_UVMODE if self.key else self.uvmode)
        return ym != 4

    def near(self, row, col, ref):
        near = [(0, 0)] * 4; cnt = [0] * 4; idx = 0
        nb = [(self.info.get((row - 1, col)), 2), (self.info.get((row, col - 1)) if col else None, 2), (self.info.get((row - 1, col - 1)) if col else None, 1)]
        split = 0
        for m, w in nb:
            if m is None or not m["ref"]: continue
            if m["mode"] == 4: split += w
            mv = m["mv"]
            if self.bias[m["ref"]] != self.bias[ref]: mv = (-mv[0], -mv[1])
            if mv == (0, 0): cnt[0] += w; continue
            if idx and mv == near[idx]: cnt[idx] += w
            else: idx += 1; near[idx] = mv; cnt[idx] += w
        if cnt[3] and near[idx] == near[1]: cnt[1] += 1
        cnt[3] = split
        if cnt[2] > cnt[1]:
            cnt[1], cnt[2] = cnt[2], cnt[1]; near[1], near[2] = near[2], near[1]
        if cnt[1] >= cnt[0]: near[0] = near[1]
        return near, cnt

    def clamp_mv(self, mv, row, col):
        x, y = mv
        x = min(max(x, -col * 128 - 128), (self.mbw - 1 - col) * 128 + 128)
        y = min(max(y, -row * 128 - 128), (self.mbh - 1 - row) * 128 + 128)
        return (x, y)

    def new_mv(self, b, best, row, col):
        r = self.r
        st = self.p.mv_style
        if st == "any": st = r.choice(["tiny", "mid", "far", "wild"])
        def pick(pos, size):
            if st == "tiny": return r.randrange(-12, 13) * 2
            if st == "mid": return r.choice([r.randrange(-pos * 8 - 64, (size - pos) * 8 + 64), 8 * r.randrange(-8, 9), r.randrange(-60, 61)]) & ~1
            if st == "far": return r.choice([-1, 1]) * r.randrange(0, 1200) & ~1
            return r.randrange(-2046, 2047) & ~1
        mv = [pick(col * 16, self.w), pick(row * 16, self.h)]
        if r.random() < .1: mv[r.randrange(2)] = 0
        for i in (0, 1):
            d = mv[i] - best[i]
            mv[i] = best[i] + max(-2046, min(2046, d))
        for c, i in ((0, 1), (1, 0)):
            d = (mv[i] - best[i]) >> 1
            pr = self.mvp[c]
            x = abs(d)
            if x < 8:
                b.put(0, pr[0])
                for k, bit in SMALL_T[x]: b.put(bit, pr[2 + k])
            else:
                b.put(1, pr[0])
                for k in (0, 1, 2): b.put((x >> k) & 1, pr[9 + k])
                for k in range(9, 3, -1): b.put((x >> k) & 1, pr[9 + k])
                if x > 15: b.put((x >> 3) & 1, pr[9 + 3])
            if x: b.put(1 if d < 0 else 0, pr[1])
        return tuple(mv)

    def inter_mb(self, b, mb, row, col):
        r, p = self.r, self.p
        ref = r.choice([1, 1, 2, 3])
        mb["ref"] = ref
        b.put(ref > 1, self.p_last)
        if ref > 1: b.put(ref - 2, self.p_gf)
        near, cnt = self.near(row, col, ref)
        probs = [MODE_CONTEXTS[cnt[i]][i] for i in range(4)]
        mode = 4 if r.random() < p.split else r.randrange(4)
        mb["mode"] = mode
        self.cnt("inter.mode%d" % mode); self.cnt("inter.ref%d" % ref); self.cnt("mvctx.%d%d%d%d" % tuple(cnt))
        b.path(MV_T[mode], probs)
        if mode == 1: mb["mv"] = self.clamp_mv(near[1], row, col)
        elif mode == 2: mb["mv"] = self.clamp_mv(near[2], row, col)
        elif mode == 3: mb["mv"] = self.new_mv(b, self.clamp_mv(near[0], row, col), row, col)
        elif mode == 4:
            best = self.clamp_mv(near[0], row, col)
            sp = r.randrange(4)
            self.cnt("split.%d" % sp)
            b.path(SPLIT_T[sp], SPLIT_PROBS)
            bmv = [(0, 0)] * 16
            mb["sub"] = [0] * 16
            for part in PARTS[sp]:
                k = part[0]
                def nb(rr, cc, kk):
                    m = self.info.get((rr, cc)) if cc >= 0 else None
                    if m is None: return (0, 0)
                    return m["bmv"][kk] if m["bmv"] else m["mv"]
                l = bmv[k - 1] if k & 3 else nb(row, col - 1, k + 3)
                a = bmv[k - 4] if k >= 4 else nb(row - 1, col, k + 12)
                if l == a: ctx = 4 if l == (0, 0) else 3
                elif a == (0, 0): ctx = 2
                elif l == (0, 0): ctx = 1
                else: ctx = 0
                sm = r.randrange(4)
                self.cnt("sub.%d.ctx%d" % (sm, ctx))
                b.path(SUB_T[sm], SUBMV[ctx])
                mv = l if sm == 0 else a if sm == 1 else (0, 0) if sm == 2 else self.new_mv(b, best, row, col)
                for x in part: bmv[x] = mv; mb["sub"][x] = sm
            mb["bmv"] = bmv; mb["mv"] = bmv[15]
        return mode != 4

def ivf(width, height, frames, fourcc=b"VP80", rate=30, scale=1, hash32=0):
    out = [b"DKIF" + struct.pack("<HH4sHHIIII", 0, 32, fourcc, width, height, rate, scale, len(frames), hash32)]
    for i, f in enumerate(frames):
        out.append(struct.pack("<IQ", len(f), i)); out.append(f)
    return b"".join(out)

SIZES = [(16, 16), (32, 32), (48, 48), (64, 48), (33, 17), (17, 33), (1, 1), (8, 8), (50, 34), (80, 64), (96, 16),
         (16, 96), (175, 49), (47, 79), (2, 130), (130, 2), (63, 65), (128, 96)]

def random_stream(seed, size=None, nframes=None, over=None):
    rng = random.Random(seed)
    w, h = size or rng.choice(SIZES)
    n = nframes or rng.randrange(3, 12)
    prof = Profile(rng)
    for k, v in (over or {}).items(): setattr(prof, k, v)
    return StreamGen(rng, w, h, n, prof)
