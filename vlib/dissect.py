"""what xc-dissect must print for a stream whose syntax is known, and a reader for its output"""
YM = ["DC_PRED", "V_PRED", "H_PRED", "TM_PRED", "B_PRED"]
IM = ["ZEROMV", "NEARESTMV", "NEARMV", "NEWMV", "SPLITMV"]
BM = ["B_DC_PRED", "B_TM_PRED", "B_VE_PRED", "B_HE_PRED", "B_LD_PRED", "B_RD_PRED", "B_VR_PRED", "B_VL_PRED", "B_HD_PRED", "B_HU_PRED"]
SM = ["LEFT4X4", "ABOVE4X4", "ZERO4X4", "NEW4X4"]
REF = ["CURRENT_FRAME", "LAST_FRAME", "GOLDEN_FRAME", "ALTREF_FRAME"]
ZZ = [0, 1, 4, 8, 5, 2, 3, 6, 9, 12, 13, 10, 7, 11, 14, 15]

def parse(text):
    """-> list of frames: dict(no, kind, size, head (key -> value), hidden, quant, probs, mbs)"""
    frames, f, sec, mb, part, block = [], None, None, None, None, None
    for line in text.split("\n"):
        s = line.strip()
        if not s: continue
        if s.startswith(">> Frame #"):
            a = s[10:].split()
            f = dict(no=int(a[0]), kind=a[1], size=None, head=[], hidden=False, quant={}, probs=None, mbs=None, title=None)
            frames.append(f); sec = "top"; continue
        if f is None: raise ValueError("text before the first frame: " + s[:80])
        if s.startswith("["):
            name = s.split("]")[0][1:]
            if name in ("Keyframe Header", "Interframe Header"): sec = "head"; f["title"] = name; continue
            if name == "Quantizer": sec = "quant"; continue
            if name == "Macroblocks": sec = "mbs"; f["mbs"] = []; continue
            if name == "Probability Tables": sec = "probs"; f["probs"] = []; continue
        if s == "(hidden frame)": f["hidden"] = True; continue
        if sec == "top":
            k, v = s.split(":"); assert k == "Size" and v.endswith(" B"), s
            f["size"] = int(v[:-2]); continue
        if sec == "probs":
            i = [int(x) for x in s[1:s.index("]")].split(",")]
            v = s[s.index("{") + 1:s.index("}")].split()
            f["probs"].append((tuple(i), [None if x == "-" else int(x) for x in v])); continue
        if sec == "head":
            k, v = s.split(":", 1); f["head"].append((k, v.split())); continue
        if sec == "quant":
            k, v = s.split("="); f["quant"][k.strip()] = int(v); continue
        if s.startswith("Macroblock ["):
            c = s[s.index("[") + 1:s.index("]")].split(",")
            mb = dict(at=(int(c[0]), int(c[1])), part={}, mv=None, ref=None); f["mbs"].append(mb); continue
        if s in ("<Y>", "<Y2>", "<U>", "<V>"):
            part = mb["part"][s[1:-1]] = dict(mode=None, blocks=[]); block = None
            if s == "<Y2>": block = dict(at=None, mode=None, coef=None); part["blocks"].append(block)
            continue
        if "Subblock [" in s:
            c = s[s.index("[") + 1:s.index("]")].split(",")
            assert s[0] == {"Y": "Y", "U": "U", "V": "V"}[[k for k in mb["part"]][-1]], s
            block = dict(at=(int(c[0]), int(c[1])), mode=None, coef=None); part["blocks"].append(block); continue
        if s.startswith("Prediction Mode:"):
            (block if block is not None else part)["mode"] = s.split(":")[1].strip(); continue
        if s.startswith("Base Motion Vector:"):
            mb["mv"] = tuple(int(x) for x in s[s.index("(") + 1:s.index(")")].split(",")); continue
        if s.startswith("Reference:"): mb["ref"] = s.split(":")[1].strip(); continue
        if s == "ALL ZERO": block["coef"] = [0] * 16; continue
        if s.startswith("DCT coeffs: {"):
            block["coef"] = [int(x) for x in s[s.index("{") + 1:s.index("}")].split(",")]; continue
        raise ValueError("unexpected line: " + s[:120])
    return frames

def opt(v): return "X" if v is None else str(v)

def head(H):
    b = lambda x: str(int(bool(x)))
    o = []
    if H["key"]: o += [("color_space", [b(H["color"])]), ("clamping_type", [b(H["clamp"])])]
    o += [("refresh_entropy_probs", [b(H["keep"])]), ("update_segmentation", [b(H["seg"])]), ("filter_type", [b(H["simple"])]), ("mode_lf_adjustments", [b(H["lfd"])])]
    if H["lfd"]:
        o.append(("lf_delta_update", [b(H["lfdelta"] is not None)]))
        if H["lfdelta"]: o += [("ref_update", [opt(x) for x in H["lfdelta"][:4]]), ("mode_update", [opt(x) for x in H["lfdelta"][4:]])]
    o += [("loop_filter_level", [str(H["lf"])]), ("sharpness_level", [str(H["sharp"])]), ("mb_no_skip_coeff", [b(H["skip"] is not None)])]
    if H["skip"] is not None: o.append(("prob_skip_false", [str(H["skip"])]))
    if not H["key"]:
        o += [("refresh_last", [b(H["rl"])]), ("refresh_golden_frame", [b(H["rg"])]), ("refresh_alternate_frame", [b(H["ra"])])]
        o += list(zip(("prob_inter", "prob_last", "prob_golden"), ([str(x)] for x in H["probs"])))
        o.append(("16x16_prob_update", [b(H["ymode"] is not None)]))
        if H["ymode"]: o.append(("16x16_prob", [str(x) for x in H["ymode"]]))
        o.append(("chroma_prob_update", [b(H["uvmode"] is not None)]))
        if H["uvmode"]: o.append(("chroma_prob", [str(x) for x in H["uvmode"]]))
        o.append(("mv_prob_update", ["|".join("-" if x is None else str(x) for x in H["mv"])]))
    return o

def compare(f, H, number, size, p, m, c):
    """problems of one printed frame"""
    if f["no"] != number: return "frame %d is printed as #%d" % (number, f["no"])
    if f["kind"] != ("(KF)" if H["key"] else "(IF)") or f["title"] != ("Keyframe Header" if H["key"] else "Interframe Header"): return "frame type %s, %s" % (f["kind"], f["title"])
    if f["size"] != size: return "size %s, %d in the file" % (f["size"], size)
    if f["hidden"] == bool(H["show"]): return "hidden: %s" % f["hidden"]
    want = head(H)
    for a, b in zip(f["head"], want):
        if a != b: return "header says %s: %s, the stream %s: %s" % (a[0], " ".join(a[1]), b[0], " ".join(b[1]))
    if len(f["head"]) != len(want): return "header has %d lines, not %d" % (len(f["head"]), len(want))
    q = {"y_ac_qi": H["q"]}
    for k, v in zip(("y_dc", "y2_dc", "y2_ac", "uv_dc", "uv_ac"), H["qd"]):
        if v is not None: q[k] = v
    if f["quant"] != q: return "quantizer %s, in the stream %s" % (f["quant"], q)
    if p:
        if [x[0] for x in f["probs"]] != [(i, j, k) for i in range(4) for j in range(8) for k in range(3)]: return "probability tables: rows"
        for n, (at, row) in enumerate(f["probs"]):
            if row != H["coeff"][n * 11:n * 11 + 11]: return "probabilities of %s: %s, in the stream %s" % (at, row, H["coeff"][n * 11:n * 11 + 11])
    elif f["probs"] is not None: return "probability tables not asked for"
    if not m:
        return "macroblocks not asked for" if f["mbs"] is not None else None
    if len(f["mbs"]) != len(H["mbs"]): return "%d macroblocks of %d" % (len(f["mbs"]), len(H["mbs"]))
    for g, (col, row, mb, coefs) in zip(f["mbs"], H["mbs"]):
        w = "macroblock %d,%d: " % (col, row)
        if g["at"] != (col, row): return w + "printed as %s" % (g["at"],)
        inter = mb["ref"] > 0
        mode = IM[mb["mode"]] if inter else YM[mb["ymode"]]
        P = g["part"]
        if P["Y"]["mode"] != mode: return w + "mode %s, in the stream %s" % (P["Y"]["mode"], mode)
        if g["ref"] != (REF[mb["ref"]] if inter else None): return w + "reference %s, in the stream %s" % (g["ref"], REF[mb["ref"]])
        if g["mv"] != ((mb["mv"][0], mb["mv"][1]) if inter else None): return w + "vector %s, in the stream %s" % (g["mv"], mb["mv"])
        for k in "UV":
            if P[k]["mode"] != (None if inter else YM[mb["uvmode"]]): return w + "%s mode %s" % (k, P[k]["mode"])
        for k, n in (("Y", 4), ("U", 2), ("V", 2)):
            if [x["at"] for x in P[k]["blocks"]] != [(x, y) for y in range(n) for x in range(n)]: return w + "%s blocks" % k
        sub = [BM[x] for x in mb["bm"]] if not inter and mb["ymode"] == 4 else [SM[x] for x in mb["sub"]] if inter and mb["mode"] == 4 else [None] * 16
        if [x["mode"] for x in P["Y"]["blocks"]] != sub: return w + "block modes %s, in the stream %s" % ([x["mode"] for x in P["Y"]["blocks"]], sub)
        y2 = mode not in ("B_PRED", "SPLITMV")
        got = []
        if c:
            if y2 != ("Y2" in P): return w + "Y2 block %s" % ("missing" if y2 else "printed")
            got = [x["coef"] for k in (("Y2",) if y2 else ()) + ("Y", "U", "V") for x in P[k]["blocks"]]
            want = []
            for t, z in coefs or [(0, [0] * 16)] * len(got):
                v = [0] * 16
                for i in range(16): v[ZZ[i]] = z[i]
                want.append(v)
            if got != want:
                i = [a == b for a, b in zip(got, want)].index(False) if len(got) == len(want) else -1
                return w + "coefficients of block %d: %s, in the stream %s" % (i, got[i], want[i])
        elif any(x["coef"] for k in P for x in P[k]["blocks"]): return w + "coefficients not asked for"
    return None
