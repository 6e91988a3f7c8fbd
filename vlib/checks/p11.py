"""P11: IVF files written, read back, merged, and looked at after every instruction of the writer."""
import os, struct, time, signal, subprocess, random
from vlib import build, streams, video
from vlib.common import pmap, run, HarnessError

LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitor: the writer single-stepped (trap flag) and its file checked after every instruction that changed it, with short and failing writes injected; round trips against an own parser; the tools killed at random moments"
NOTE = "a crash means the death of the process: what the kernel has been given stays; power loss and reordering by the disk are not modelled (the writer never syncs)"
RULE = ("a case is one state of the file as it stood after some instruction of an append, or one file read back; distinct by frame count, position in the append, write fragmentation and failure; "
        "an own parser and IVF itself must find exactly the completed frames, or one more")
MIX = 1469598103934665603

def digest(b):
    a, c, M = 1469598103934665603, 88172645463325252, (1 << 64) - 1
    for x in b:
        a = ((a ^ x) * 1099511628211) & M
        c = ((c + x + 1) * 6364136223846793005 + 1442695040888963407) & M
    return "%016x%08x" % (a, c >> 32)

def harness(job):
    exe, cmd, seed, n, d = job
    os.makedirs(d, exist_ok=True)
    ls, bad = streams.lines(run([exe, cmd, str(seed), str(n), d], timeout=400), cmd)
    if not bad:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return cmd, ls, bad, d

def read(exe, path):
    ls, bad = streams.lines(run([exe, "read", path], timeout=120), "reading " + os.path.basename(path))
    return [l.split() for l in ls if l[:2] in ("H ", "F ")], bad

def merge(job):
    """files made here, read and merged by the tools"""
    ex, work, seed = job
    g = random.Random(seed); t = os.path.join(work, "g%d" % seed)
    bad, names, fr = [], [], []
    w, h = g.randrange(1, 16384), g.randrange(1, 16384)
    for k in "ab":
        f = [g.randbytes(g.choice([0, 1, 5, 300, 4096, 20000])) for _ in range(g.choice([0, 1, 2, 7]))]
        names.append(t + k + ".ivf"); fr.append(f)
        streams.write_ivf(names[-1], w, h, f, g.getrandbits(32), rate=g.randrange(1, 1 << 32), scale=g.randrange(1, 1 << 32))
    rows, b = read(ex["h:ivfh"], names[0]); bad += b
    if not b:
        want = [["F", str(i), str(len(x)), digest(x)] for i, x in enumerate(fr[0])]
        if [r for r in rows if r[0] == "F"] != want: bad.append(("read", "a file made by another writer is read differently"))
    o = t + "o.ivf"
    r = run([ex["xc-merge"], names[0], names[1], o])
    if r.rc: bad.append(("merge-fails", "xc-merge: exit %s %s" % (r.rc, r.errtext[-300:])))
    else:
        data = open(o, "rb").read()
        if struct.unpack_from("<HH", data, 12) != (w, h): bad.append(("merge-size", "the merged file has another picture size"))
        if struct.unpack_from("<I", data, 24)[0] != len(fr[0]) + len(fr[1]): bad.append(("merge-count", "the merged file counts %d frames of %d + %d" % (struct.unpack_from("<I", data, 24)[0], len(fr[0]), len(fr[1]))))
        if streams.split_ivf(data) != fr[0] + fr[1] or len(data) != 32 + sum(12 + len(x) for x in fr[0] + fr[1]): bad.append(("merge", "the merged file does not hold the frames of both, in order"))
    files = names + [o]
    if not bad:
        for f in files:
            if os.path.exists(f): os.unlink(f)
    return bad, (len(fr[0]), len(fr[1])), files

def killed(job):
    """a tool killed while it writes: what is on disk can be read and is a prefix of what it would have written"""
    ex, tool, args, whole, out, delay, w, h = job
    try: os.unlink(out)
    except OSError: pass
    p = subprocess.Popen([ex[tool]] + args + ([out] if tool != "xc-enc" else []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    # from the moment the header is there
    t0 = time.time()
    while time.time() - t0 < 20:
        try:
            if os.path.getsize(out) >= 32: break
        except OSError: pass
        if p.poll() is not None: break
    time.sleep(delay)
    p.kill(); p.wait()
    if not os.path.exists(out) or os.path.getsize(out) < 32: return [], None, out
    data = open(out, "rb").read()
    n = struct.unpack_from("<I", data, 24)[0]
    got = streams.split_ivf(data)[:n]
    bad = []
    if got != whole[:n]: bad.append(("killed", "%s killed after %.1f ms: the %d frames it left are not the first ones of what it writes" % (tool, delay * 1000, n)))
    rows, b = read(ex["h:ivfh"], out); bad += b
    if not b and int(rows[0][-1]) != n: bad.append(("killed-count", "%s killed: %s frames read, header counts %d" % (tool, rows[0][-1], n)))
    if not bad: os.unlink(out)
    return bad, n, out

def check(c):
    ex = build.build("opt", ["h:ivfh", "xc-merge", "xc-enc", "xc-terminate-chunk"])
    g = c.rng("ivf")
    per = c.n(12, 60)
    jobs = [(ex["h:ivfh"], "rt", g.getrandbits(36) * 16 + i % 16, per, os.path.join(c.work, "rt%d" % i)) for i in range(c.n(60, 300))]
    jobs += [(ex["h:ivfh"], "step", g.getrandbits(40), per, os.path.join(c.work, "st%d" % i)) for i in range(c.n(90, 600))]
    for cmd, ls, bad, d in pmap(harness, jobs):
        for l in ls:
            f = l.split()
            if f[0] == "S": c.ev(); c.state(tuple(f[1:])); c.saw("states of the file seen while it was written")
            elif f[0] == "R": c.ev(); c.state(("file", min(int(f[2]), 20), f[3])); c.saw("files written and read back")
            elif f[0] == "STAT": c.saw({"steps": "instructions of the writer watched", "shots": "crash states read back", "failed": "appends on a full disk", "shorts": "short writes", "frames": "frames written and read back"}[f[1]], int(f[2]))
        c.sample("%s: %d lines" % (os.path.basename(d), len(ls)))
        for key, text in bad[:3]: c.violation("%s:%s" % (key, os.path.basename(d)), text, [os.path.join(d, f) for f in os.listdir(d)] if os.path.isdir(d) else [])
    for bad, k, files in pmap(merge, [(ex, c.work, g.getrandbits(40)) for _ in range(c.n(240, 1000))], chunk=4):
        c.ev(); c.state(("merge", k)); c.saw("merges")
        for key, text in bad[:3]: c.violation(key + ":" + os.path.basename(files[0]), text, [f for f in files if os.path.exists(f)])
    # more than 4 GB, without the bytes
    big = os.path.join(c.work, "big.ivf"); sizes = [1 << 30, 1 << 30, (1 << 30) + 7, 1 << 30, 1 << 30, 5]
    with open(big, "wb") as f:
        f.write(b"DKIF" + struct.pack("<HH4sHHIIII", 0, 32, b"VP80", 16, 16, 30, 1, len(sizes), 0))
        for i, n in enumerate(sizes):
            f.write(struct.pack("<IQ", n, i)); at = f.tell(); f.write(bytes([65 + i]) * 5); f.seek(at + n)
        f.truncate(f.tell())
    rows, bad = read(ex["h:ivfh"], big)
    os.unlink(big)
    c.ev(); c.saw("files beyond 4 GB read")
    want = [["F", str(i), str(n), digest(bytes([65 + i]) * 5 + bytes((4096 if n > 70000000 else n) - 5))] for i, n in enumerate(sizes)]
    if bad or [r for r in rows if r[0] == "F"] != want: c.violation("big", "a file of more than 4 GB is read differently: %s" % (bad or rows[-1]), [])
    # killed writers
    a, b = os.path.join(c.work, "ka.ivf"), os.path.join(c.work, "kb.ivf")
    fa, fb = [[g.randbytes(g.randrange(0, 900)) for _ in range(20000)] for _ in range(2)]
    streams.write_ivf(a, 64, 48, fa); streams.write_ivf(b, 64, 48, fb)
    y = os.path.join(c.work, "k.y4m"); _, pics = video.frames(g.getrandbits(30), 64, 48, 60, "motion")
    open(y, "wb").write(video.y4m(64, 48, pics))
    full = os.path.join(c.work, "kfull.ivf")
    r = run([ex["xc-enc"], "-i", "y4m", "-q", "rt", "-y", "30", "-o", full, y], timeout=120)
    if r.rc: raise HarnessError("xc-enc: " + r.errtext[-300:])
    enc = streams.split_ivf(open(full, "rb").read())
    jobs = []
    for i in range(c.n(80, 400)):
        out = os.path.join(c.work, "k%d.ivf" % i)
        if i % 2: jobs.append((ex, "xc-merge", [a, b], fa + fb, out, g.random() * .15, 64, 48))
        else: jobs.append((ex, "xc-enc", ["-i", "y4m", "-q", "rt", "-y", "30", "-o", out, y], enc, out, g.random() * .1, 64, 48))
    for job, (bad, n, out) in zip(jobs, pmap(killed, jobs, procs=False, jobs=3)):
        if n is None: continue
        c.ev(); c.state(("killed", job[1], n)); c.saw("tools killed while writing"); c.saw("killed with frames missing", 1 if n < len(job[3]) else 0)
        for key, text in bad[:2]: c.violation(key + ":" + job[1], text, [out] if os.path.exists(out) else [])
