"""P21: everything acquired is given back: memory, descriptors, mappings, child processes; also after exceptions and failing system calls."""
import os, shutil
from vlib import build, streams
from vlib.common import pmap, run, HarnessError

LEVEL = "exploration"
TECHNIQUE = ("runtime monitor: live heap bytes and objects, open descriptors, mappings (address and length), commands and child processes compared after identical repetitions of a job, "
             "with every system call of the job failed in turn (link-time fault injection); ASan; peak resident size of the programs on short and long streams")
NOTE = ("growth is confirmed over up to twenty times as many repetitions before it counts, so what a pool or a vector puts aside is not an alarm; close and munmap are not failed "
        "(the destructors throw by design); what the Salsify programs remember of a peer that never answers is not covered")
RULE = ("an evaluation is one repetition compared with those before it, one failing system call, or one program run; distinct by job, failing call, program and size modulo 16")
SIZES = [(16, 16), (33, 17), (64, 48), (1, 1), (50, 34), (96, 80)]
ENV = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}

def mk(a): streams.make(*a)

def one(job):
    var, exe, mode, seed, d, ivf, n = job
    os.makedirs(d, exist_ok=True)
    r = streams.lines(run([exe, mode, seed, d, ivf, n], timeout=300, env=ENV), "%s %s seed %d %s" % (var, mode, seed, os.path.basename(ivf)))
    shutil.rmtree(d, ignore_errors=True)
    return r

def peak(exe, cmd):
    """largest resident size of a program run, in kB"""
    r = run([exe, "peak"] + cmd, timeout=300, env={"MALLOC_ARENA_MAX": "1"})
    f = r.text.split()
    if r.rc or r.timeout or len(f) < 3 or f[-3] != "peak": raise HarnessError("peak of %s: %s %s" % (cmd, r.rc, r.errtext[-300:]))
    return int(f[-2]), int(f[-1]), r.errtext[-400:]

def y4m(path, w, h, n, rng):
    fs = w * h + 2 * ((w + 1) // 2) * ((h + 1) // 2)
    some = [b"FRAME\n" + bytes((rng.randrange(60) + x * k // 50) & 255 for x in range(fs)) for k in range(4)]
    with open(path, "wb") as f: f.write(b"YUV4MPEG2 W%d H%d F30:1 Ip C420\n" % (w, h) + b"".join(some[i % 4] for i in range(n)))

def program(job):
    """(name, commands and what they read, growth allowed in kB) -> peaks; an IVF file is mapped and would count"""
    exe, name, cmds, extra = job
    out = []
    for cmd, inp in cmds:
        kb, st, err = peak(exe, cmd)
        out.append((kb - (os.path.getsize(inp) // 1024 if inp.endswith(".ivf") else 0), st, err))
    return out

def check(c):
    opt = build.build("opt", ["h:leak", "vp8decode", "xc-enc", "xc-framesize", "xc-dump"]); asan = build.build("asan", ["h:leak"])["h:leak"]
    g = c.rng("cases")
    mkjobs, plan = [], []
    for i, s in enumerate(SIZES):
        for k in range(c.n(2, 12)):
            p = os.path.join(c.work, "s%d_%d.ivf" % (i, k)); mkjobs.append((p, g.getrandbits(40), s, 6, dict(parts=[0, 1, 2, 3][k % 4])))
            for var, exe in (("opt", opt["h:leak"]), ("asan", asan)):
                for mode, n in (("cycles", 18), ("faults", c.n(40 if var == "opt" else 12, 400)), ("steady", c.n(24, 120))):
                    plan.append((var, exe, mode, g.getrandbits(30), os.path.join(c.work, "d%d" % len(plan)), p, n))
    pmap(mk, mkjobs)
    # long streams: the programs' peak must not depend on the number of frames
    w, h = 96, 80
    lo = os.path.join(c.work, "lo.ivf"); m = streams.make(lo, g.getrandbits(40), (w, h), 8)
    short, long_ = c.n(60, 100), c.n(600, 4000)
    for n, name in ((short, "short"), (long_, "long")):
        streams.write_ivf(os.path.join(c.work, name + ".ivf"), w, h, [m.frames[i % len(m.frames)] for i in range(n)])
        y4m(os.path.join(c.work, name + ".y4m"), w, h, n // 6, c.rng("y4m"))
    def two(f, ext): return [(f(os.path.join(c.work, n + ext)), os.path.join(c.work, n + ext)) for n in ("short", "long")]
    progs = [(opt["h:leak"], "vp8decode", two(lambda p: [opt["vp8decode"], "-o", os.path.join(c.work, os.path.basename(p) + ".out"), p], ".ivf"), long_ - short),
             (opt["h:leak"], "xc-dump", two(lambda p: [opt["xc-dump"], "-f", "3", p, os.path.join(c.work, os.path.basename(p) + ".dump")], ".ivf"), long_ - short),
             (opt["h:leak"], "xc-enc", two(lambda p: [opt["xc-enc"], "-i", "y4m", "-q", "rt", "-y", "60", "-o", os.path.join(c.work, os.path.basename(p) + ".enc"), p], ".y4m"), (long_ - short) // 6),
             (opt["h:leak"], "xc-framesize", two(lambda p: [opt["xc-framesize"], p], ".ivf"), long_ - short)]
    for (_, name, cmds, more), res in zip(progs, pmap(program, progs, procs=False)):
        (a, sa, ea), (b, sb, eb) = res
        c.ev(2); c.state("program " + name); c.saw("program runs", 2)
        c.sample("%s: peak %d kB on the short stream, %d kB on the long one (files not counted)" % (name, a, b))
        if sa or sb: c.violation("program:" + name, "%s ends with status %s/%s on a sound stream: %s %s" % (name, sa, sb, ea, eb))
        elif b - a > 1500 + more: c.violation("peak:" + name, "%s: the peak resident size grows from %d kB to %d kB (files not counted) when the stream grows from %d to %d frames" % (name, a, b, short, long_))
    for job, (ls, bad) in zip(plan, pmap(one, plan, procs=False)):
        for l in ls:
            if l.startswith("S "):
                _, v, name = l.split(" ", 2); c.saw(name, int(v))
                if name in ("cycles compared", "failing system calls") or name.startswith("rounds of"): c.ev(int(v))
            elif l.startswith("K "): c.state(l[2:])
        c.sample("%s %s: %s" % (job[0], job[2], [l for l in ls if l[:2] == "S "][:5]))
        for key, text in bad[:3]: c.violation("%s:%s" % (key, job[2]), text)
