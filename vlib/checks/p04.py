"""P04: decoding alone in a fresh process against decoding interleaved with other work in one process."""
import os
from vlib import build, streams
from vlib.common import pmap, run

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: digests of every picture and state, decoded alone in a fresh process and interleaved with copies, hostile frames, held pictures and poisoned buffers"
NOTE = "oracle: the run of the same stream alone in its own process; held pictures and idle copies are re-digested"
RULE = ("a case is one decode step inside a random schedule of several decoders (copied, assigned, dropped), held pictures, hostile frames and buffer poisoning; distinct by "
        "(state before, frame); it must give what the same step gave alone in a fresh process with other heap contents")

def solo(job):
    exe, m, perturb = job
    r, bad = streams.lines(run([exe, "run", m.path], env={"MALLOC_PERTURB_": str(perturb)}), "alone " + os.path.basename(m.path))
    return {int(l.split()[1]): tuple(l.split()[2:]) for l in r if l.startswith("F ")}, bad

def group(job):
    exe, work, seed, size, nstreams, nsched, steps = job
    ms = [streams.make(os.path.join(work, "g%d_%d.ivf" % (seed, k)), seed + k, size) for k in range(nstreams)]
    bad, n, distinct, stats = [], 0, set(), {}
    exp = []
    for k, m in enumerate(ms):
        a, b1 = solo((exe, m, 0)); b, b2 = solo((exe, m, 0x5a + k))
        bad += b1 + b2
        if a != b: bad.append(("process", "%s: two processes decode the same stream differently" % m.path))
        n += len(a)
        exp.append(a)
    if not bad:
        for s in range(nsched):
            r, b = streams.lines(run([exe, "mix", seed + s, steps] + [m.path for m in ms], env={"MALLOC_PERTURB_": str((37 * s) % 256)}), "schedule %d" % (seed + s))
            bad += b
            for l in r:
                f = l.split()
                if f[0] == "X":
                    k, i = int(f[1]), int(f[2])
                    e = exp[k][i]
                    n += 1; distinct.add((k, i))
                    g = tuple(f[3:])
                    if f[4] == "hidden": ok = (e[0] == "0" == g[0] and e[2:] == g[2:])
                    else: ok = e == g
                    if not ok: bad.append(("interleaved", "schedule %d: frame %d of %s decodes to %s, alone to %s" % (seed + s, i, ms[k].path, g, e)))
                elif f[0] == "STAT":
                    for x in f[1:]:
                        a, b = x.split("="); stats[a] = stats.get(a, 0) + int(b)
    # inter frames first, on a decoder made after the buffers were used
    m = streams.make(os.path.join(work, "g%d_f.ivf" % seed), seed + 77, size, 7, drop_first=True)
    outs = []
    for p in (0, 0xa7):
        r, b = streams.lines(run([exe, "fresh", seed + p, m.path], env={"MALLOC_PERTURB_": str(p)}), "fresh")
        bad += b
        outs.append([l for l in r if l[0] in "RF"])
    if not bad:
        rounds = {}
        for o in outs:
            for l in o:
                f = l.split()
                key = "FRESH" if f[0] == "FRESH" else f[2]
                n += 1
                if rounds.setdefault(key, f[3:] if f[0] == "R" else f[1:]) != (f[3:] if f[0] == "R" else f[1:]):
                    bad.append(("fresh-history", "%s: frame %s on a new decoder depends on earlier work" % (m.path, key))); break
    keep = [x.path for x in ms] + [m.path]
    if not bad:
        for x in keep: os.unlink(x)
    return bad, n, {(seed,) + x for x in distinct}, stats, "%dx%d, %d streams, %s" % (ms[0].w, ms[0].h, nstreams, stats), keep

def check(c):
    ex = build.build("opt", ["h:state"])["h:state"]
    g = c.rng("groups")
    sizes = [(48, 32), (33, 47), (64, 64), (16, 16), (80, 17), (1, 1), (97, 41)]
    jobs = [(ex, c.work, g.getrandbits(40), sizes[i % len(sizes)], g.randrange(2, 7), c.n(3, 6), c.n(500, 1500)) for i in range(c.n(260, 2500))]
    jobs += [(ex, c.work, g.getrandbits(40), (416, 240), 3, 1, 60) for _ in range(c.n(2, 20))]
    for job, (bad, n, distinct, stats, sample, keep) in zip(jobs, pmap(group, jobs)):
        c.ev(n)
        for d in distinct: c.state(d)
        for k, v in stats.items(): c.saw(k, v)
        c.sample(sample)
        for key, text in bad[:3]: c.violation("%s:seed%d" % (key, job[2]), text, keep)
