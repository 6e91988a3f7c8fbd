"""P05: equality, hashes and tags of decoder states against component-wise digests."""
import os
from vlib import build, streams, video
from vlib.common import pmap, run

LEVEL = "exploration"
TECHNIQUE = "runtime monitor: component-wise digest of every state reached and of single-component mutants, compared with ==, hash and short hash across processes"
NOTE = "own digest over every field is the oracle for identity; one global table must be a bijection between digests and hashes"
RULE = ("a case is a pair of decoder states: the same content reached or stored differently (must match), or differing in exactly one component drawn at random (must not); "
        "distinct by state digest and kind of mutation")

def one(job):
    exe, work, seed, size, n = job
    m = streams.make(os.path.join(work, "h%d.ivf" % seed), seed, size, None, dict(segmentation=.8, lf_delta=.9) if seed % 2 else None)
    bad, kinds = [], {}
    r, b = streams.lines(run([exe, "mutate", seed, n, m.path]), "mutate"); bad += b
    for l in r:
        if l.startswith("KIND"): kinds[l.split()[1]] = int(l.split()[2])
    table = {}
    for p in ("0", "85"):
        r, b = streams.lines(run([exe, "run", m.path], env={"MALLOC_PERTURB_": p}), "run"); bad += b
        for l in r:
            f = l.split()
            if f[0] == "F" and table.setdefault(f[4], (f[5], f[6])) != (f[5], f[6]): bad.append(("process-hash", "the same state has different hashes in two processes: %s" % l))
    if not bad: os.unlink(m.path)
    return bad, kinds, table, m.path

def tags(job):
    """chunks tagged with the state they expect, through the tools"""
    dec, bundle, exe, work, seed = job
    d = os.path.join(work, "t%d" % seed); os.makedirs(d)
    m = streams.make(os.path.join(d, "s.ivf"), seed, (48, 48), 6, dict(key_again=.4, hidden=0))
    r, bad = streams.lines(run([exe, "save", m.path, d]), "save")
    frames = streams.split_ivf(open(m.path, "rb").read())
    n = 0
    st = [(int(f[1]), int(f[5]), f[3]) for f in (l.split() for l in r) if f[0] == "S"]
    for (i, tag, co) in st[:-1]:
        for j, (tag2, ok) in enumerate([(tag, True), (0, True)] + [(t, t == tag) for (_, t, _) in st] + [(tag ^ 1, False), (tag ^ 0x80000000, False)]):
            if tag2 == 0 and j != 1: continue
            rest = os.path.join(d, "r.ivf")
            streams.write_ivf(rest, m.w, m.h, frames[i + 1:], tag2)
            stf = os.path.join(d, "%d.st" % i)
            for what, r in (("vp8decode -s", run([dec, "-s", stf, rest])), ("xc-decode-bundle", run([bundle, stf], input=(rest + "\n").encode()))):
                n += 1
                if (r.rc == 0) != ok: bad.append(("tag", "%s: a chunk tagged %08x is %s by a decoder in state %08x: %s" % (what, tag2, "accepted" if r.rc == 0 else "refused", tag, r.errtext[-200:])))
    if not bad:
        import shutil; shutil.rmtree(d)
    return bad, n, m.path

def check(c):
    ex = build.build("opt", ["h:state", "vp8decode", "xc-decode-bundle"])
    g = c.rng("streams")
    sizes = [(33, 47), (16, 16), (1, 1), (48, 33), (64, 64), (90, 20)]
    jobs = [(ex["h:state"], c.work, g.getrandbits(40), sizes[i % len(sizes)], 60) for i in range(c.n(900, 5000))]
    byd, byh = {}, {}
    for job, (bad, kinds, table, path) in zip(jobs, pmap(one, jobs, chunk=2)):
        for k, v in kinds.items(): c.saw("mutation " + k, v); c.ev(v); c.state(("mutation", k))
        for dg, (h, mini) in table.items():
            c.ev(); c.state(dg); c.saw("states hashed in two processes")
            if byd.setdefault(dg, (h, mini)) != (h, mini): bad.append(("digest-hash", "one state, two hashes"))
            if byh.setdefault(h, dg) != dg: bad.append(("hash-digest", "two states, one hash %s" % h))
        for key, text in bad[:4]: c.violation("%s:seed%d" % (key, job[2]), text, [path])
    jobs = [(ex["vp8decode"], ex["xc-decode-bundle"], ex["h:state"], c.work, g.getrandbits(40)) for _ in range(c.n(60, 300))]
    for job, (bad, n, path) in zip(jobs, pmap(tags, jobs)):
        c.ev(n); c.saw("tagged chunks offered to the tools", n); c.state(("tags", job[4]))
        for key, text in bad[:3]: c.violation("%s:seed%d" % (key, job[4]), text, [path])
    c.sample("mutations: " + ", ".join(sorted(k for k in c.counters if k.startswith("mutation"))))
    c.sample("%d states, %d distinct hashes" % (len(byd), len(byh)))
