"""runs harness/hostile.cc in its three roles: under ASan+UBSan, twice in the optimised build with
differently poisoned heaps, and under valgrind; collects outcomes and failing inputs"""
import os, shutil
from vlib import streams
from vlib.common import run, HarnessError, pmap

ENV = {"ASAN_OPTIONS": "exitcode=77:allocator_may_return_null=0:detect_leaks=0:max_allocation_size_mb=200:handle_abort=1:hard_rss_limit_mb=3000:malloc_context_size=8"}

def one(job):
    """a job: (mode, exe, kind, seed, count, per, dir, streams)"""
    mode, exe, kind, seed, count, per, d, ss = job
    os.makedirs(d, exist_ok=True)
    cmd, env = [exe, kind, seed, count, per, d] + ss, dict(ENV)
    if mode.startswith("perturb"): env["MALLOC_PERTURB_"] = mode[7:]
    if mode == "valgrind":
        cmd = ["valgrind", "-q", "--error-exitcode=79", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--track-origins=no", "--trace-children=yes"] + cmd
    r = run(cmd, timeout=400, env=env)
    ls, bad = streams.lines(r, "%s %s seed %s" % (mode, kind, seed))
    n, dg = {}, []
    for l in ls:
        f = l.split()
        if f[0] == "N": n[f[1]] = int(f[2])
        elif f[0] == "D": dg.append(f[2])
    files = [os.path.join(d, x) for x in os.listdir(d) if x.startswith("bad")] if bad else []
    return bad, n, dg, files

def campaign(c, plan):
    """plan: list of (tag, mode, exe, kind, seed, count, per, streams)"""
    jobs = [(mode, exe, kind, seed, count, per, os.path.join(c.work, "%s-%s-%s" % (mode, kind, tag)), ss) for tag, mode, exe, kind, seed, count, per, ss in plan]
    res = pmap(one, jobs, procs=False)
    pert = {}
    for job, (bad, n, dg, files) in zip(jobs, res):
        mode, exe, kind, seed, count, per = job[:6]
        c.ev(len(dg) * per); c.saw("%s: batches run, %s" % (mode.rstrip("0123456789"), kind), len(dg))
        for k, v in n.items(): c.saw(k, v)
        for x in dg: c.state(x)
        for key, text in bad: c.violation("%s:%s:%s" % (mode, key, seed), text, files)
        if mode.startswith("perturb"):
            o = pert.setdefault((kind, seed), (mode, dg, job))
            if o[0] != mode and o[1] != dg and not bad:
                i = next((i for i, (a, b) in enumerate(zip(dg, o[1])) if a != b), -1)
                c.violation("uninitialised:%s:%s" % (kind, seed), "%s: batch %d of seed %s ends differently when fresh heap memory holds other bytes (MALLOC_PERTURB_): "
                            "uninitialised memory is used" % (kind, i, seed))
            elif o[0] != mode: c.saw("batches equal under two heap poisons", len(dg))
