"""Shared machinery of the checks: seeds, scratch space, violations, known findings, evidence."""
import json, mmap, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.json")
JOBS = max(2, min(8, os.cpu_count() or 2))

BROKEN = "(the machinery, not the code under test) "   # begins a problem that is no verdict
class HarnessError(Exception):
    """the machinery itself failed: no verdict"""

class Check:
    def __init__(self, pid, tier, level, technique_rule):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.level = level
        self.rule = technique_rule
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.assumptions = []
        self.violations = []; self.broken = []
        self.known_hit = {}
        self.replay_dir = os.path.join(EVID, "replay", pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        base = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build")), "work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        try: entries = json.load(open(KNOWN))["findings"]
        except FileNotFoundError: entries = []
        self.known = {e["key"]: e for e in entries if e["property"] == pid and e["status"] == "known"}

    # scale of the workload: n cases in the quick tier, k times as many in the thorough one
    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough if thorough is not None else quick * 10)

    def rng(self, *tag):
        return random.Random("%d|%s|%s" % (self.seed, self.pid, "|".join(map(str, tag))))

    def saw(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def state(self, s):
        """a distinct non-trivial situation a monitor observed"""
        self.distinct.add(s)

    def ev(self, n=1): self.evaluations += n

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(str(s)[:400])

    def violation(self, key, text, files=()):
        """key identifies the failing input / site; listed keys are known findings"""
        if BROKEN in text:                          # only matters if nothing else was found
            self.broken.append(text)
            return
        if key in self.known:
            self.known_hit.setdefault(key, text)
            return
        d = os.path.join(self.replay_dir, "%03d" % len(self.violations))
        if len(self.violations) < 20:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "what.txt"), "w") as f: f.write("%s\n%s\n" % (key, text))
            for x in files:
                try: shutil.copy(x, d)
                except OSError: pass
        self.violations.append((key, text, d))
        if len(self.violations) <= 5:
            sys.stderr.write("[%s] %s: %s\n" % (self.pid, key, text[:1500]))

    def known_ok(self, key):
        """a directed case for a known finding ran and behaved correctly"""
        self.saw("known-finding case passed: " + key)

    def finish(self):
        if self.broken and not self.violations: raise HarnessError(self.broken[0])
        if self.evaluations == 0 and not self.violations: raise HarnessError("nothing was evaluated")
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                                samples=self.samples or ["(none)"], observed=dict(sorted(self.counters.items()))),
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions,
                  violations=[dict(key=k, what=t[:500], replay=d) for k, t, d in self.violations[:20]],
                  known_findings=sorted(self.known_hit))
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, sort_keys=True)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, self.known[k]["what"]))
        if self.violations:
            for k, t, d in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.pid, d))
            return 1
        print("%s %s: held on %d evaluations, %d distinct situations, %.1fs" %
              (self.pid, self.tier, self.evaluations, len(self.distinct), time.time() - self.t0))
        return 0

    def cleanup(self): shutil.rmtree(self.work, ignore_errors=True)

ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_leaks=0:max_allocation_size_mb=4000:handle_abort=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
            "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4"}

class Result:
    def __init__(self, rc, out, err, timeout): self.rc, self.out, self.err, self.timeout = rc, out, err, timeout
    @property
    def text(self): return self.out.decode("utf8", "replace")
    @property
    def errtext(self): return self.err.decode("utf8", "replace")

_hung = mmap.mmap(-1, 1)                             # shared with worker processes: some command did not end even when given more time
_quick = [False]

def run(cmd, timeout=120, env=None, input=None, cwd=None, retry=True):
    """run a command; a time-out is retried once with a longer limit before it counts; after one that counted, others get less time,
    so that a check of a program that hangs still ends"""
    e = dict(os.environ); e.update(ASAN_ENV)
    if env: e.update(env)
    if _quick[0]: timeout = min(timeout, 200 if retry else 400)
    if _hung[0]: timeout, retry = min(timeout, 20), False
    p = subprocess.Popen([str(c) for c in cmd], stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(input, timeout=timeout)
        return Result(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, err = p.communicate()
        if retry: return run(cmd, timeout * 3, env, input, cwd, retry=False)
        _hung[0] = 1
        return Result(-9, out, err, True)

def pmap(fn, items, procs=True, jobs=JOBS, chunk=1):
    items = list(items)
    Ex = ProcessPoolExecutor if procs else ThreadPoolExecutor
    with Ex(jobs) as ex:
        return list(ex.map(fn, items, **(dict(chunksize=chunk) if procs else {})))

def main(registry):
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    fn, level, rule = registry[pid]
    _quick[0] = tier == "quick"
    c = None
    try:
        c = Check(pid, tier, level, rule)
        fn(c)
        rc = c.finish()
    except Exception:
        traceback.print_exc()
        rc = 3
        if c is not None and c.violations:      # what was seen before the machinery failed still stands
            try: rc = c.finish()
            except Exception: pass
    finally:
        if c is not None: c.cleanup()
    sys.stdout.flush()
    sys.exit(rc)
