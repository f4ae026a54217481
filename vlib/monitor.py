"""Run context, verdicts, evidence, replay, step budget."""
import collections
import hashlib
import json
import os
import resource
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")


# Raised by the monitors' own code these mean that a value the library returned lacks the attribute, entry, type or range it must
# have: on values of the right shape no monitor raises them.
SHAPE = (AttributeError, TypeError, LookupError, ValueError, ArithmeticError, struct.error, StopIteration, AssertionError,
         NotImplementedError, RecursionError, RuntimeError)


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class BudgetExceeded(BaseException):
    pass


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counters = collections.Counter()
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.case = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ok(self, n=1):
        """n oracle evaluations agreed."""
        self.evaluations += n

    def cover(self, name, n=1):
        self.counters[name] += n

    def distinct(self, *key):
        self.keys.add(hashlib.blake2b(repr(key).encode("utf-8", "backslashreplace"), digest_size=8).digest())

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def fail(self, msg, **facts):
        raise Violation(msg + ("" if not facts else " | " + ", ".join("%s=%s" % (k, short(v)) for k, v in facts.items())))

    def eq(self, what, got, want, **facts):
        self.evaluations += 1
        if not same(got, want):
            self.fail("%s: got %s, expected %s" % (what, short(got), short(want)), **facts)

    def true(self, what, cond, **facts):
        self.evaluations += 1
        if not cond:
            self.fail(what, **facts)

    def raises(self, what, exc, fn, *a, **k):
        """fn must raise exactly a subclass of exc."""
        self.evaluations += 1
        try:
            v = fn(*a, **k)
        except exc as e:
            return e
        except Exception as e:
            self.fail("%s: raised %r instead of %s" % (what, e, exc))
        self.fail("%s: returned %s instead of raising" % (what, short(v)))


def short(v, n=300):
    try:
        s = repr(v)
    except Exception as e:
        s = "<%s whose repr raises %r>" % (type(v).__name__, e)
    s = s.encode("ascii", "backslashreplace").decode()
    return s if len(s) <= n else s[:n // 2] + "...<%d>..." % len(s) + s[-n // 2:]


def same(a, b):
    """Equality that does not confuse bool/int/str/bytes/list, and ignores int and dict subclasses."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, int) and isinstance(b, int):
        return int(a) == int(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return same(list(a.items()), list(b.items()))
    if a is None or b is None:
        return a is b
    return type(a) == type(b) and a == b


# ------------------------------------------------------------------ step budget
_TOOL = 4


class StepBudget(object):
    """Counts calls, loop back-edges and branches executed in the code under test and stops it at the budget."""

    def __init__(self, budget, prefix=None):
        self.budget = budget
        self.prefix = prefix or os.path.join(REPO, "procmon_parser")
        self.steps = 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(_TOOL, "verif-steps")
        E = m.events

        def start(code, off):
            if not code.co_filename.startswith(self.prefix):
                return m.DISABLE
            self.tick()

        def jump(code, off, dest):
            if not code.co_filename.startswith(self.prefix):
                return m.DISABLE
            self.tick()

        m.register_callback(_TOOL, E.PY_START, start)
        m.register_callback(_TOOL, E.JUMP, jump)
        m.register_callback(_TOOL, E.BRANCH, jump)
        m.set_events(_TOOL, E.PY_START | E.JUMP | E.BRANCH)
        m.restart_events()
        return self

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise BudgetExceeded("more than %d steps" % self.budget)

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(_TOOL, 0)
        for e in (m.events.PY_START, m.events.JUMP, m.events.BRANCH):
            m.register_callback(_TOOL, e, None)
        m.free_tool_id(_TOOL)


# ------------------------------------------------------------------ registry and runner
CHECKS = {}


class Check(object):
    def __init__(self, prop, fn, quick, thorough, rule, require, assumptions, alarm, mem):
        self.prop, self.fn, self.quick, self.thorough = prop, fn, quick, thorough
        self.rule, self.require, self.assumptions, self.alarm, self.mem = rule, require, assumptions, alarm, mem


def check(prop, quick, thorough, rule, require=(), assumptions=(), alarm=60, mem=3):
    def deco(fn):
        CHECKS[prop] = Check(prop, fn, quick, thorough, rule, require, list(assumptions), alarm, mem)
        return fn
    return deco


def in_repo(tb):
    pre = os.path.join(REPO, "procmon_parser")
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pre):
            return True
        tb = tb.tb_next
    return False


def in_generators(tb):
    while tb is not None:
        c = tb.tb_frame.f_code
        if os.path.basename(c.co_filename) in ("evgen.py", "rng.py") or (os.path.basename(c.co_filename) == "pml.py" and c.co_name == "write"):
            return True
        tb = tb.tb_next
    return False


def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(chk, ctx, i):
    """-> None, ('violation', msg) or ('error', msg)"""
    from vlib.rng import R

    def once():
        ctx.case = i
        r = R.derive("verif", ctx.seed, chk.prop, i)
        try:
            chk.fn(ctx, i, r)
        except Violation as v:
            return "violation", str(v)
        except CaseTimeout:
            raise
        except BudgetExceeded:
            raise
        except Exception as e:
            tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
            if in_repo(e.__traceback__) or isinstance(e, MemoryError):
                return "violation", "the library raised on an input it must handle: %r\n%s" % (e, tb)
            if isinstance(e, SHAPE) and not in_generators(e.__traceback__):
                return "violation", "what the library returned does not have the shape it must have: %r\n%s" % (e, tb)
            return "error", "harness error in case %s: %r\n%s" % (i, e, tb)
        return None

    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(chk.alarm)
    try:
        return once()
    except CaseTimeout:
        pass
    finally:
        signal.alarm(0)
    # The watchdog fired: decide by steps, not by time.
    signal.alarm(300)
    try:
        with StepBudget(60000000) as b:
            return once()
    except BudgetExceeded as e:
        return "violation", "does not terminate within the step budget: %s" % e
    except CaseTimeout:
        return "error", "case %s: watchdog expired twice, %d steps" % (i, b.steps)
    finally:
        signal.alarm(0)


def run_slice(chk, tier, seed, ids):
    import warnings
    warnings.simplefilter("ignore")
    ctx = Ctx(chk.prop, tier, seed)
    bad = None
    for i in ids:
        res = run_case(chk, ctx, i)
        if res:
            bad = (i,) + res
            break
    return {"counters": ctx.counters, "evaluations": ctx.evaluations, "keys": ctx.keys,
            "samples": ctx.samples, "bad": bad, "cases": len(ids)}


def _worker(args):
    prop, tier, seed, ids = args
    return run_slice(CHECKS[prop], tier, seed, ids)


def limit_memory(gb):
    if gb:
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * (1 << 30)), int(gb * (1 << 30))))


def run_check(prop, tier, seed, procs=None):
    chk = CHECKS[prop]
    t0 = time.time()
    n = chk.thorough if tier == "thorough" else chk.quick
    n = n() if callable(n) else n
    procs = procs or int(os.environ.get("VERIF_PROCS", "8"))
    procs = max(1, min(procs, n, os.cpu_count() or 1))
    limit_memory(chk.mem)
    chunks = max(procs, min(n, procs * 8))
    slices = [list(range(k, n, chunks)) for k in range(chunks)]
    parts = []
    if procs == 1:
        for s in slices:
            parts.append(run_slice(chk, tier, seed, s))
            if parts[-1]["bad"]:
                break
    else:
        import multiprocessing
        from concurrent.futures import ProcessPoolExecutor, as_completed
        ex = ProcessPoolExecutor(procs, mp_context=multiprocessing.get_context("fork"))
        futs = [ex.submit(_worker, (prop, tier, seed, s)) for s in slices]
        try:
            for f in as_completed(futs, timeout=800 if tier != "thorough" else 6 * 3600):
                parts.append(f.result())
                if parts[-1]["bad"]:
                    break
        except Exception as e:   # a worker was ended, or the whole check ran out of time
            parts.append({"counters": {}, "keys": set(), "samples": [], "evaluations": 0, "cases": 0,
                          "bad": (-1, "error", "workers: %r" % e)})
        finally:
            for p in list(ex._processes.values()):
                p.kill()
            ex.shutdown(wait=False, cancel_futures=True)
    counters, keys, samples, ev, cases = collections.Counter(), set(), [], 0, 0
    bad = []
    for p in parts:
        for k, v in p["counters"].items():
            counters[k] = max(counters[k], v) if k.startswith("most ") else counters[k] + v
        keys |= p["keys"]
        samples += p["samples"][:1]
        ev += p["evaluations"]
        cases += p["cases"]
        if p["bad"]:
            bad.append(p["bad"])
    viol = sorted(b for b in bad if b[1] == "violation")
    errs = sorted(b for b in bad if b[1] == "error")
    missing = [] if bad else [c for c in chk.require if not any(counters[k] for k in ([c] if isinstance(c, str) else c))]
    known = findings(prop)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(keys), "rule": chk.rule,
                     "samples": (samples or [{"cases": cases}])[:4], "cases": cases,
                     "observed": dict(sorted(counters.items()))},
        "assumptions": chk.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, default=short, sort_keys=True)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        i, _, msg = viol[0]
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%s-%s.json" % (prop, tier, seed, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "case": i, "message": msg}, f, indent=1)
        print(msg.encode("ascii", "backslashreplace").decode())
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs:
        print("INCONCLUSIVE property=%s %s" % (prop, errs[0][2].encode("ascii", "backslashreplace").decode()))
        return 3
    if missing:
        print("INCONCLUSIVE property=%s never observed: %s" % (prop, missing))
        return 3
    print("held property=%s tier=%s seed=%s cases=%d evaluations=%d distinct=%d wall=%.1fs"
          % (prop, tier, seed, cases, ev, len(keys), time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    chk = CHECKS[d["property"]]
    limit_memory(chk.mem)
    ctx = Ctx(chk.prop, d["tier"], d["seed"])
    import warnings
    warnings.simplefilter("ignore")
    res = run_case(chk, ctx, d["case"])
    if res is None:
        print("held property=%s case=%s evaluations=%d" % (chk.prop, d["case"], ctx.evaluations))
        return 0
    print(res[1].encode("ascii", "backslashreplace").decode())
    if res[0] == "violation":
        print("VIOLATION property=%s replay=%s" % (chk.prop, path))
        return 1
    return 3


def findings(prop):
    """Entries of known_findings.txt of the form 'known: property=<id> <what>' (fixed entries suppress nothing)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                out.append(line.split(" ", 2)[2].strip())
    return out


def fields(v):
    """The attributes an object holds, whether it keeps them in a dictionary or in slots."""
    names = list(getattr(v, "__dict__", {}))
    for k in type(v).__mro__:
        slots = getattr(k, "__slots__", ())
        names += [n for n in ([slots] if isinstance(slots, str) else slots)
                  if n not in ("__dict__", "__weakref__") and n not in names and hasattr(v, n)]
    return {n: getattr(v, n) for n in names}
