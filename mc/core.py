"""
Driver shared by all the checks: bootstraps the package from /repo's working
tree, runs the bounded-exhaustive exploration in parallel, collects the
violations and rewrites the evidence file.

Each check is a module of this package with

    ID, LEVEL            property and evidence level
    RULE                 how the cases are made (exploration levels)
    ASSUMPTIONS          list of strings
    items(tier, seed)    -> list of JSON-able work items (finite, complete)
    run(item, ctx)       explores one item completely

A process ends with 0 or 1 only.
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RASCAL_REPO", "/repo")

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"


class Hang(BaseException):
    """The watchdog of a single execution went off."""


class Violation(Exception):
    """Raised by a monitor."""


def bootstrap():
    """Import rascal from the working tree, never from a stale byte code."""
    import warnings

    warnings.simplefilter("ignore")
    import logging

    import numpy  # noqa: F401  (byte code of the libraries can be cached)
    import scipy.optimize  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.spatial  # noqa: F401
    import matplotlib

    matplotlib.use("Agg")
    import tqdm  # noqa: F401

    from . import rng

    rng.install()

    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch(), "pyc")
    sys.path.insert(0, os.path.join(REPO, "src"))
    for m in [m for m in sys.modules if m.split(".")[0] == "rascal"]:
        del sys.modules[m]
    import rascal

    here = os.path.realpath(rascal.__file__)
    assert here.startswith(os.path.realpath(REPO) + "/"), here
    logging.disable(logging.CRITICAL)
    numpy.seterr(all="ignore")
    return rascal


_SCRATCH = None


def scratch():
    """Directory of this run, removed at its end."""
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="rascal_mc_")
    return _SCRATCH


class Ctx:
    """Collects what a worker covered."""

    MAX_VIOL = 5
    MAX_SAMPLES = 3

    def __init__(self, item, limit=60.0):
        self.item = item
        self.limit = limit
        self.counts = {}
        self.keys = set()
        self.states = set()
        self.samples = []
        self.viol = []
        self.found = {}
        self.hangs = 0

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def key(self, obj):
        """A distinct non-trivial case."""
        self.keys.add(digest(obj))

    def state(self, obj):
        """A distinct state of the explored system; True if it is new."""
        d = digest(obj)
        new = d not in self.states
        self.states.add(d)
        return new

    def sample(self, obj):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(jsonable(obj))

    def violation(self, msg, case=None, key=None):
        """key identifies a finding that can be listed as known."""
        self.count("violating")
        if key is not None:
            self.found.setdefault(key, (msg, jsonable(case)))
        elif len(self.viol) < self.MAX_VIOL:
            self.viol.append((str(msg)[:2000], jsonable(case)))

    @property
    def stop(self):
        """Nothing to be learnt from going on with this item."""
        return len(self.viol) >= self.MAX_VIOL or self.hangs >= 2

    def guard(self, case, fn, *args, **kwargs):
        """
        Run one execution of the code under test. A hang and an exception
        that is not declared by the check are violations.
        """
        try:
            return True, timed(self.limit, fn, *args, **kwargs)
        except Hang:
            self.hangs += 1
            self.violation("does not terminate within the horizon", case)
        except Violation as e:
            self.violation(str(e), case)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-4:]
            where = " < ".join(
                "%s:%d" % (os.path.basename(f.filename), f.lineno)
                for f in reversed(tb)
            )
            self.violation(
                "unexpected %s: %s [%s]" % (type(e).__name__, e, where), case
            )
        return False, None


def timed(limit, fn, *args, **kwargs):
    def ring(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(*args, **kwargs)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float):
        return o if o == o and abs(o) != float("inf") else repr(o)
    if o is None or isinstance(o, (str, int, bool)):
        return o
    return repr(o)


def digest(o):
    s = o if isinstance(o, str) else json.dumps(jsonable(o), sort_keys=True)
    return hashlib.md5(s.encode()).hexdigest()[:16]


def known_findings(prop):
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith("finding: "):
                w = line.split(None, 3)
                if w[1] == "property=" + prop:
                    assert w[2].startswith("key=")
                    out[w[2][4:]] = w[3].strip()
    return out


_MODULE = None


def _init_worker(name):
    global _MODULE
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if _MODULE is None:
        _MODULE = importlib.import_module("mc." + name)


def _work(item):
    ctx = Ctx(item, getattr(_MODULE, "LIMIT", 60.0))
    t = time.time()
    try:
        _MODULE.run(item, ctx)
    except Hang:
        ctx.violation("does not terminate within the horizon", item)
    except BaseException as e:
        ctx.violation(
            "unexpected %s while exploring: %s"
            % (type(e).__name__, traceback.format_exc()[-1500:]),
            item,
        )
    return dict(
        item=item,
        counts=ctx.counts,
        keys=ctx.keys,
        states=ctx.states,
        samples=ctx.samples,
        viol=ctx.viol,
        found=ctx.found,
        wall=time.time() - t,
    )


def main(name, argv):
    global _MODULE
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = name.upper()
    lines, nviol, results = [], 0, []
    level, err = "other", None
    try:
        try:
            bootstrap()
            _MODULE = importlib.import_module("mc." + name.lower())
        except BaseException:
            # the tree cannot even be imported
            err = traceback.format_exc()
            raise
        level = _MODULE.LEVEL
        if len(argv) > 1 and argv[0] == "--replay":
            with open(argv[1]) as f:
                todo = [json.load(f)["item"]]
        else:
            todo = list(_MODULE.items(tier, seed))
        results = explore(name.lower(), todo, t0, tier)
    except BaseException:
        err = traceback.format_exc()

    found, viol = {}, []
    for r in results:
        for k, v in r["found"].items():
            found.setdefault(k, (r["item"],) + tuple(v))
        for msg, case in r["viol"]:
            viol.append((r["item"], msg, case))
    if err is not None:
        viol.append((None, "the exploration failed: " + err[-2000:], None))

    try:
        known = known_findings(prop)
    except Exception:
        known = {}
    for k, (item, msg, case) in sorted(found.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
        else:
            viol.append((item, "[%s] %s" % (k, msg), case))

    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for item, msg, case in viol[:5]:
        path = os.path.join(
            rdir, "%s-%s.json" % (prop, digest([item, msg, case]))
        )
        with open(path, "w") as f:
            json.dump(
                dict(property=prop, item=item, message=msg, case=case),
                f,
                indent=1,
            )
        print("%s: %s" % (prop, msg[:1500]))
        print("   case: %s" % json.dumps(case)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if len(viol) > 5:
        print("... and %d more" % (len(viol) - 5))
    nviol = len(viol)

    write_evidence(prop, tier, seed, level, results, nviol, t0)
    if _SCRATCH:
        shutil.rmtree(_SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(1 if nviol else 0)


def explore(name, todo, t0, tier):
    import concurrent.futures as cf
    import multiprocessing as mp

    budget = float(
        os.environ.get("MC_BUDGET", 780 if tier == "quick" else 6 * 3600)
    )
    n = int(os.environ.get("MC_JOBS", min(8, os.cpu_count() or 1)))
    results = []
    if n <= 1 or len(todo) <= 1:
        return [_work(i) for i in todo]
    ex = cf.ProcessPoolExecutor(
        n, mp_context=mp.get_context("fork"), initializer=_init_worker,
        initargs=(name,),
    )
    futs = {ex.submit(_work, i): i for i in todo}
    try:
        for f in cf.as_completed(futs, timeout=budget - (time.time() - t0)):
            try:
                r = f.result()
            except Exception as e:
                r = _work_failed(futs[f], e)
            results.append(r)
            if sum(len(r["viol"]) for r in results) >= 25:
                break
    except cf.TimeoutError:
        results.append(
            _work_failed(None, "the exploration did not end in time")
        )
    for p in list(getattr(ex, "_processes", {}).values()):
        try:
            p.kill()
        except Exception:
            pass
    ex.shutdown(wait=False, cancel_futures=True)
    return results


def _work_failed(item, e):
    return dict(
        item=item, counts={}, keys=set(), states=set(), samples=[],
        viol=[("worker failed: %s" % e, item)], found={}, wall=0,
    )


def write_evidence(prop, tier, seed, level, results, nviol, t0):
    counts, keys, states, samples = {}, set(), set(), []
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        keys |= r["keys"]
        states |= r["states"]
    for r in sorted(results, key=lambda r: json.dumps(jsonable(r["item"]))):
        samples += r["samples"]
        if len(samples) >= 6:
            break
    m = _MODULE
    cov = dict(counts)
    cov.pop("violating", None)
    cov["work_items"] = len(results)
    cov["samples"] = samples[:6]
    cov["rule"] = getattr(m, "RULE", "")
    cov["bounds"] = getattr(m, "BOUNDS", "")
    if level == "model_checking":
        cov["states"] = len(states)
        cov.setdefault("transitions", 0)
        cov.setdefault("traces_validated_against_impl", 0)
    else:
        cov.setdefault("evaluations", 0)
        cov["distinct_nontrivial"] = len(keys)
    cov["exhaustive"] = (
        bool(getattr(m, "EXHAUSTIVE", True))
        and nviol == 0
        and not cov.get("trees_cut")
    )
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=level,
        coverage=cov,
        assumptions=list(getattr(m, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=nviol,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    print(
        "%s %s: %s, %.1f s, %d violation(s)"
        % (
            prop,
            tier,
            ", ".join(
                "%s=%s" % (k, v)
                for k, v in sorted(cov.items())
                if isinstance(v, int) and not isinstance(v, bool)
            ),
            ev["wall_s"],
            nviol,
        )
    )
