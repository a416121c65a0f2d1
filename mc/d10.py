"""D10: the result depends on the inputs and the seed, on nothing else."""
import itertools
import json
import logging
import os
import subprocess
import sys

from . import core, fitlib

ID = "D10"
LEVEL = "model_checking"
RULE = (
    "for each problem and seed, every combination of the settings that are "
    "not inputs of the calibration (progress bar, log level, plotting "
    "library, type of the arrays, way of adding the lines, order of the "
    "calls, explicit or implicit transform, other fits in the same process, "
    "hash seed of the interpreter) is run from a fresh Calibrator; states are "
    "the combinations and all their results have to be identical."
)
BOUNDS = "3 problems x 3 seeds x 432 combinations + 6 processes"
ASSUMPTIONS = ["numpy.random.seed or the seed of the Calibrator is set before "
               "the fit"]

NAMES = ["quad", "line_extra", "quad_noise"]
DIMS = [
    ("progress", [False, True]),
    ("library", ["matplotlib", "plotly"]),
    ("log", ["critical", "debug", "warning"]),
    ("spectrum", [False, True]),
    ("type", ["list", "array", "tuple"]),
    ("lines", ["once", "each", "deprecated"]),
    ("hough", [True, False]),
]


def items(tier, seed):
    its = []
    for n, s in itertools.product(NAMES, (0, 1, 1 + seed)):
        for lib, log in itertools.product(*[d[1] for d in DIMS[1:3]]):
            its.append(dict(kind="options", name=n, seed=s, library=lib,
                            log=log))
    for n in NAMES:
        its.append(dict(kind="process", name=n, seed=seed))
        its.append(dict(kind="order", name=n, seed=seed))
    return its


def solve(pb, seed, o, tries=4):
    import numpy as np
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    peaks = {"list": list, "array": np.array, "tuple": tuple}[o["type"]](
        pb.peaks)
    spec = None
    if o["spectrum"]:
        spec = np.arange(float(pb.num_pix))
    c = Calibrator(peaks=peaks, spectrum=spec)
    c.set_calibrator_properties(
        num_pix=pb.num_pix, plotting_library=o["library"], log_level=o["log"],
        logger_name="d10", seed=seed if o["spectrum"] else None)
    c.set_hough_properties(**pb.hough)
    c.set_ransac_properties(**pb.ransac)
    if o["lines"] == "deprecated":
        c.add_user_atlas(["X"] * len(pb.lines), list(pb.lines),
                         candidate_tolerance=pb.ctol)
    else:
        a = Atlas()
        if o["lines"] == "once":
            a.add_user_atlas(["X"] * len(pb.lines), list(pb.lines))
        else:
            for w in pb.lines:
                a.add_user_atlas("X", w)
        c.set_atlas(a, candidate_tolerance=pb.ctol)
    if o["hough"]:
        c.do_hough_transform()
    if not o["spectrum"]:
        np.random.seed(seed)
    return fitlib.plain(fitlib.fit(c, pb, max_tries=tries,
                                   progress=o["progress"]))


def default():
    return {k: v[0] for k, v in DIMS}


def run(item, ctx):
    import numpy as np

    pb = fitlib.PROBLEMS[item["name"]]
    # the messages go nowhere
    for name in ("d10", "Calibrator"):
        logging.getLogger(name).addHandler(logging.NullHandler())
    want = solve(pb, item["seed"], default())
    if item["kind"] == "process":
        return run_process(item, ctx, want)
    if item["kind"] == "order":
        return run_order(item, ctx, pb)
    err, sys.stderr = sys.stderr, open(os.devnull, "w")
    try:
        if item["log"] == "debug":
            logging.disable(logging.NOTSET)
        for combo in itertools.product(*[d[1] for d in DIMS]):
            o = dict(zip([d[0] for d in DIMS], combo))
            if o["library"] != item["library"] or o["log"] != item["log"]:
                continue
            case = dict(item, options=o)
            ctx.count("transitions", 2)
            ctx.count("traces_validated_against_impl")
            ctx.state(case)
            ok, r = ctx.guard(case, solve, pb, item["seed"], o)
            if ok and r != want:
                ctx.violation("result %s, expected %s" % (r, want), case)
            if ctx.stop:
                break
    finally:
        logging.disable(logging.CRITICAL)
        sys.stderr = err
    ctx.sample(dict(item=item, result=want))


def run_order(item, ctx, pb):
    """Two solvers in the same process, with their calls interleaved."""
    import numpy as np
    from rascal.calibrator import Calibrator

    other = fitlib.PROBLEMS["cubic" if item["name"] != "cubic" else "line"]

    class One:
        def __init__(self, q, seed):
            self.q, self.seed, self.out = q, seed, None

        def steps(self):
            yield lambda: setattr(self, "c", Calibrator(list(self.q.peaks)))
            yield lambda: self.c.set_calibrator_properties(
                num_pix=self.q.num_pix, log_level="critical")
            yield lambda: (self.c.set_hough_properties(**self.q.hough),
                           self.c.set_ransac_properties(**self.q.ransac))
            yield lambda: self.c.set_atlas(fitlib.atlas(self.q),
                                           candidate_tolerance=self.q.ctol)
            yield lambda: self.c.do_hough_transform()
            yield lambda: setattr(self, "out", fitlib.seeded_fit(
                self.c, self.q, self.seed))

    def go(schedule):
        sides = [One(pb, item["seed"]), One(other, item["seed"])]
        its = [list(s.steps()) for s in sides]
        for k in schedule:
            its[k].pop(0)()
        return [s.out for s in sides]

    alone = go([0] * 6 + [1] * 6)
    for pos in itertools.combinations(range(12), 6):
        sched = [0 if i in pos else 1 for i in range(12)]
        ctx.count("transitions", 12)
        ctx.count("traces_validated_against_impl")
        ctx.state(dict(item, schedule=sched))
        ok, r = ctx.guard(dict(item, schedule=sched), go, sched)
        if ok and r != alone:
            ctx.violation("results %s, expected %s" % (r, alone),
                          dict(item, schedule=sched))
        if ctx.stop:
            return


CHILD = """
import sys, json
sys.path.insert(0, %r)
from mc import core
core.REPO = %r
core._SCRATCH = %r
core.bootstrap()
from mc import d10, fitlib
pb = fitlib.PROBLEMS[%r]
print(json.dumps(d10.solve(pb, %d, d10.default())))
"""


def run_process(item, ctx, want):
    for hs in ("0", "1", "4242", "random"):
        case = dict(item, hashseed=hs)
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
        ctx.state(case)
        p = subprocess.run(
            [sys.executable, "-c", CHILD % (
                core.VERIF, core.REPO, core.scratch(), item["name"],
                item["seed"])],
            env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, universal_newlines=True, timeout=120)
        if p.returncode:
            ctx.violation("the fit fails in another process: %s"
                          % p.stderr[-500:], case)
            continue
        r = json.loads(p.stdout.strip().splitlines()[-1])
        if r != json.loads(json.dumps(want)):
            ctx.violation("result %s, expected %s" % (r, want), case)
