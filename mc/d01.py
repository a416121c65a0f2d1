"""D01: a result of fit() is consistent for every sequence of draws."""
from . import fitlib, rng

ID = "D01"
LEVEL = "model_checking"
RULE = (
    "stateless exploration of fit(): each random draw is a choice point and "
    "all its answers are enumerated depth first (a sample of k peaks: all the "
    "k-combinations), for each problem and setting; states are the prefixes "
    "of draws, and a monitor recomputes the whole result at each leaf."
)
BOUNDS = (
    "all the answers of the first two samples (degree 1) or the first sample "
    "and the start of the second (degree 2, 3), then fair answers; 5 problem "
    "families with 4-7 peaks and 6-8 lines, 14 settings"
)
ASSUMPTIONS = [
    "random draws are made with numpy.random.choice; other generators are "
    "seeded",
    "matches beyond the tolerance after the robust fit report the tolerance "
    "as their residual, as documented in the code",
]

SETTINGS = [
    {},
    dict(minimum_matches=4),
    dict(minimum_matches=5),
    dict(minimum_peak_utilisation=0.8),
    dict(minimum_peak_utilisation=1.0),
    dict(minimum_fit_error=0.05),
    dict(minimum_fit_error=0.3),
    dict(hough_weight=0.0),
    dict(top_n_candidate=1),
    dict(candidate_weighted=False),
    dict(ransac_tolerance=3.0),
    dict(ransac_tolerance=12.0, minimum_matches=4),
    dict(filter_close=True),
    dict(sample_size=4),
]
NAMES = ["line", "line_extra", "quad", "quad_extra", "quad_noise",
         "quad_missing", "cubic"]


def items(tier, seed):
    its = []
    for n in NAMES:
        pb = fitlib.PROBLEMS[n]
        k = len(pb.coeff)
        for s in range(len(SETTINGS)):
            for tries in (1, 2) if tier == "quick" else (1, 2, 3):
                if tier == "quick":
                    depth = (k + 1) * min(tries, 2 if k == 2 else 1)
                    limit = 60
                else:
                    depth = (k + 1) * min(tries, 3 if k == 2 else 2)
                    limit = 4000
                its.append(dict(kind="tree", name=n, setting=s, tries=tries,
                                depth=depth, limit=limit))
        for g in range(4):
            its.append(dict(kind="guess", name=n, guess=g,
                            depth=(k + 1), limit=40 if tier == "quick"
                            else 2000))
    its += [dict(kind="bad", name=b, depth=8, limit=80 if tier == "quick"
                 else 2000) for b in BAD]
    its += [dict(kind="twice", a=a, b=b) for a in range(len(TWICE))
            for b in range(len(TWICE))]
    return its


# families of intruders that fit all the peaks better than the truth, but with
# an intercept out of the range or a slope that changes its sign
P = [10, 25, 47, 81]
BAD = {
    "intercept": fitlib.Problem(
        [4000.0, 10.0], P, missing=[81], ctol=40.0,
        decoys=[4016.0 + 10.0 * p for p in P],
        hough=dict(range_tolerance=12.0, linearity_tolerance=30.0)),
    "intercept_low": fitlib.Problem(
        [4000.0, 10.0], P, missing=[10], ctol=40.0,
        decoys=[3984.0 + 10.0 * p for p in P],
        hough=dict(range_tolerance=12.0, linearity_tolerance=30.0)),
    "turning": fitlib.Problem(
        [4000.0, 1.0, 0.001], [10, 40, 70, 95], missing=[10], ctol=80.0,
        decoys=[4006.0 + 2.4 * p - 0.016 * p * p for p in (10, 40, 70, 95)],
        hough=dict(range_tolerance=12.0, linearity_tolerance=60.0,
                   min_wavelength=4000.0, max_wavelength=4100.0),
        ransac=dict(top_n_candidate=6, ransac_tolerance=0.5)),
}

# two fits in a row with the same Calibrator
TWICE = [
    dict(fit_deg=1), dict(fit_deg=2), dict(fit_deg=3),
    dict(fit_deg=2, candidate_tolerance=1e-6),
    dict(fit_deg=2, brute_force=True),
    dict(fit_deg=2, fit_coeff=[4000.0, 9.0, 0.01]),
    dict(fit_deg=2, fit_coeff=[7000.0, 1.0, 0.0]),
]


def visit(ctx, name, picks):
    for i in range(len(picks) + 1):
        ctx.state([name, picks[:i]])


def run(item, ctx):
    if item["kind"] == "twice":
        return run_twice(item, ctx)
    if item["kind"] == "bad":
        pb, ransac = BAD[item["name"]], {}
    else:
        pb = fitlib.PROBLEMS[item["name"]]
    baseline = None
    kw = {}
    if item["kind"] == "tree":
        ransac = SETTINGS[item["setting"]]
        kw["max_tries"] = item["tries"]
    elif item["kind"] == "guess":
        ransac = {}
        d = [0.0] * len(pb.coeff)
        g = item["guess"]
        d[0] = (0.0, 0.3, 4.0, 300.0)[g]
        baseline = [a + b for a, b in zip(pb.coeff, d)]
        kw["fit_coeff"] = list(baseline)
    tag = [item["name"], item.get("setting"), item.get("tries"),
           item.get("guess")]
    stats = {}
    it = fitlib.runs(pb, item["depth"], item["limit"], stats=stats,
                     over=dict(ransac=ransac), **kw)
    outcomes = set()
    while True:
        # one execution per step of the generator
        ok, nxt = ctx.guard(dict(item=item), next, it, None)
        if not ok or nxt is None:
            break
        picks, r, c, ctl, _ = nxt
        case = dict(item, picks=picks)
        ctx.count("transitions", len(ctl.points))
        ctx.count("traces_validated_against_impl")
        visit(ctx, tag, picks)
        deg = len(pb.coeff) - 1
        e = fitlib.sound(r, pb, c, fit_deg=deg, baseline=baseline)
        if e is None and not isinstance(r, str):
            e = settings(pb, c, ransac, r, baseline)
        if e is None and not isinstance(r, str) and item["kind"] == "bad":
            e = plausible(pb, c, r)
        if e:
            ctx.violation(e, case)
        outcomes.add(str(fitlib.plain(r))[:200])
        if ctx.stop:
            break
    ctx.count("trees_completed" if stats.get("complete") else "trees_cut")
    ctx.count("distinct_outcomes", len(outcomes))
    ctx.sample(dict(item=item, outcomes=len(outcomes)))


def settings(pb, c, ransac, r, baseline):
    """The limits asked for, independent of what the Calibrator holds."""
    if baseline is not None:
        return None
    n = len(r[1])
    m = ransac.get("minimum_matches")
    if m is not None and n < min(m, len(pb.peaks), len(pb.lines)):
        return "%d matches, %d are required" % (n, m)
    u = ransac.get("minimum_peak_utilisation", 0)
    if n < u * len(pb.peaks) - 1e-9:
        return "%d matches of %d peaks, %s required" % (n, len(pb.peaks), u)
    if float(r[3]) < ransac.get("minimum_fit_error", 0):
        return "rms %s, at least %s is required" % (
            r[3], ransac["minimum_fit_error"])
    return None


def plausible(pb, c, r):
    tol = c.ransac_tolerance
    coeff = list(map(float, r[0]))
    lo = pb.hough["min_wavelength"] - pb.hough["range_tolerance"]
    hi = pb.hough["min_wavelength"] + pb.hough["range_tolerance"]
    if not lo - 2 * tol <= coeff[0] <= hi + 2 * tol:
        return "intercept %s, out of %s-%s" % (coeff[0], lo, hi)
    w = [fitlib.poly(coeff, p) for p in pb.peaks]
    if any(b <= a for a, b in zip(w, w[1:])):
        return "the solution is not increasing: %s" % w
    return None


def run_twice(item, ctx):
    """The second result does not depend on what the first one left."""
    pb = fitlib.PROBLEMS["quad"]

    def go(which):
        import numpy as np

        c = fitlib.calibrator(pb)
        c.do_hough_transform()
        out = []
        for k in which:
            kw = dict(max_tries=4)
            kw.update(TWICE[k])
            np.random.seed(3)
            c.set_ransac_properties(sample_size=3)
            r = fitlib.fit(c, pb, **kw)
            out.append(fitlib.plain(r))
            g = TWICE[k].get("fit_coeff")
            e = fitlib.sound(r, pb, c, fit_deg=TWICE[k]["fit_deg"],
                             baseline=g)
            if e:
                ctx.violation(e, dict(item, second=len(out) > 1))
        return out

    ctx.count("transitions", 3)
    ctx.count("traces_validated_against_impl", 2)
    ctx.state([item["a"], item["b"]])
    ok, both = ctx.guard(item, go, [item["a"], item["b"]])
    ok2, alone = ctx.guard(item, go, [item["b"]])
    if ok and ok2 and both[1] != alone[0]:
        ctx.violation("the fit gives %s after another one, %s on its own"
                      % (both[1], alone[0]), item)
