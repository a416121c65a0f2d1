"""D04: the brute-force search recovers the solution."""
import itertools

from . import fitlib

ID = "D04"
LEVEL = "model_checking"
RULE = (
    "every subset of the intruders (lines that are no peak, peaks that are no "
    "line, true lines that are missing) x degree x order of the inputs x kind "
    "of Hough transform, each solved from end to end with the exhaustive "
    "search; state = problem."
)
BOUNDS = "degree 1-3, <= 2 missing lines, 3 extra lines, 2 extra peaks"
ASSUMPTIONS = ["at least degree + 2 true pairs are left and the intruders do "
               "not form a better solution"]

BASE = {
    1: ([4000.0, 10.0], [10, 25, 47, 62, 81], [4131.0, 4480.0, 4555.5],
        [35.0, 73.3], 10.0, 10.0),
    2: ([4000.0, 9.0, 0.01], [8, 20, 37, 55, 71, 90],
        [4195.0, 4530.0, 4790.7], [44.0, 80.6], 20.0, 25.0),
    3: ([4000.0, 9.0, 0.01, 5e-5], [5, 20, 37, 55, 71, 82, 90],
        [4195.0, 4620.0], [64.0], 30.0, 50.0),
    # decreasing weights: a gentle slope, and a large offset
    11: ([120.0, 0.37], [3, 20, 40, 77, 96], [121.9, 140.0, 150.3],
         [60.0], 2.0, 3.0),
}


def variants(deg):
    coeff, peaks, decoys, extra, lin, ctol = BASE[deg]
    maxmiss = 1 if deg == 3 else 2
    out = []
    for d in subsets(decoys, len(decoys)):
        for e in subsets(extra, len(extra)):
            for m in subsets(peaks, maxmiss):
                if len(peaks) - len(m) >= len(coeff) + 1:
                    out.append((d, e, m))
    return out


def subsets(s, n):
    for k in range(n + 1):
        for c in itertools.combinations(s, k):
            yield list(c)


def items(tier, seed):
    its = []
    for deg in BASE:
        v = variants(deg)
        for i in range(len(v)):
            if tier == "quick" and (len(v[i][2]) > 1 and (i + deg) % 4):
                continue
            if tier == "quick" and deg == 3 and i % 3:
                continue
            its.append(dict(deg=deg, variant=i))
    return its


def run(item, ctx):
    deg = item["deg"]
    coeff, peaks, decoys, extra, lin, ctol = BASE[deg]
    d, e, m = variants(deg)[item["variant"]]
    small = deg == 11
    pb = fitlib.Problem(
        coeff, peaks, extra_peaks=e, missing=m, decoys=d, ctol=ctol,
        hough=dict(linearity_tolerance=lin,
                   range_tolerance=1.0 if small else 20.0),
        ransac=dict(ransac_tolerance=0.05 if small else 1.0,
                    top_n_candidate=2,
                    # the truth has to have the smallest error, the density
                    # of the intruders does not count then
                    hough_weight=0.0 if e or m else 1.0),
        fit=dict(brute_force=True))
    results = []
    for order, hough in (("up", False), ("down", False), ("up", True)):
        if hough and len(coeff) == 2:
            continue  # the points of the transform coincide
        case = dict(item, decoys=d, extra=e, missing=m, order=order,
                    brute_hough=hough)

        def go():
            import numpy as np

            q = pb
            if order == "down":
                q = fitlib.Problem.__new__(fitlib.Problem)
                q.__dict__.update(pb.__dict__)
                q.peaks = pb.peaks[::-1]
                q.lines = pb.lines[::-1]
            c = fitlib.calibrator(q)
            c.do_hough_transform(brute_force=hough)
            np.random.seed(11)
            return fitlib.fit(c, q), c

        ctx.count("transitions", 3)
        ctx.count("traces_validated_against_impl")
        ctx.state(case)
        ok, r = ctx.guard(case, go)
        if not ok:
            continue
        r, c = r
        s = fitlib.sound(r, pb, c)
        if s:
            ctx.violation(s, case)
        elif not contains(r, pb):
            ctx.violation("result %s, expected %s" % (
                fitlib.plain(r), sorted(pb.truth.items())), case)
        results.append(fitlib.plain(r))
        if ctx.stop:
            return
    ctx.sample(dict(item=item, result=results[:1]))


def contains(r, pb):
    """The true pairs are matched, on the true curve."""
    if isinstance(r, str):
        return False
    got = {float(p): float(w) for p, w in zip(r[1], r[2])}
    tol = pb.ransac["ransac_tolerance"]
    return all(
        p in got and abs(got[p] - w) < 1e-6
        and abs(fitlib.poly(list(map(float, r[0])), p) - w) < tol
        for p, w in pb.truth.items())
