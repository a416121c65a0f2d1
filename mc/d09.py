"""D09: the solver considers the N most supported lines of each peak."""
import itertools
import math
import os

from . import core, fitlib

ID = "D09"
LEVEL = "model_checking"
RULE = (
    "every set of lines around 3 peaks x Hough space (corners and bins) x "
    "candidate tolerance x weighting x N: the candidates of fit() are "
    "compared with a reference that adds up the votes of all the lines of the "
    "Hough space; states are the distinct sets of candidates."
)
BOUNDS = "3-4 peaks, all the subsets of 8 lines of size 2-5, 4 Hough spaces, " \
         "3 tolerances, N = 1, 2, 3, 10"
ASSUMPTIONS = ["equal votes can be ranked in any order"]

PEAKS = [[10.0, 40.0, 80.0], [80.0, 10.0, 40.0], [5.0, 40.0, 41.0, 99.0]]
LINES = [4090.0, 4104.0, 4111.0, 4395.0, 4400.0, 4413.0, 4795.0, 4806.0]
SPACES = [
    (9.5, 10.5, 3985.0, 4015.0, 4, 4),
    (9.9, 10.3, 3990.0, 4010.0, 5, 4),
    (9.0, 11.0, 3980.0, 4006.0, 4, 6),
    (10.0, 10.1, 3999.0, 4001.0, 7, 4),
]
TOLS = [4.0, 15.0, 27.0]
NS = [1, 2, 3, 10]


def items(tier, seed):
    its = []
    kmax = 4 if tier == "quick" else 7
    for p in range(len(PEAKS)):
        for s in range(len(SPACES)):
            for k in range(2, kmax + 1):
                its.append(dict(kind="hough", peaks=p, space=s, k=k))
    its += [dict(kind="guess", peaks=p, k=k) for p in range(len(PEAKS))
            for k in range(2, kmax)]
    return its


def setup(peaks, space, lines, folder, **ransac):
    import numpy as np
    from rascal.houghtransform import HoughTransform

    pb = fitlib.Problem([4000.0, 10.0], [1.0])
    pb.peaks = list(peaks)
    pb.lines = list(lines)
    pb.hough.update(range_tolerance=8.0, linearity_tolerance=3.0)
    pb.ransac.update(sample_size=2, **ransac)
    c = fitlib.calibrator(pb)
    if space is not None:
        ht = HoughTransform()
        m0, m1, c0, c1, nx, ny = space
        ht.set_constraints(m0, m1, c0, c1)
        ht.hough_points = np.array([(m0, c0), (m1, c1), (m0, c0)])
        ht.bin_hough_points(nx, ny)
        p = os.path.join(folder, "ht")
        ht.save(p, "npy")
        c.load_hough_transform(p, "npy")
    return c, pb


def votes(peaks, lines, space, tol, weighted):
    m0, m1, c0, c1, nx, ny = space
    out, close = {}, False
    for i, j in itertools.product(range(nx), range(ny)):
        m = m0 + (m1 - m0) * (i + 0.5) / nx
        b = c0 + (c1 - c0) * (j + 0.5) / ny
        for p, w in itertools.product(peaks, lines):
            d = w - (m * p + b)
            if abs(abs(d) - tol) < 1e-6:
                close = True  # on the edge, rounding decides
            if abs(d) <= tol:
                v = math.exp(-0.5 * (d / (11.0 * 1.1775)) ** 2)
                out.setdefault(p, {}).setdefault(w, 0.0)
                out[p][w] += v if weighted else 1.0
    return out, close


def candidates(c):
    out = {}
    for p, w in zip(c.candidate_peak, c.candidate_arc):
        out.setdefault(float(p), []).append(float(w))
    return out


def solve(c, pb, **kw):
    r = fitlib.fit(c, pb, max_tries=0, **kw)
    return candidates(c)


def run(item, ctx):
    folder = os.path.join(core.scratch(), "d09_%d" % os.getpid())
    os.makedirs(folder, exist_ok=True)
    peaks = PEAKS[item["peaks"]]
    if item["kind"] == "guess":
        return run_guess(item, ctx, peaks)
    space = SPACES[item["space"]]
    for lines in itertools.combinations(LINES, item["k"]):
        for tol, weighted, n in itertools.product(TOLS, (True, False), NS):
            case = dict(peaks=peaks, space=space, lines=lines, tolerance=tol,
                        weighted=weighted, n=n)
            want, close = votes(peaks, lines, space, tol, weighted)
            if close:
                ctx.count("ambiguous")
                continue
            ctx.count("transitions", 2)
            ctx.count("traces_validated_against_impl")

            def go():
                c, pb = setup(peaks, space, lines, folder,
                              candidate_weighted=weighted, top_n_candidate=n)
                return solve(c, pb, candidate_tolerance=tol)

            ok, got = ctx.guard(case, go)
            if ctx.stop:
                return
            if not ok:
                continue
            ctx.state([sorted(got.items()), tol, weighted])
            e = compare(got, want, n)
            if e:
                ctx.violation(e, case)
    ctx.sample(item)


def compare(got, want, n):
    if set(got) != set(want):
        return "peaks %s have candidates, expected %s" % (
            sorted(got), sorted(want))
    for p in want:
        if len(set(got[p])) != len(got[p]):
            return "repeated candidates %s of peak %s" % (got[p], p)
        if len(got[p]) != min(n, len(want[p])):
            return "%d candidates of peak %s, expected %d" % (
                len(got[p]), p, min(n, len(want[p])))
        for w in got[p]:
            if w not in want[p]:
                return "line %s does not belong to peak %s" % (w, p)
            better = [v for v in want[p] if v not in got[p]
                      and want[p][v] > want[p][w] + 1e-6]
            if better:
                return "candidates %s of peak %s, but %s has more votes" % (
                    got[p], p, better)
    return None


def run_guess(item, ctx, peaks):
    """Candidates around a known polynomial."""
    import numpy as np

    for lines in itertools.combinations(LINES, item["k"]):
        for tol, n, g in itertools.product(TOLS, NS, (4000.0, 3996.0)):
            case = dict(peaks=peaks, lines=lines, tolerance=tol, n=n, guess=g)
            ctx.count("transitions", 2)
            ctx.count("traces_validated_against_impl")

            def go():
                np.random.seed(5)
                c, pb = setup(peaks, None, lines, None, linear=False,
                              top_n_candidate=n)
                return solve(c, pb, candidate_tolerance=tol,
                             fit_coeff=[g, 10.0], fit_deg=1)

            # there may be no candidates at all
            ok, got = ctx.guard(case, go)
            if ctx.stop:
                return
            if not ok:
                continue
            ctx.state([sorted(got.items()), tol, n, g])
            for p, ws in got.items():
                if len(ws) > n or len(set(ws)) != len(ws):
                    ctx.violation("candidates %s of peak %s" % (ws, p), case)
                for w in ws:
                    if w not in lines or abs(w - g - 10.0 * p) > tol + 8.0:
                        ctx.violation("line %s is a candidate of peak %s"
                                      % (w, p), case)
            # a line on the curve is in reach of half of the offsets at least
            for p in peaks:
                near = [w for w in lines if abs(w - g - 10.0 * p) < 1e-9]
                inreach = [w for w in lines
                           if abs(w - g - 10.0 * p) <= tol + 8.0]
                if near and len(inreach) <= n and near[0] not in got.get(
                        p, []):
                    ctx.violation("line %s is not a candidate of peak %s"
                                  % (near[0], p), case)
