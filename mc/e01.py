"""E01: match_peaks() returns the closest lines, one to one."""
import itertools
import math

from . import core, fitlib

ID = "E01"
LEVEL = "exploration"
RULE = (
    "every set of up to 4 of 6 peaks x every set of up to 3 (thorough 5) of 9 "
    "lines x 3 solutions x 4 tolerances x orders of the inputs, without and "
    "with the final fit, compared with a brute-force matcher; and every "
    "combination of shifts of the solution, number of coefficients, tolerance "
    "and fraction for the refinement. Non-trivial: at least one match and at "
    "least one peak or line without a match."
)
BOUNDS = "1-4 peaks, 1-5 lines, degree 1-3"
ASSUMPTIONS = [
    "a line exactly at the tolerance and lines at the same distance of a peak "
    "are open",
    "a solution that matches nothing is refused with an AssertionError",
]

PEAKS = [5.0, 19.8, 20.0003, 21.5, 40.0 + 1 / 3, 70.0000001]
CURVES = [[4000.0, 9.0, 0.01], [4003.0, 9.0], [3990.0, 9.3, 0.008, 1e-5]]
# on the first curve at the peaks, and around
LINES = [4045.25, 4048.0, 4182.3, 4184.0, 4198.1225, 4191.3, 4376.0, 4370.5, 4679.0]
TOLS = [0.4, 4.0, 12.0, 60.0]
ORDERS = [0, 1, 2]


def items(tier, seed):
    its = []
    kmax = 3 if tier == "quick" else 5
    for k in range(1, 5):
        for p in itertools.combinations(range(len(PEAKS)), k):
            its.append(dict(kind="match", peaks=list(p), kmax=kmax,
                            tier=tier))
    for n, d in itertools.product(
            ("line_extra", "quad_extra", "quad_noise", "cubic"), range(4)):
        its.append(dict(kind="refine", name=n, delta=d, tier=tier))
    return its


def reference(peaks, lines, coeff, tol):
    """The matches, None if a tie leaves them open."""
    best = {}
    for p in peaks:
        x = fitlib.poly(coeff, p)
        d = sorted((abs(w - x), w) for w in lines)
        if any(abs(e - tol) < 1e-9 for e, _ in d):
            return None
        d = [q for q in d if q[0] < tol]
        if not d:
            continue
        if len(d) > 1 and d[1][0] - d[0][0] < 1e-9:
            return None
        best.setdefault(d[0][1], []).append((d[0][0], p))
    out = {}
    for w, ps in best.items():
        ps.sort()
        if len(ps) > 1 and ps[1][0] - ps[0][0] < 1e-9:
            return None
        out[ps[0][1]] = w
    return out


def calibrator(peaks, lines, order):
    import numpy as np
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    if order == 1:
        peaks, lines = peaks[::-1], lines[::-1]
    if order == 2:
        peaks, lines = np.array(peaks[1:] + peaks[:1]), lines[1:] + lines[:1]
    c = Calibrator(peaks=peaks)
    c.set_calibrator_properties(num_pix=100, log_level="critical")
    a = Atlas()
    a.add_user_atlas(["X"] * len(lines), list(lines))
    c.set_atlas(a)
    # chooses the family of the polynomials
    c.fit_coeff = None
    return c


def consistent(r, c, peaks, lines, deg):
    """What a result says about itself."""
    if len(r) != 7:
        return "%d elements" % len(r)
    k = [float(v) for v in r[0]]
    if len(k) != deg + 1:
        return "%d coefficients for degree %d" % (len(k), deg)
    mp, ma = [float(v) for v in r[1]], [float(v) for v in r[2]]
    res = [float(v) for v in r[4]]
    if not len(mp) == len(ma) == len(res):
        return "%d peaks, %d lines, %d residuals" % (
            len(mp), len(ma), len(res))
    want = [w - fitlib.poly(k, p) for p, w in zip(mp, ma)]
    if any(abs(a - b) > 1e-6 for a, b in zip(res, want)):
        return "residuals %s, expected %s" % (res, want)
    rms = math.sqrt(sum(v * v for v in want) / len(want))
    if abs(rms - float(r[3])) > 1e-6:
        return "rms %s, expected %s" % (r[3], rms)
    if abs(r[5] - len(mp) / len(peaks)) > 1e-12:
        return "peak utilisation %s" % r[5]
    if abs(r[6] - len(ma) / len(lines)) > 1e-12:
        return "atlas utilisation %s" % r[6]
    got = [(int(i), float(p), float(w)) for i, p, w in c.get_pix_wave_pairs()]
    if got != [(i, p, w) for i, (p, w) in enumerate(zip(mp, ma))]:
        return "the pairs are %s" % got
    if [float(v) for v in c.fit_coeff] != k:
        return "the Calibrator keeps other coefficients"
    return None


def run(item, ctx):
    if item["kind"] == "refine":
        return run_refine(item, ctx)
    peaks = [PEAKS[i] for i in item["peaks"]]
    for k in range(1, item["kmax"] + 1):
        for n, ls in enumerate(itertools.combinations(LINES, k)):
            lines = list(ls)
            for cu, order in itertools.product(range(len(CURVES)), ORDERS):
                if order and (len(peaks) == 1 and k == 1):
                    continue
                if item["tier"] == "quick" and k > 2 and (
                        order != (n + cu) % 3):
                    continue
                case = dict(peaks=peaks, lines=lines, curve=cu, order=order)
                ok, c = ctx.guard(case, calibrator, peaks, lines, order)
                if ctx.stop:
                    return
                if ok:
                    for t in TOLS:
                        one(ctx, c, peaks, lines, cu, t, dict(case, tol=t),
                            (n + cu) % 4 == 0 or item["tier"] != "quick")
                        if ctx.stop:
                            return
    ctx.sample(case)


def one(ctx, c, peaks, lines, cu, tol, case, refit):
    import numpy as np

    coeff = CURVES[cu]
    ref = reference(peaks, lines, coeff, tol)
    if ref is None:
        ctx.count("open_ties")
        return
    ctx.count("evaluations")
    if ref and (len(ref) < len(peaks) or len(ref) < len(lines)):
        ctx.key(case)

    def go(**kw):
        given = np.array(coeff) if cu == 1 else list(coeff)
        before = [float(v) for v in given]
        try:
            r = c.match_peaks(given, tolerance=tol, **kw)
        except AssertionError:
            return None
        if [float(v) for v in given] != before:
            raise core.Violation("the given coefficients are changed")
        return r

    for kw in (dict(robust_refit=False), dict(robust_refit=True)) \
            if refit else (dict(robust_refit=False),):
        case = dict(case, refit=kw["robust_refit"])
        ok, r = ctx.guard(case, go, **kw)
        if not ok:
            return
        if r is None or not ref:
            if (r is None) != (not ref):
                ctx.violation("the result is %s, the matches are %s"
                              % (r, ref), case)
            continue
        e = consistent(r, c, peaks, lines, len(coeff) - 1)
        got = {float(p): float(w) for p, w in zip(r[1], r[2])}
        if not e and (got != ref or len(r[1]) != len(ref)):
            e = "the matches are %s, expected %s" % (got, ref)
        keep = not kw["robust_refit"] or len(ref) < len(coeff)
        if not e and keep and list(
                map(float, r[0])) != list(map(float, coeff)):
            e = "the solution %s is not the given one" % (r[0],)
        if not e and not keep:
            # not worse than the least squares by more than its precision
            ps = sorted(ref)
            ws = [ref[p] for p in ps]
            q = np.polynomial.polynomial.polyfit(ps, ws, len(coeff) - 1)
            best = math.sqrt(sum((fitlib.poly(q, p) - w) ** 2
                                 for p, w in ref.items()) / len(ref))
            if float(r[3]) > best * 1.05 + 0.02:
                e = "rms %s after the fit, %s is possible" % (r[3], best)
        if e:
            ctx.violation(e, case)


def objective(coeff, pb, tol, frac):
    """Mean square error per degree of freedom of a solution."""
    sq = []
    for p in pb.peaks:
        x = fitlib.poly(coeff, p)
        d = min(abs(w - x) for w in pb.lines)
        if d < tol:
            sq.append(d * d)
    dof = len(sq) - len(coeff) - 1
    w = [fitlib.poly(coeff, x) for x in range(pb.num_pix)]
    if dof < 1 or len(sq) < frac * len(pb.peaks) or any(
            b <= a for a, b in zip(w, w[1:])):
        return math.inf
    return sum(sq) / dof


DELTAS = [[0.0, 0.0], [0.4, 0.0], [-1.5, 0.01], [6.0, -0.02]]


def run_refine(item, ctx):
    pb = fitlib.PROBLEMS[item["name"]]
    coeff = list(pb.coeff)
    for i, d in enumerate(DELTAS[item["delta"]]):
        coeff[i] += d
    thorough = item["tier"] != "quick"
    for nd, tol, frac, method in itertools.product(
            (None, 1, 2, len(coeff)), (0.5, 5.0, 20.0) if thorough else (0.5, 20.0),
            (0.1, 0.5, 1.0) if thorough else (0.1, 1.0),
            ("Nelder-Mead", "Powell") if thorough else ("Nelder-Mead",)):
        case = dict(item, n_delta=nd, tol=tol, frac=frac, method=method)
        ctx.count("evaluations")
        ctx.key(case)

        def go(**kw):
            c = fitlib.calibrator(pb)
            try:
                return c.match_peaks(
                    list(coeff), n_delta=nd, refine=True, tolerance=tol,
                    min_frac=frac, method=method, **kw), c
            except AssertionError:
                return None, c

        ok, rc = ctx.guard(case, go, robust_refit=False)
        if ctx.stop:
            return
        if not ok:
            continue
        r, c = rc
        before = objective(coeff, pb, tol, frac)
        if r is None:
            if before < math.inf:
                ctx.violation("refused, although the given solution matches",
                              case)
            continue
        k = [float(v) for v in r[0]]
        e = consistent(r, c, pb.peaks, pb.lines, len(coeff) - 1)
        n = len(coeff) - 1 if nd is None else nd
        if not e and k[n:] != [float(v) for v in coeff[n:]]:
            e = "coefficients beyond the first %d are changed: %s -> %s" % (
                n, coeff, k)
        if not e and k != [float(v) for v in coeff]:
            after = objective(k, pb, tol, frac)
            if not after <= before * (1 + 1e-9):
                e = "the refinement makes it worse: %s -> %s" % (
                    before, after)
        if not e:
            ref = reference(pb.peaks, pb.lines, k, tol)
            got = {float(p): float(w) for p, w in zip(r[1], r[2])}
            if ref is not None and got != ref:
                e = "the matches are %s, expected %s" % (got, ref)
        if not e and item["delta"] == 1 and tol == 20.0 and nd != 1:
            # only the intercept is off and the lines are in reach
            exact = objective(pb.coeff, pb, tol, frac)
            after = objective(k, pb, tol, frac)
            if after > exact + 0.02:
                e = "the refinement ends at %s, %s is possible" % (
                    after, exact)
        if e:
            ctx.violation(e, case)
    ctx.sample(case)
