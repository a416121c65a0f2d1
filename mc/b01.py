"""B01: the Hough points are exactly the admissible lines through the pairs."""
import itertools

from . import core

ID = "B01"
LEVEL = "exploration"
RULE = (
    "every set of up to 4 (pixel, wavelength) pairs of a 4 x 4 grid in every "
    "listing order of up to 3, with each limits and number of slopes, in both "
    "modes, directly and through a Calibrator. Non-trivial: some candidate "
    "lines are inside and some are outside the limits."
)
BOUNDS = "<= 4 pairs, <= 7 slopes, limits on and off the lattice"
ASSUMPTIONS = [
    "numbers of the alphabet are exactly representable, the intercept limits "
    "are inclusive in the grid mode",
    "in the pairwise mode, lines lying exactly on a limit are open",
]

PIX = [0.0, 1.0, 2.0, 4.0]
WAV = [8.0, 9.0, 10.0, 12.0]
# min slope, max slope, min intercept, max intercept
LIMITS = [
    (0.5, 2.5, 6.0, 9.0),
    (-1.0, 1.0, 7.5, 8.5),
    (1.0, 1.0, 0.0, 20.0),
    (0.25, 4.25, 5.75, 8.25),
    (2.0, 3.0, 8.0, 8.0),
]


def items(tier, seed):
    kmax = 4 if tier == "quick" else 5
    its = [dict(kind="direct", limits=i, kmax=kmax, part=p)
           for i in range(len(LIMITS)) for p in range(6)]
    its.append(dict(kind="calibrator"))
    return its


def grid_ref(pairs, lim, num):
    lo, hi, ilo, ihi = lim
    if num == 1:
        slopes = [lo]
    else:
        slopes = [lo + (hi - lo) * k / (num - 1) for k in range(num)]
    out, edge = [], []
    total = 0
    for m in slopes:
        exact = m * 1024 == int(m * 1024)
        for x, y in pairs:
            total += 1
            c = y - m * x
            if not exact and min(abs(c - ilo), abs(c - ihi)) < 1e-9:
                edge.append((m, c))
            elif ilo <= c <= ihi:
                out.append((m, c))
    return sorted(out), edge, total


def brute_ref(pairs, lim):
    """(certain, possible): points strictly inside, and those on a limit."""
    lo, hi, ilo, ihi = lim
    inside, edge, total = [], [], 0
    for (x1, y1), (x2, y2) in itertools.combinations(pairs, 2):
        if x1 == x2:
            continue
        total += 1
        m = (y2 - y1) / (x2 - x1)
        c = y1 - m * x1
        e = 1e-9
        if lo + e < m < hi - e and ilo + e < c < ihi - e:
            inside.append((m, c))
        elif lo - e <= m <= hi + e and ilo - e <= c <= ihi + e:
            edge.append((m, c))
    return sorted(inside), sorted(edge), total


def rounded(pts):
    return sorted((round(p, 9) + 0.0, round(q, 9) + 0.0) for p, q in pts)


def accounted(got, inside, edge):
    got, inside, edge = rounded(got), rounded(inside), rounded(edge)
    for p in inside:
        if p not in got:
            return False
        got.remove(p)
    for p in got:
        if p not in edge:
            return False
        edge.remove(p)
    return True


def points(ht):
    return sorted((float(p[0]), float(p[1])) for p in ht.hough_points)


def one(pairs, lim, mode):
    import numpy as np
    from rascal.houghtransform import HoughTransform

    ht = HoughTransform()
    ht.set_constraints(*lim)
    x = np.array([p[0] for p in pairs])
    y = np.array([p[1] for p in pairs])
    kx, ky = x.copy(), y.copy()
    if mode is None:
        ht.generate_hough_points_brute_force(x, y)
    else:
        ht.generate_hough_points(x, y, mode)
    if not (np.array_equal(x, kx) and np.array_equal(y, ky)):
        raise core.Violation("the input arrays are modified")
    assert np.shape(ht.hough_points)[1:] == (2,), np.shape(ht.hough_points)
    return points(ht)


def check(ctx, pairs, lim, mode, case, got):
    if mode is None:
        inside, edge, total = brute_ref(pairs, lim)
        if 0 < len(inside) < total:
            ctx.key(case)
        if not accounted(got, inside, edge):
            ctx.violation("points %s, expected %s (+ %s)"
                          % (got, inside, edge), case)
    else:
        exp, edge, total = grid_ref(pairs, lim, mode)
        if 0 < len(exp) < total:
            ctx.key(case)
        if not accounted(got, exp, edge):
            ctx.violation("points %s, expected %s (+ %s)" % (got, exp, edge),
                          case)


def run(item, ctx):
    if item["kind"] == "calibrator":
        return run_calibrator(ctx)
    lim = LIMITS[item["limits"]]
    grid = list(itertools.product(PIX, WAV))
    n = 0
    for k in range(1, item["kmax"] + 1):
        sets = (itertools.permutations(grid, k) if k <= 3
                else itertools.combinations(grid, k))
        for pairs in sets:
            n += 1
            if n % 6 != item["part"]:
                continue
            modes = [None] if k > 1 else []
            modes += ([1, 2, 5, 7] if k <= 2 else [3, 5])
            for mode in modes:
                case = dict(pairs=pairs, limits=lim, num_slopes=mode)
                ctx.count("evaluations")
                ok, got = ctx.guard(case, one, pairs, lim, mode)
                if ok:
                    check(ctx, pairs, lim, mode, case, got)
                if ctx.stop:
                    return
    ctx.sample(dict(pairs=pairs, limits=lim, points=got))


def run_calibrator(ctx):
    """The search of a Calibrator is the transform of its pairs."""
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    peaksets = [[1.0, 4.0], [0.0, 2.0, 8.0], [4.0, 1.0, 2.0]]
    lines = [[105.0, 112.0], [101.0, 103.0, 120.0, 110.0]]
    for peaks, ws, brute, num, rt, lt in itertools.product(
        peaksets, lines, (False, True), (2, 9, 17), (2.0, 5.0), (0.5, 4.0)
    ):
        case = dict(peaks=peaks, lines=ws, brute_force=brute, num_slopes=num,
                    range_tolerance=rt, linearity_tolerance=lt)

        def go():
            c = Calibrator(peaks=peaks)
            c.set_calibrator_properties(num_pix=9)
            c.set_hough_properties(
                num_slopes=num, xbins=3, ybins=3, min_wavelength=100.0,
                max_wavelength=120.0, range_tolerance=rt,
                linearity_tolerance=lt)
            a = Atlas()
            a.add_user_atlas(["X"] * len(ws), ws)
            c.set_atlas(a)
            c.do_hough_transform(brute_force=brute)
            return points(c), points(c.ht)

        ctx.count("evaluations")
        pairs = list(itertools.product(peaks, ws))
        span = 8.0
        lim = ((120.0 - 100.0 - 2 * (rt + lt)) / span,
               (120.0 - 100.0 + 2 * (rt + lt)) / span,
               100.0 - rt, 100.0 + rt)
        inside, edge, _ = brute_ref(pairs, lim)
        if brute and not inside and not edge:
            continue
        if not brute and not grid_ref(pairs, lim, num)[0]:
            continue
        ok, got = ctx.guard(case, go)
        if not ok:
            continue
        if got[0] != got[1]:
            ctx.violation("the points of the Calibrator differ from those of "
                          "its HoughTransform", case)
        check(ctx, pairs, lim, None if brute else num, case, got[0])
        if ctx.stop:
            return
