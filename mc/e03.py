"""E03: the robust fit is the minimum of the Huber loss, from any start."""
import itertools
import math

from . import core, fitlib

ID = "E03"
LEVEL = "exploration"
RULE = (
    "every set of points of a grid of pixels x degree x curve x pattern of "
    "errors (all the patterns of -1, 0, +1 for small sets, an outlier of "
    "either sign at each point) x initial coefficients x order and type of "
    "the inputs; each solution is compared with the least-squares polynomial "
    "or, with an outlier, with an iteratively reweighted fit. Non-trivial: "
    "the errors are not all zero."
)
BOUNDS = "3-8 points, degree 1-5, 5 parts of a detector, outliers of 0.5 to 20 standard deviations"
ASSUMPTIONS = [
    "the loss is quadratic up to one standard deviation of the wavelengths "
    "and linear beyond, as documented (Huber loss on normalised inputs)",
]
GRID = [3.0, 10.0, 20.0, 37.0, 55.0, 71.0, 90.0, 99.0]
CURVES = [
    [4000.0, 9.0, 0.01, 5e-5, 1e-8, 1e-10],
    [3000.0, 5.0, -0.004, 2e-5, -1e-8, 0.0],
    [120.0, 0.4, 1e-4, 0.0, 0.0, 0.0],
]

# a part of a detector: the first pixel and the step of the grid
PLACES = [(1000.0, 4.0), (3000.0, 1.0), (2000.0, 10.0), (-500.0, 2.0)]


def items(tier, seed):
    its = []
    for deg in range(1, 6):
        for cu in range(len(CURVES)):
            for k in range(deg + 1, len(GRID) + 1):
                its.append(dict(kind="plain", deg=deg, curve=cu, k=k,
                                tier=tier))
            for pl in range(len(PLACES)):
                its.append(dict(kind="place", place=pl, deg=deg, curve=cu,
                                tier=tier))
            if deg <= 3:
                its.append(dict(kind="outlier", deg=deg, curve=cu,
                                tier=tier))
    return its


def patterns(k, tier):
    """Patterns of the errors."""
    if k <= (4 if tier == "quick" else 6):
        yield from itertools.product((0, 1, -1), repeat=k)
    else:
        yield (0,) * k
        for i in range(k):
            yield tuple(1 if j == i else 0 for j in range(k))
            yield tuple((1, -1, -1)[(i + j * j) % 3] for j in range(k))


def norm_fit(x, y, deg):
    import numpy as np

    p = np.polynomial.Polynomial.fit(x, y, deg)
    return p


def huber(x, y, deg):
    """Iteratively reweighted least squares on the normalised inputs."""
    import numpy as np

    ys = y.std()
    t = 2 * (x - x.min()) / (x.max() - x.min()) - 1
    v = np.polynomial.chebyshev.chebvander(t, deg)
    w = np.ones(len(x))
    z = y / ys
    last = None
    for _ in range(5000):
        a = v * np.sqrt(w)[:, None]
        c = np.linalg.lstsq(a, z * np.sqrt(w), rcond=None)[0]
        r = np.abs(z - v @ c)
        w = 1 / np.maximum(r, 1)
        if last is not None and np.abs(c - last).max() < 1e-13:
            break
        last = c
    return (v @ c) * ys


def loss(x, y, pred):
    import numpy as np

    r = np.abs(y - pred) / y.std()
    return float(np.sum(np.where(r <= 1, r * r, 2 * r - 1)))


def run(item, ctx):
    import numpy as np
    from rascal import models

    deg, curve = item["deg"], CURVES[item["curve"]]
    span = fitlib.poly(curve[:deg + 1], 99.0) - curve[0]
    starts = [None, list(curve[:deg + 1]),
              [curve[0] * 0.99, curve[1] * 1.2] + [0.0] * (deg - 1)]

    def solve(x, y, x0):
        xb, yb = np.array(x, float), np.array(y, float)
        x0b = None if x0 is None else list(x0)
        r = models.robust_polyfit(x, y, deg, x0)
        if list(xb) != list(map(float, x)) or list(yb) != list(
                map(float, y)) or x0b != (None if x0 is None else list(x0)):
            raise core.Violation("the inputs are changed")
        r = [float(v) for v in r]
        if len(r) != deg + 1 or not all(map(math.isfinite, r)):
            raise core.Violation("the solution is %s" % r)
        return r

    if item["kind"] == "place":
        return run_place(item, ctx, solve, curve[:deg + 1], span, starts)
    if item["kind"] == "plain":
        for sub in itertools.combinations(GRID, item["k"]):
            x = np.array(sub)
            pats = list(patterns(item["k"], item["tier"]))
            for n, pat in enumerate(pats):
                y = np.array([fitlib.poly(curve[:deg + 1], p) for p in sub])
                y = y + 0.002 * span * np.array(pat)
                want = norm_fit(x, y, deg)(x)
                variants = [(0, s) for s in range(3)] if (
                    n % 9 == 0) else [(n % 4, n % 3)]
                for order, s in variants:
                    case = dict(item, x=list(sub), errors=list(pat),
                                order=order, start=s)
                    ctx.count("evaluations")
                    if any(pat):
                        ctx.key(case)
                    a, b = x, y
                    if order == 1:
                        a, b = x[::-1], y[::-1]
                    elif order == 2:
                        a, b = list(x), list(y)
                    elif order == 3:
                        a = np.roll(x, 1).astype(int)
                        b = np.roll(y, 1)
                    ok, r = ctx.guard(case, solve, a, b, starts[s])
                    if ctx.stop:
                        return
                    if not ok:
                        continue
                    off = max(abs(fitlib.poly(r, p) - w)
                              for p, w in zip(sub, want))
                    if off > 2e-6 * (1 + abs(span)):
                        ctx.violation(
                            "%s is off by %s from the least squares solution"
                            % (r, off), case)
        ctx.sample(case)
        return
    sizes = (0.5, 2.0, 5.0, 20.0) if item["tier"] == "quick" else (
        0.5, 1.0, 1.5, 2.0, 3.0, 5.0, 10.0, 20.0)
    for k in (6, 8):
        for sub in itertools.combinations(GRID, k):
            x = np.array(sub)
            base = np.array([fitlib.poly(curve[:deg + 1], p) for p in sub])
            for i, size, sign, s in itertools.product(
                    range(k), sizes, (1, -1), range(2)):
                if item["tier"] == "quick" and k == 6 and (
                        i + s + int(size)) % 4:
                    continue
                y = base.copy()
                y[i] += sign * size * base.std()
                case = dict(item, x=list(sub), outlier=i, size=size * sign,
                            start=s)
                ctx.count("evaluations")
                ctx.key(case)
                ok, r = ctx.guard(case, solve, x, y, starts[s])
                if ctx.stop:
                    return
                if not ok:
                    continue
                pred = np.array([fitlib.poly(r, p) for p in sub])
                got, best = loss(x, y, pred), loss(x, y, huber(x, y, deg))
                if got > best * 1.01 + 1e-4:
                    ctx.violation("loss %s of the solution, %s is possible"
                                  % (got, best), case)
    ctx.sample(case)


def run_place(item, ctx, solve, curve, span, starts):
    """The pixels are far from 0, the curve is the same."""
    import numpy as np

    lo, step = PLACES[item["place"]]
    deg = item["deg"]
    inner = np.polynomial.Polynomial([-lo / step, 1 / step])

    def moved(c):
        q = list(np.polynomial.Polynomial(c)(inner).coef)
        return q + [0.0] * (deg + 1 - len(q))

    starts = [None] + [moved(c) for c in starts[1:]]
    for k in range(deg + 1, len(GRID) + 1):
        for m, sub in enumerate(itertools.combinations(GRID, k)):
            x = lo + step * np.array(sub)
            for n, pat in enumerate(patterns(k, "quick")):
                if item["tier"] == "quick" and (n + m) % 11:
                    continue
                y = np.array([fitlib.poly(curve, p) for p in sub])
                y = y + 0.002 * span * np.array(pat)
                want = norm_fit(x, y, deg)(x)
                s = (n + m) % 3
                case = dict(item, x=x.tolist(), errors=list(pat), start=s)
                ctx.count("evaluations")
                ctx.key(case)
                ok, r = ctx.guard(case, solve, x, y, starts[s])
                if ctx.stop:
                    return
                if not ok:
                    continue
                off = max(abs(fitlib.poly(r, p) - w) for p, w in zip(x, want))
                if off > 1e-5 * (1 + abs(span)):
                    ctx.violation(
                        "%s is off by %s from the least squares solution"
                        % (r, off), case)
    ctx.sample(case)
