"""D08: the density of the Hough space decides between equal solutions."""
import itertools
import os

from . import core, fitlib, rng

ID = "D08"
LEVEL = "model_checking"
RULE = (
    "two curves explain all the peaks with about the same errors. The Hough "
    "space is written by hand: every combination of the density along either "
    "curve, of the numbers of bins, of the weight and of the polynomial "
    "degree is solved with the exhaustive search and with every order of a "
    "sample from each curve."
)
BOUNDS = ("6 densities x 8 grids x 6 weights x 3 degrees x 2 pixel lists; "
          "3 families of polynomials; 6 kinds of lines that are no "
          "tangents")
ASSUMPTIONS = ["a density larger by a factor of 10 outweighs errors larger "
               "by a factor of 1.3"]

CURVES = {
    1: ([4000.0, 10.0], [4030.0, 10.6]),
    2: ([4000.0, 9.0, 0.01], [4035.0, 9.6, 0.012]),
    3: ([4000.0, 9.0, 0.01, 5e-5], [4035.0, 9.8, 0.011, 5.5e-5]),
}
# the tangents are not along the same curve as other lines
CURVED = {
    2: ([4000.0, 5.0, 0.05], [4035.0, 5.6, 0.052]),
    3: ([4000.0, 5.0, 0.03, 2e-4], [4035.0, 5.6, 0.031, 2.1e-4]),
}
PEAKS = [6.0, 21.0, 40.0, 58.0, 77.0, 93.0]
DENSITY = [(40, 1), (1, 40), (30, 2), (2, 30), (60, 0), (0, 60)]
GRIDS = [(6, 6), (5, 8), (8, 5), (7, 4), (12, 12), (20, 4), (4, 20), (6, 45),
         (40, 40), (30, 50)]
TRAPS = [0.0, 0.5, 2 / 3, 0.75, 4 / 3, 1.5]
INF = float("inf")
WEIGHTS = [1.0, 10.0, 1e-3, 0.0, INF, float("nan")]


def items(tier, seed):
    its = []
    for deg, g, p in itertools.product(CURVES, range(8), (0, 1)):
        its.append(dict(deg=deg, grid=g, pixels=p,
                        family="poly", all=tier != "quick"))
    for fam, deg, p in itertools.product(("legendre", "chebyshev"), CURVES,
                                         (0, 1)):
        for g in (0, 4) if tier == "quick" else range(8):
            its.append(dict(deg=deg, grid=g, pixels=p, family=fam,
                            all=False))
    for fam, deg, t in itertools.product(("poly", "legendre", "chebyshev"),
                                         (2, 3), TRAPS):
        for g in (8,) if tier == "quick" else (8, 9):
            its.append(dict(deg=deg, grid=g, pixels=0, family=fam, trap=t,
                            all=False))
    return its


def curves(deg, trap):
    return (CURVES if trap is None else CURVED)[deg]


def noisy(coeff, size):
    sign = [1, -1, -1, 1, 1, -1]
    return [fitlib.poly(coeff, p) + size * s for p, s in zip(PEAKS, sign)]


def tangent(coeff, x, curved=1.0):
    """The tangent, or a line that crosses the curve at that point."""
    d = [i * c for i, c in enumerate(coeff)][1:]
    g = d[0] + curved * (fitlib.poly(d, x) - d[0])
    return g, fitlib.poly(coeff, x) - g * x


def calibrator(deg, grid, pixels, dens, weight, errors, folder, trap=None):
    import numpy as np
    from rascal.calibrator import Calibrator
    from rascal.houghtransform import HoughTransform

    a, b = curves(deg, trap)
    lines = sorted(noisy(a, errors[0]) + noisy(b, errors[1]))
    pb = fitlib.Problem(a, PEAKS)
    pb.lines = lines
    pb.fit.update(candidate_tolerance=60.0)
    pb.hough.update(range_tolerance=100.0, linearity_tolerance=100.0)
    pb.ransac.update(top_n_candidate=12, hough_weight=weight,
                     sample_size=deg + 1)
    c = fitlib.calibrator(pb)
    xs = np.arange(100)
    if pixels:
        # a gap between two detectors, and binned pixels
        xs = np.concatenate((np.arange(0, 45, 3), np.arange(55, 105, 3)))
        c.set_calibrator_properties(pixel_list=xs)
    step = 1 if trap is not None else 5 - 3 * pixels
    points = []
    for coeff, n in zip((a, b), dens):
        for x in xs[::step]:
            points += [tangent(coeff, float(x))] * n
    if trap is not None:
        # lines that cross the other curve are not its tangents
        other = (a, b)[dens[0] > dens[1]]
        for x in xs[::step]:
            points += [tangent(other, float(x), trap)] * (max(dens) // 4)
    # the corners of the grid
    allp = [tangent(k, float(x), t) for k in (a, b)
            for x in xs[::step] for t in (1.0,) + ((trap,) if trap is not None else ())]
    g = [q[0] for q in allp]
    i = [q[1] for q in allp]
    dg, di = 0.3 * np.ptp(g) + 0.2, 0.3 * np.ptp(i) + 5.0
    points += [(min(g) - dg, min(i) - di), (max(g) + dg, max(i) + di)]
    ht = HoughTransform()
    ht.set_constraints(min(g) - 1, max(g) + 1, min(i) - 10, max(i) + 10)
    ht.hough_points = np.array(points)
    ht.bin_hough_points(*GRIDS[grid])
    p = os.path.join(folder, "ht")
    ht.save(p, "npy")
    c.load_hough_transform(p, "npy")
    return c, pb


def family(r, deg, errors, trap):
    if isinstance(r, str):
        return "none"
    got = sorted(round(float(w), 3) for w in r[2])
    for n, k, e in zip("ab", curves(deg, trap), errors):
        if got == sorted(round(w, 3) for w in noisy(k, e)):
            return n
    return "other"


def sample(deg, which, errors, trap):
    """A clean sample of a curve, as (peaks, lines)."""
    k = {1: [0, 3], 2: [0, 2, 5], 3: [0, 2, 3, 5]}[deg]
    w = noisy(curves(deg, trap)[which], errors[which])
    return [PEAKS[i] for i in k], [w[i] for i in k]


def run(item, ctx):
    import numpy as np

    deg = item["deg"]
    folder = os.path.join(core.scratch(), "d08_%d" % os.getpid())
    os.makedirs(folder, exist_ok=True)
    trap = item.get("trap")
    for dens, weight, worse in itertools.product(DENSITY, WEIGHTS, (0, 1)):
        if not item["all"] and weight not in (1.0, 0.0) and (
                dens not in DENSITY[:2] or worse != (dens[0] < dens[1])):
            continue
        if trap is not None and (weight != 1.0 or min(dens) != 1):
            continue
        # the curve with the larger errors
        errors = [0.02, 0.02]
        errors[worse] = 0.023
        if weight == 0.0 or not abs(weight) < INF:
            # the density is not in use
            want = "ab"[1 - worse]
        else:
            want = "a" if dens[0] > dens[1] else "b"
        case = dict(item, density=dens, weight=weight, worse=worse)
        ctx.state(case)
        outcome = []
        if deg < 3 and trap is None:
            ctx.count("transitions", 3)
            ctx.count("traces_validated_against_impl")

            def go():
                c, pb = calibrator(deg, item["grid"], item["pixels"], dens,
                                   weight, errors, folder, trap)
                np.random.seed(1)
                return fitlib.fit(c, pb, brute_force=True,
                                  fit_type=item["family"])

            ok, r = ctx.guard(case, go)
            if ok:
                outcome.append(("exhaustive", r))
        for order in ((0, 1), (1, 0)):
            ctx.count("transitions", 4)
            ctx.count("traces_validated_against_impl")

            def two():
                c, pb = calibrator(deg, item["grid"], item["pixels"], dens,
                                   weight, errors, folder, trap)
                script = [sample(deg, w, errors, trap) for w in order]
                ctl = Script(script)
                with rng.under(ctl):
                    r = fitlib.fit(c, pb, max_tries=2,
                                   fit_type=item["family"])
                return r, ctl

            ok, r = ctx.guard(dict(case, order=order), two)
            if ok:
                if r[1].followed:
                    outcome.append(("order %s" % (order,), r[0]))
                else:
                    ctx.count("not_followed")
        for how, r in outcome:
            f = family(r, deg, errors, trap)
            if f != want:
                ctx.violation(
                    "%s: the solution is %s (%s), expected %s"
                    % (how, f, fitlib.plain(r), want), case)
        if ctx.stop:
            return
    ctx.sample(item)


class Script(rng.Controller):
    """Answers the draws with given samples."""

    def __init__(self, script):
        super().__init__()
        self.script = [(list(x), list(y)) for x, y in script]
        self.todo = []
        self.followed = True

    def choice(self, a, size=None, replace=True, p=None):
        pool = np_list(a)
        if size is not None:
            if not self.script:
                self.followed = False
                return super().choice(a, size, replace, p)
            x, self.todo = self.script.pop(0)
            if len(x) != size or not all(v in pool for v in x):
                self.followed = False
                return super().choice(a, size, replace, p)
            import numpy as np

            return np.array(x)
        if self.todo:
            y = self.todo.pop(0)
            for v in pool:
                if abs(v - y) < 1e-6:
                    return v
        self.followed = False
        return super().choice(a, size, replace, p)


def np_list(a):
    import numpy as np

    if isinstance(a, (int, np.integer)):
        return list(range(a))
    return np.asarray(a).tolist()
