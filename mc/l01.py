"""L01: the unit of the wavelengths does not matter."""
import copy

from . import fitlib, rng

ID = "L01"
LEVEL = "model_checking"
RULE = (
    "stateless exploration of fit() over the random draws, in two worlds at "
    "the same time: in the second all the wavelengths and tolerances are "
    "multiplied by a power of two, which is exact. Transform, candidates, "
    "solution, matches, edits and refits of the second world have to be those "
    "of the first times the factor, whatever is drawn. A state is a problem, "
    "a factor and the draws."
)
BOUNDS = "7 problems x 5 units x 6 settings, all the draws of the first " \
         "sample or the first 12 (thorough: 200) of them"
ASSUMPTIONS = ["a refinement is left out: it has an absolute convergence"]

FACTORS = [2.0 ** -14, 2.0 ** -10, 2.0 ** -3, 2.0 ** 4, 2.0 ** 10]
P = fitlib.Problem
NAMES = ["line", "line_extra", "quad", "quad_missing", "quad_noise", "cubic"]
KNOWN = P([4000.0, 9.0, 0.01], [8, 20, 37, 55, 90], noise=[
    0.1, -0.2, 0.15, -0.1, 0.05], decoys=[4195.0, 4530.0],
    hough=dict(linearity_tolerance=20.0), ctol=25.0,
    known=([70.25], [4681.75]), ransac=dict(minimum_fit_error=0.02))
MODES = [
    dict(),
    dict(ransac=dict(hough_weight=0.0, candidate_weighted=False)),
    dict(ransac=dict(filter_close=True)),
    dict(fit=dict(fit_type="legendre")),
    dict(fit=dict(guess=True)),
    dict(ransac=dict(linear=False), fit=dict(guess=True)),
]
PAIRWISE = [False, True]


def problem(name):
    return KNOWN if name == "known" else fitlib.PROBLEMS[name]


def scaled(pb, k):
    """The same problem in another unit."""
    q = copy.deepcopy(pb)
    q.coeff = [c * k for c in pb.coeff]
    q.lines = [w * k for w in pb.lines]
    q.truth = {p: w * k for p, w in pb.truth.items()}
    q.ctol = pb.ctol * k
    for n in ("min_wavelength", "max_wavelength", "range_tolerance",
              "linearity_tolerance"):
        q.hough[n] = pb.hough[n] * k
    for n in ("ransac_tolerance", "minimum_fit_error"):
        q.ransac[n] = pb.ransac[n] * k
    q.fit["candidate_tolerance"] = pb.fit["candidate_tolerance"] * k
    if pb.known is not None:
        q.known = (list(pb.known[0]), [w * k for w in pb.known[1]])
    return q


def items(tier, seed):
    return [dict(name=n, factor=f, mode=m, pairwise=b, tier=tier)
            for n in NAMES + ["known"] for f in range(len(FACTORS))
            for m in range(len(MODES)) for b in PAIRWISE]


def world(pb, k, item, ctl):
    """All the steps in one unit; the wavelengths in the first one."""
    import numpy as np

    mode = MODES[item["mode"]]
    c = fitlib.calibrator(pb, ransac=mode.get("ransac", {}))
    c.do_hough_transform(brute_force=item["pairwise"])
    unit = np.array([1 / k, 1 / k])
    out = [("points", np.asarray(c.ht.hough_points) * unit),
           ("hist", c.ht.hist), ("slopes", c.ht.xedges / k),
           ("intercepts", c.ht.yedges / k),
           ("lines", np.asarray(c.ht.hough_lines) * unit),
           ("limits", np.array([c.min_slope, c.max_slope, c.min_intercept,
                                c.max_intercept]) / k)]
    kw = dict(mode.get("fit", {}))
    if kw.pop("guess", False):
        kw["fit_coeff"] = [pb.coeff[0] + 0.3 * k] + list(pb.coeff[1:])
    with rng.under(ctl):
        r = fitlib.fit(c, pb, fit_tolerance=5.0 * k, **kw)

    def told(what, r):
        if isinstance(r, str):
            out.append((what, r))
            return
        out.append((what + " coefficients", np.asarray(r[0]) / k))
        out.append((what + " peaks", np.asarray(r[1])))
        out.append((what + " lines", np.asarray(r[2]) / k))
        out.append((what + " rms", float(r[3]) / k))
        out.append((what + " residuals", np.asarray(
            [] if r[4] is None else r[4], float) / k))
        out.append((what + " utilisation", np.array([r[5], r[6]])))

    told("fit", r)
    cand = np.array([c.candidate_peak, c.candidate_arc], float)
    out.append(("candidates", cand * [[1.0], [1 / k]] if cand.size else cand))
    if isinstance(r, str):
        return out
    for robust, tol in ((True, 6.0), (False, 40.0)):
        told("match", c.match_peaks(list(r[0]), tolerance=tol * k,
                                    robust_refit=robust))
    if kw.get("fit_type", "poly") == "poly":
        c.add_pix_wave_pair(63.5, (fitlib.poly(
            [v / k for v in pb.coeff], 63.5) + 0.25) * k)
        out.append(("pairs", np.asarray(c.get_pix_wave_pairs()) *
                    [1.0, 1.0, 1 / k]))
        deg = len(pb.coeff) - 1
        for args in ((), (None, None, max(deg - 1, 1))):
            if len(c.get_pix_wave_pairs()) > deg:
                got = c.manual_refit(*args)
                out.append(("refit", np.asarray(got[0]) / k))
                out.append(("refit rms", float(got[3]) / k))
    return out


def differ(a, b):
    import numpy as np

    if len(a) != len(b):
        return "%d steps and %d" % (len(a), len(b))
    for (n, x), (m, y) in zip(a, b):
        if n != m or isinstance(x, str) != isinstance(y, str):
            return "%s %s, %s %s" % (n, x, m, y)
        if isinstance(x, str):
            if x != y:
                return "%s: %s, %s" % (n, x, y)
            continue
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.shape != y.shape or not np.allclose(
                x, y, rtol=1e-6, atol=1e-6 if "resid" in n or "rms" in n
                else 1e-9, equal_nan=True):
            return "%s: %s, %s" % (n, x.tolist(), y.tolist())
    return None


def run(item, ctx):
    pb, k = problem(item["name"]), FACTORS[item["factor"]]
    qb = scaled(pb, k)
    limit = 12 if item["tier"] == "quick" else 200

    def execute(ctl):
        a = world(pb, 1.0, item, ctl)
        twin = rng.Controller([p.pick for p in ctl.points])
        twin.depth = ctl.depth
        b = world(qb, k, item, twin)
        if [p.n for p in twin.points] != [p.n for p in ctl.points]:
            b.append(("draws", "others"))
        return a, b

    # the worlds go under the controller themselves
    prefix, n, depth = [], 0, pb.ransac["sample_size"] + 1
    while n < limit:
        ctl = rng.Controller(prefix)
        ctl.depth = depth
        case = dict(item, picks=prefix, unit=k)
        ok, ab = ctx.guard(case, execute, ctl)
        if ctx.stop or not ok:
            return
        n += 1
        ctx.count("transitions", 2 * (1 + len(ctl.points)))
        ctx.count("traces_validated_against_impl", 2)
        picks = [p.pick for p in ctl.points[:depth]]
        ctx.state([item["name"], item["factor"], item["mode"],
                   item["pairwise"], picks])
        ctx.count("solutions", dict(ab[0]).get("fit") is None)
        e = differ(*ab)
        if e:
            ctx.violation("in another unit %s" % e[:600], case)
        i = min(depth, len(ctl.points)) - 1
        while i >= 0 and picks[i] + 1 >= ctl.points[i].n:
            i -= 1
        if i < 0:
            ctx.count("trees_completed")
            break
        # every third answer in the quick tier, to get around the tree
        prefix = picks[:i] + [picks[i] + 1]
        if item["tier"] == "quick" and ctl.points[0].n > picks[0] + 3:
            prefix = [picks[0] + 3] if n % 2 else prefix
    ctx.sample(dict(item, picks=picks))
