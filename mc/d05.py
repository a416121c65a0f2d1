"""D05: no solution turns around or starts outside the window."""
from . import fitlib

ID = "D05"
LEVEL = "model_checking"
RULE = (
    "stateless exploration of fit() over the random draws on problems where "
    "the cheapest solution is not allowed: intruders which fit all the peaks "
    "exactly on a curve that decreases somewhere between the peaks (anywhere, "
    "close to one of the ends, in the middle) or whose wavelength at the "
    "pixel 0 lies outside the range of the Hough constraints. Every answer of "
    "the draws of the first try, and the brute-force samples."
)
BOUNDS = "38 families of intruders, degrees 1 to 3, 3 weights; up to 150 " \
         "(thorough: 3000) schedules of each"
ASSUMPTIONS = ["the solution is not the guess of the caller",
               "intercept within 1 Angstrom of the limits counts as inside"]
LIMIT = 120.0

P = fitlib.Problem
PEAKS = [8, 20, 37, 55, 71, 90, 95]


def families():
    out = {}
    # the intercept lies outside
    for off in (13.0, 18.0, 30.0):
        for s in (1, -1):
            for tilt in (0.0, 0.05, -0.05):
                f = [4000.0 + s * off, 10.0 + tilt]
                out["intercept_%s_%s" % (s * off, tilt)] = P(
                    [4000.0, 10.0], PEAKS[:6], missing=[71], ctol=45.0,
                    decoys=[fitlib.poly(f, p) for p in PEAKS[:6]],
                    hough=dict(range_tolerance=12.0,
                               linearity_tolerance=30.0))
    window = dict(range_tolerance=12.0, linearity_tolerance=60.0,
                  min_wavelength=4000.0, max_wavelength=4099.0)
    # a parabola that turns around at v, before or behind most of the peaks
    for v in (92, 85, 60, 40):
        for k in (0.4 / 92, 0.9 / 92):
            f = [4001.0, 2 * v * k, -k]
            out["turns_down_%s_%s" % (v, round(k, 4))] = P(
                [4000.0, 1.0, 0.0001], PEAKS, missing=[37], ctol=80.0,
                decoys=[fitlib.poly(f, p) for p in PEAKS], hough=window,
                ransac=dict(top_n_candidate=9, ransac_tolerance=0.3))
    for v in (12, 30, 50):
        for k in (0.4 / 92, 0.9 / 92):
            f = [4001.0 + v * v * k, -2 * v * k, k]
            out["turns_up_%s_%s" % (v, round(k, 4))] = P(
                [4000.0, 1.0, 0.0001], PEAKS, missing=[37], ctol=80.0,
                decoys=[fitlib.poly(f, p) for p in PEAKS], hough=window,
                ransac=dict(top_n_candidate=9, ransac_tolerance=0.3))
    # straight lines that decrease
    for m in (-1.0, -0.2):
        f = [4003.0, m]
        out["decreasing_%s" % m] = P(
            [4000.0, 1.0], PEAKS, missing=[37], ctol=250.0,
            decoys=[fitlib.poly(f, p) for p in PEAKS], hough=window,
            ransac=dict(top_n_candidate=12, ransac_tolerance=0.1))
    # a cubic that decreases in the middle
    for c in (0.0015, 0.002, 0.003):
        mid = 50
        f = [4000.0 - c * 20 * 50 * 80 + 5.0, 1.0 + c * (20 * 50 + 20 * 80
                                                         + 50 * 80),
             -c * 150.0, c]
        q = [15, 30, 45, mid, 55, 70, 85]
        out["wave_%s" % c] = P(
            [4000.0, 1.0, 0.0, 1e-7], q, missing=[30], ctol=60.0,
            decoys=[fitlib.poly(f, p) for p in q],
            hough=dict(window, range_tolerance=260.0),
            ransac=dict(top_n_candidate=9, ransac_tolerance=0.2))
    return out


WEIGHTS = [0.0, 1.0, None]


def items(tier, seed):
    its = []
    for n in families():
        for w in range(len(WEIGHTS)):
            its.append(dict(kind="draws", name=n, w=w,
                            limit=150 if tier == "quick" else 3000))
        its.append(dict(kind="brute", name=n, w=1))
    return its


def wrong(r, pb, c):
    """What is not allowed about a result."""
    if isinstance(r, str):
        return None
    k = [float(v) for v in r[0]]
    lo = min(c.min_intercept, c.max_intercept) - 1.0
    hi = max(c.min_intercept, c.max_intercept) + 1.0
    if not lo <= k[0] <= hi:
        return "starts at %s, outside %s and %s" % (k[0], lo, hi)
    a, b = pb.peaks[0], pb.peaks[-1]
    x = [a + (b - a) * i / 400.0 for i in range(401)]
    y = [fitlib.poly(k, v) for v in x]
    for u, v, w in zip(x, y, y[1:]):
        if w <= v:
            return "decreases at the pixel %s" % u
    return None


def run(item, ctx):
    pb = families()[item["name"]]
    w = WEIGHTS[item["w"]]
    over = dict(ransac={} if w is None else dict(hough_weight=w))
    if item["kind"] == "brute":
        def go():
            c = fitlib.calibrator(pb, **over)
            return fitlib.fit(c, pb, brute_force=True), c

        ok, r = ctx.guard(item, go)
        ctx.count("transitions")
        if ok:
            judge(item, ctx, pb, r[0], r[1], [])
        return
    depth = pb.ransac["sample_size"] + 1
    it = fitlib.runs(pb, depth, limit=item["limit"], over=over, hyp=True,
                     budget=6000)
    while True:
        ok, nxt = ctx.guard(item, next, it, None)
        if not ok or nxt is None:
            break
        picks, r, c, ctl, hyp = nxt
        ctx.count("transitions", len(ctl.points))
        ctx.count("refused_samples", len(hyp) - 1)
        judge(item, ctx, pb, r, c, picks)
        if ctx.stop:
            return
    ctx.sample(item)


def judge(item, ctx, pb, r, c, picks):
    case = dict(item, picks=picks)
    ctx.count("traces_validated_against_impl")
    ctx.state(case)
    ctx.count("solutions", not isinstance(r, str))
    e = wrong(r, pb, c)
    if e:
        ctx.violation("the solution %s %s" % (fitlib.plain(r)[0], e), case)
