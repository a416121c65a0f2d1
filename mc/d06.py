"""D06: known pairs anchor every solution."""
import itertools

from . import core, fitlib

ID = "D06"
LEVEL = "model_checking"
RULE = (
    "two families of lines explain the peaks, the favourite one better than "
    "the other; a known pair (one of several, inside or outside of the "
    "detector, alone or two of them) lies on the curve of the other. Every "
    "schedule of the draws and the exhaustive search are explored: no result "
    "may follow the family that contradicts the known pairs. Plus all the "
    "histories (depth <= 3) of setting the known pairs, against a map."
)
BOUNDS = "degree 1 and 2, 2 + 9 anchors, first sample of each try complete"
ASSUMPTIONS = ["the known pair is far from the curve of the other family"]

P = [10, 25, 47, 81]


def problem(deg, known):
    hough = dict(range_tolerance=60.0, linearity_tolerance=30.0)
    if deg == 1:
        b = [4030.0, 10.3]
        pb = fitlib.Problem([4000.0, 10.0], P, ctol=40.0, hough=hough,
                            decoys=[fitlib.poly(b, fitlib.place(p))
                                    for p in P[:3]])
    else:
        b = [4030.0, 9.3, 0.01]
        peaks = [8, 20, 37, 55, 90]
        pb = fitlib.Problem([4000.0, 9.0, 0.01], peaks, ctol=60.0,
                            hough=hough,
                            decoys=[fitlib.poly(b, fitlib.place(p))
                                    for p in peaks[:4]])
    pb.other = b
    pb.ransac["top_n_candidate"] = 4
    if known is not None:
        pix = [k for k in known]
        pb.known = (pix, [fitlib.poly(b, x) for x in pix])
    return pb


ANCHORS = [None, [-300.0], [-50.0], [0.0], [30.0], [99.0], [150.0], [400.0],
           [-50.0, 150.0], [30.0, 60.0], [-1000.0, 0.0, 1000.0]]


def items(tier, seed):
    its = []
    for deg in (1, 2):
        for a in range(len(ANCHORS)):
            if deg == 2 and ANCHORS[a] is not None and not all(
                    0 <= x <= 99 for x in ANCHORS[a]):
                # a parabola can follow both a remote anchor and the peaks
                continue
            its.append(dict(kind="brute", deg=deg, anchor=a))
            for tries in (1, 2):
                its.append(dict(kind="tree", deg=deg, anchor=a, tries=tries,
                                limit=80 if tier == "quick" else 4000))
    its += [dict(kind="api", first=i) for i in range(len(SETS))]
    return its


def family(r, pb):
    """Which curve a result follows: 'main', 'other' or 'none'."""
    if isinstance(r, str):
        return "none"
    c = [float(v) for v in r[0]]
    xs = pb.true_peaks
    for name, k in (("main", pb.coeff), ("other", pb.other)):
        if all(abs(fitlib.poly(c, x) - fitlib.poly(k, x)) < 3.0 for x in xs):
            return name
    return "none"


def run(item, ctx):
    if item["kind"] == "api":
        return run_api(item, ctx)
    known = ANCHORS[item["anchor"]]
    pb = problem(item["deg"], known)
    seen = set()
    if item["kind"] == "brute":
        ctx.count("transitions", 2)
        ctx.count("traces_validated_against_impl")
        ctx.state(item)

        def go():
            c = fitlib.calibrator(pb)
            return fitlib.fit(c, pb, brute_force=True), c

        ok, r = ctx.guard(item, go)
        if not ok:
            return
        r, c = r
        want = "main" if known is None else "other"
        if family(r, pb) != want:
            ctx.violation("the exhaustive search follows the %s family, "
                          "expected the %s one: %s"
                          % (family(r, pb), want, fitlib.plain(r)), item)
        e = fitlib.sound(r, pb, c)
        if e:
            ctx.violation(e, item)
        return
    it = fitlib.runs(pb, (item["deg"] + 2) * item["tries"], item["limit"],
                     max_tries=item["tries"], budget=None)
    while True:
        ok, nxt = ctx.guard(item, next, it, None)
        if not ok or nxt is None:
            break
        picks, r, c, ctl, _ = nxt
        ctx.count("transitions", len(ctl.points))
        ctx.count("traces_validated_against_impl")
        for i in range(len(picks) + 1):
            ctx.state([item, picks[:i]])
        f = family(r, pb)
        seen.add(f)
        if known is not None and f == "main":
            ctx.violation("the result contradicts the known pairs: %s"
                          % fitlib.plain(r), dict(item, picks=picks))
        e = fitlib.sound(r, pb, c)
        if e:
            ctx.violation(e, dict(item, picks=picks))
        if ctx.stop:
            break
    ctx.sample(dict(item=item, families=sorted(seen)))
    for f in seen:
        ctx.count("reached_" + f)


SETS = [
    [[10.123456789], [4101.3456789012]],
    [10, 4130],
    [[5, 6.5], [4081, 4096.5]],
    [[], []],
    ["default"],
    [[1.0, 2.0], [4000.0]],
    [[float("nan")], [4000.0]],
    [[1.0], [float("nan")]],
    ["array", [3.0, 4.0], [4060.0, 4071.0]],
    [["x"], [4000.0]],
]


def run_api(item, ctx):
    import numpy as np

    pb = fitlib.PROBLEMS["line"]

    def go(hist):
        c = fitlib.calibrator(pb)
        want = None
        for s in hist:
            bad = False
            if s == ["default"]:
                c.set_known_pairs()
                want = ([], [])
                continue
            if s[0] == "array":
                a, b = np.array(s[1]), np.array(s[2])
            else:
                a, b = s
            fa = [a] if np.isscalar(a) else list(a)
            fb = [b] if np.isscalar(b) else list(b)
            bad = len(fa) != len(fb) or any(
                isinstance(v, str) or v != v for v in fa + fb)
            try:
                c.set_known_pairs(a, b)
            except (AssertionError, ValueError, TypeError):
                if not bad:
                    raise core.Violation("known pairs %s are rejected" % (s,))
            else:
                if bad:
                    raise core.Violation("known pairs %s are accepted" % (s,))
                want = ([float(v) for v in fa], [float(v) for v in fb])
            got = (None if c.pix_known is None else (
                list(map(float, c.pix_known)), list(map(float, c.wave_known))))
            if got != want:
                raise core.Violation("known pairs %s, expected %s"
                                     % (got, want))
        return want

    for n in (0, 1, 2):
        for rest in itertools.product(SETS, repeat=n):
            hist = [SETS[item["first"]]] + list(rest)
            ctx.count("transitions", len(hist))
            ctx.count("traces_validated_against_impl")
            ok, w = ctx.guard(dict(history=hist), go, hist)
            if ok:
                ctx.state(["known", w])
            if ctx.stop:
                return
