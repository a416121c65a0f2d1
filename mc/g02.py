"""G02: the plots show the calibration, with either library."""
import itertools
import math

from . import core, fitlib, plotutil

ID = "G02"
LEVEL = "exploration"
RULE = (
    "every combination of library x plot x spectrum (kept, given, none) x "
    "logarithm x solution x tolerance x pixel list (contiguous, gap) x lines "
    "x number of candidates x settings of the Hough space; the figure is read "
    "back (all its points, curves and segments) and compared with the "
    "calibration. Non-trivial: the figure holds the quantities of a solution."
)
BOUNDS = "3 problems, 2 libraries, all the options of the 3 plots"
ASSUMPTIONS = [
    "matplotlib's artists and plotly's JSON are what is drawn",
    "at least one peak lies within the tolerance of the atlas",
]

NAMES = ["line_extra", "quad_extra", "quad_noise"]
PIXELS = ["all", "gap"]


def items(tier, seed):
    its = []
    for n, lib, px in itertools.product(NAMES, ("matplotlib", "plotly"),
                                        PIXELS):
        for s in (True, False):
            its.append(dict(kind="fit", name=n, lib=lib, pixels=px,
                            spectrum=s, tier=tier))
        its.append(dict(kind="search", name=n, lib=lib, pixels=px, tier=tier))
        its.append(dict(kind="arc", name=n, lib=lib, pixels=px, tier=tier))
    return its


def pixel_list(name, pb):
    n = pb.num_pix
    if name == "all":
        return [float(i) for i in range(n)]
    # gaps between three chips: between the peaks, and beyond them
    return [float(i) for i in list(range(26)) + list(range(37, n)) +
            list(range(n + 30, n + 50))]


def spectrum_of(pb, px, seed=1):
    out = []
    for i, p in enumerate(px):
        out.append(3.0 + ((i * 37 * seed) % 11) / 7.0 + sum(
            400.0 * (1 + k) * math.exp(-(p - q) ** 2 / 4.0)
            for k, q in enumerate(pb.peaks)))
    return out


CACHE = {}


def calibrator(pb, lib, pixels, spectrum):
    key = (id(pb), pixels, spectrum)
    if key not in CACHE:
        from rascal.calibrator import Calibrator

        px = pixel_list(pixels, pb)
        import numpy as np

        c = Calibrator(list(pb.peaks), spectrum=np.array(
            spectrum_of(pb, px)) if spectrum else None)
        c.set_calibrator_properties(num_pix=len(px), log_level="critical")
        c.set_calibrator_properties(pixel_list=px, log_level="critical")
        h = dict(pb.hough)
        h["max_wavelength"] = fitlib.poly(pb.coeff, px[-1])
        c.set_hough_properties(**h)
        c.set_ransac_properties(**pb.ransac)
        c.set_atlas(fitlib.atlas(pb), candidate_tolerance=pb.ctol)
        c.do_hough_transform()
        fitlib.fit(c, pb, brute_force=True)
        CACHE[key] = c
    c = fitlib.clone(CACHE[key])
    getattr(c, "use_" + lib)()
    return c


def draw(c, plot, **kw):
    """Returns the Figure, read back."""
    lib = c.which_plotting_library()
    if lib == "matplotlib":
        import matplotlib.pyplot as plt

        plt.close("all")
        fig = getattr(c, plot)(display=False, **kw)
        out = plotutil.from_matplotlib(fig)
        plt.close("all")
        return out
    return plotutil.from_plotly(
        getattr(c, plot)(display=False, return_jsonstring=True, **kw))


def run(item, ctx):
    pb = fitlib.PROBLEMS[item["name"]]
    {"fit": run_fit, "search": run_search, "arc": run_arc}[item["kind"]](
        item, ctx, pb)


def run_fit(item, ctx, pb):
    import numpy as np

    px = pixel_list(item["pixels"], pb)
    given = (None, "list", "array") if item["spectrum"] else (None, "array")
    shifts = (None, 0.0, 0.4, -2.0)
    for g, log, atlas, tol, sh in itertools.product(
            given, (False, True), (True, False), (5.0, 0.8), shifts):
        if item["tier"] == "quick" and (g == "list" or not atlas) and (
                sh == -2.0 or tol != 5.0):
            continue
        case = dict(item, given=g, log=log, atlas=atlas, tol=tol, shift=sh)

        coeff = [float(v) for v in calibrator(
            pb, item["lib"], item["pixels"], item["spectrum"]).fit_coeff]
        coeff[0] += sh or 0.0
        if item["lib"] == "matplotlib":
            pairs = None
        else:
            pairs = []
            for p in pb.peaks:
                x = fitlib.poly(coeff, p)
                w = min(pb.lines, key=lambda w: abs(w - x))
                if abs(w - x) < tol:
                    pairs.append((p, w))
            if not pairs:
                continue

        def go():
            c = calibrator(pb, item["lib"], item["pixels"], item["spectrum"])
            kw = {}
            spec = spectrum_of(pb, px) if item["spectrum"] else None
            if g:
                spec = spectrum_of(pb, px, 5)
                if g == "list":
                    spec = [float(int(v)) for v in spec]
                kw["spectrum"] = list(spec) if g == "list" else np.array(spec)
            if sh is not None:
                kw["fit_coeff"] = np.array(coeff)
            return c, spec, draw(
                c, "plot_fit", log_spectrum=log, plot_atlas=atlas,
                tolerance=tol, **kw)

        ctx.count("evaluations")
        ok, r = ctx.guard(case, go)
        if ctx.stop:
            return
        if not ok:
            continue
        ctx.key(case)
        c, spec, fig = r

        def fail(what):
            ctx.violation("the plot of the fit lacks " + what, case)

        wave = [fitlib.poly(coeff, p) for p in px]
        if pairs is None:
            pairs = sorted(zip(map(float, c.matched_peaks),
                               map(float, c.matched_atlas)))
        fitted = [(fitlib.poly(coeff, p), w - fitlib.poly(coeff, p))
                  for p, w in pairs]
        if not plotutil.has(fig.points, fitted):
            fail("the residuals %s; there is %s" % (fitted, fig.points))
        if not plotutil.has(fig.points, [(x, p) for (x, _), (p, _) in
                                         zip(fitted, pairs)]):
            fail("the fitted peaks")
        if not plotutil.has(fig.curves, list(zip(wave, px)),
                            plotutil.same_curve):
            fail("the solution")
        rms = math.sqrt(sum(e * e for _, e in fitted) / len(fitted))
        for v in (rms, -rms, 0.0):
            if not plotutil.has_level(fig, v, min(wave), max(wave)):
                fail("the level %s of the residuals" % v)
        peaks = [fitlib.poly(coeff, p) for p in pb.peaks]
        if spec is not None:
            s = [math.log10(v) for v in spec] if log else spec
            if not plotutil.has(fig.curves, list(zip(wave, s)),
                                plotutil.same_curve):
                fail("the spectrum")
            if not has_flux(fig, item["lib"], pairs, coeff, px, s):
                fail("the flux of the fitted peaks")
            if not plotutil.has_marks(fig, peaks):
                fail("the detected peaks at %s" % peaks)
        if item["lib"] == "matplotlib":
            if plotutil.has_marks(fig, pb.lines) != atlas:
                ctx.violation("the lines of the atlas are drawn: %s, asked "
                              "for: %s" % (not atlas, atlas), case)
            want = ["X:%1.2f" % w for _, w in pairs]
            if sorted(fig.texts) != sorted(want):
                fail("the names %s of the lines; there is %s"
                     % (want, fig.texts))
        if (item["lib"] == "matplotlib" or spec is not None) and not any(
                "ixel" in str(b) for _, b in fig.labels):
            fail("the label of the pixels: %s" % fig.labels)
    ctx.sample(case)


def has_flux(fig, lib, pairs, coeff, px, s):
    """The fitted peaks are drawn at (or from) their flux."""
    want = []
    for p, _ in pairs:
        near = [v for q, v in zip(px, s) if abs(q - p) < 1]
        want.append((fitlib.poly(coeff, p), min(near), max(near)))
    if lib == "plotly":
        groups = fig.points
    else:
        groups = [[(g[0], min(g[1], g[3])) for seg in fig.segments
                   for g in seg if g[0] == g[2]]]
    for pts in groups:
        if lib == "plotly" and len(pts) != len(want):
            continue
        if all(any(abs(x - a) <= 1e-6 * (1 + abs(a)) and
                   lo - 1e-9 <= y <= hi + 1e-9 for x, y in pts)
               for a, lo, hi in want):
            return True
    return False


def run_search(item, ctx, pb):
    px = pixel_list(item["pixels"], pb)
    for top, weighted, sh, rng, changed in itertools.product(
            (1, 2, 10), (True, False), (None, 0.0, 15.0), (20.0, 35.0),
            (False, True)):
        if item["tier"] == "quick" and changed and (top == 2 or sh == 15.0):
            continue
        case = dict(item, top=top, weighted=weighted, shift=sh, range=rng,
                    changed=changed)

        def go():
            c = calibrator(pb, item["lib"], item["pixels"], True)
            c.set_hough_properties(range_tolerance=rng)
            lines = list(pb.lines)
            if changed:
                c.set_atlas(fitlib.atlas(pb), candidate_tolerance=pb.ctol)
                c.do_hough_transform()
                fitlib.fit(c, pb, brute_force=True)
            coeff = None
            if sh is not None:
                coeff = [float(v) for v in pb.coeff]
                coeff[0] += sh
            return c, coeff, draw(c, "plot_search_space", fit_coeff=coeff,
                                  top_n_candidate=top, weighted=weighted)

        ctx.count("evaluations")
        ok, r = ctx.guard(case, go)
        if ctx.stop:
            return
        if not ok:
            continue
        ctx.key(case)
        c, coeff, fig = r

        def fail(what):
            ctx.violation("the plot of the search space lacks " + what, case)

        allp = [(p, w) for p in pb.peaks for w in pb.lines]
        if not plotutil.has(fig.points, allp):
            fail("the pairs")
        # candidates: pairs next to a line of the Hough space
        hl = [(float(a), float(b)) for a, b in c.hough_lines]
        cand = []
        open_ = []
        for p, w in allp:
            d = [abs(m * p + b - w) for m, b in hl]
            if any(abs(v - pb.ctol) < 1e-6 for v in d):
                open_.append((p, w))
            elif min(d) < pb.ctol:
                cand.append((p, w))
        if not open_ and not any(
                set((round(x, 6), round(y, 6)) for x, y in pts)
                == set((round(x, 6), round(y, 6)) for x, y in cand)
                for pts in fig.points):
            fail("the candidate pairs %s" % cand)
        if not open_ and not any(best(pts, cand, hl, pb, top, weighted, rng)
                                 for pts in fig.points):
            fail("the best %d pairs of %s; there is %s"
                 % (top, cand, fig.points))
        lo, hi = c.min_wavelength, c.max_wavelength
        for v in (lo, lo + rng, lo - rng, hi, hi + rng, hi - rng):
            if not plotutil.has_level(fig, v, 0.0, px[-1]):
                fail("the limit %s" % v)
        m = (hi - lo) / px[-1]
        for d in (0.0, rng, -rng):
            if not plotutil.has(fig.curves, [(p, lo + d + m * p) for p in px],
                                plotutil.same_curve):
                fail("the straight line through %s" % (lo + d))
        sol = [(p, fitlib.poly(coeff or pb.coeff, p)) for p in pb.peaks]
        if coeff is not None and not plotutil.has(fig.points, sol):
            fail("the solution")
        if fig.labels and not any("ixel" in str(a) and "avelength" in str(b)
                                  for a, b in fig.labels):
            fail("the labels of the axes: %s" % fig.labels)
    ctx.sample(case)


def best(pts, cand, hl, pb, top, weighted, rng):
    """Whether these are the N most supported lines of each peak."""
    votes = {}
    for m, b in hl:
        for p, w in cand:
            d = abs(m * p + b - w)
            if d < pb.ctol:
                g = math.exp(-d * d / (2 * rng * rng)) if weighted else 1.0
                votes[(p, w)] = votes.get((p, w), 0.0) + g
    got = {}
    for x, y in pts:
        key = [k for k in votes if abs(k[0] - x) < 1e-6
               and abs(k[1] - y) < 1e-6]
        if not key:
            return False
        got.setdefault(key[0][0], []).append(key[0])
    if len(pts) != len(set(k for v in got.values() for k in v)):
        return False
    for p in set(k[0] for k in votes):
        mine = sorted((v for k, v in votes.items() if k[0] == p),
                      reverse=True)
        g = got.get(p, [])
        if len(g) != min(top, len(mine)):
            return False
        low = mine[len(g) - 1]
        if any(votes[k] < low - 1e-6 for k in g):
            return False
    return True


def run_arc(item, ctx, pb):
    import numpy as np

    px = pixel_list(item["pixels"], pb)
    for kept, log, given in itertools.product(
            ("array", "list", None), (False, True), (None, "list", "array")):
        case = dict(item, kept=kept, log=log, given=given)
        x = [3.0 * p + 1 for p in range(len(px))]

        def go():
            c = calibrator(pb, item["lib"], item["pixels"], True)
            s = spectrum_of(pb, px, 3)
            c.spectrum = None if kept is None else s if kept == "list" \
                else np.array(s)
            kw = {}
            if given:
                kw["pixel_list"] = x if given == "list" else np.array(x)
            return s, draw(c, "plot_arc", log_spectrum=log, **kw)

        ctx.count("evaluations")
        ok, r = ctx.guard(case, go)
        if ctx.stop:
            return
        if not ok:
            continue
        ctx.key(case)
        s, fig = r
        top = max(s)
        y = [math.log10(v / top) if log else v / top for v in s]
        at = x if given else [float(i) for i in range(len(px))]
        if kept and not plotutil.has(fig.curves, list(zip(at, y)),
                                     plotutil.same_curve):
            ctx.violation("the plot of the arc lacks the spectrum", case)
        if not kept and item["lib"] == "matplotlib":
            continue
        if not plotutil.has_marks(fig, pb.peaks):
            ctx.violation("the plot of the arc lacks the peaks", case)
        if not plotutil.has_marks(fig, pb.peaks, seen=True):
            ctx.violation("the peaks lie outside the axes %s of the plot of "
                          "the arc" % fig.windows, case)
        if kept and not any(
                w[0] <= min(at) + 1e-9 and w[1] >= max(at) - 1e-9
                for w in fig.windows):
            ctx.violation("the spectrum from %s to %s lies outside the axes "
                          "%s" % (min(at), max(at), fig.windows), case)
    ctx.sample(case)
