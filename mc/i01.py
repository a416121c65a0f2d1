"""I01: from the spectrum to the wavelengths, the parts work together."""
import itertools
import math
import os
import shutil

from . import core, fitlib, refs

ID = "I01"
LEVEL = "exploration"
RULE = (
    "spectra made from a known dispersion are calibrated as the documentation "
    "does: estimates of the peaks are refined, the lines are loaded, the "
    "Hough transform is made (kept, saved and loaded, pairwise, merged), the "
    "solution is fitted, and used (as it is, matched, refined, refitted by "
    "hand). Every combination of degree x lines missing in the atlas x lines "
    "that are not seen x peaks that are no line x source of the lines x "
    "Hough transform x use of the solution. The wavelength of every pixel "
    "is compared with the truth. Non-trivial: distinct problems."
)
BOUNDS = "degrees 1 to 3, 6 or 7 peaks, at most one intruder of each kind"
ASSUMPTIONS = ["noise-free spectra, resolved peaks, exhaustive search",
               "at least degree + 3 true pairs are left"]

BASE = {
    1: ([4000.0, 9.7], [12.3, 40.6, 73.1, 101.8, 140.25, 171.9],
        [4250.0, 5333.0], [88.4], 20.0, 12.0),
    2: ([4000.0, 9.0, 0.004], [12.3, 40.6, 73.1, 101.8, 140.25, 171.9],
        [4250.0, 5200.0], [121.3], 45.0, 45.0),
    3: ([4000.0, 9.0, 0.004, 5e-6],
        [9.4, 33.7, 61.2, 88.9, 117.55, 145.1, 175.8],
        [4500.0], [131.4], 70.0, 75.0),
}
N = 190
SOURCES = ["user", "vacuum", "file", "parts", "calibrator"]
HOUGH = ["fit", "explicit", "npy", "json", "pairwise", "merged"]
USES = ["fit", "match", "refine", "refit", "plots"]


def cases(deg):
    coeff, peaks, decoys, ghosts, _, _ = BASE[deg]
    for miss, dark, decoy, ghost in itertools.product(
            [None, 0, 3], [None, 1], [False, True], [False, True]):
        left = len(peaks) - (miss is not None) - (dark is not None)
        if left >= len(coeff) + 2:
            yield dict(missing=miss, dark=dark, decoy=decoy, ghost=ghost)


def items(tier, seed):
    return [dict(deg=d, source=s, hough=h, tier=tier)
            for d in BASE for s in SOURCES for h in HOUGH]


def air(w):
    return refs.vac2air(w)


def spectrum(positions):
    return [sum(
        (800.0 + 90.0 * k) * math.exp(-(i - p) ** 2 / (2 * 1.9 ** 2))
        for k, p in enumerate(positions)) for i in range(N)]


def load(source, lines, folder):
    """The lines are those of the vacuum."""
    from rascal.atlas import Atlas

    if source == "user" or source == "calibrator":
        a = Atlas()
        a.add_user_atlas(["X"] * len(lines), [air(w) for w in lines])
    elif source == "vacuum":
        a = Atlas()
        a.add_user_atlas(["X"] * len(lines), list(lines), vacuum=True)
    elif source == "parts":
        # in two portions, the second before the first
        a = Atlas()
        for part in (lines[1::2], lines[::2]):
            a.add_user_atlas(["Y"] * len(part), [air(w) for w in part])
    else:
        f = os.path.join(folder, "lines.csv")
        with open(f, "w") as g:
            for k, w in enumerate(lines):
                g.write("%s,%.5f,%d\n" % ("He" if k % 2 else "Xe", w, 20 + k))
                g.write("Kr,%.5f,%d\n" % (w + 31.0, 500))
                g.write("He,%.5f,%d\n" % (w - 17.0, 3))
        a = Atlas(["he", "Xe"], 3900.0, 6200.0, min_intensity=10,
                  min_distance=1, linelist=f)
    return a


def run(item, ctx):
    turn = HOUGH.index(item["hough"]) + SOURCES.index(item["source"])
    for k, (case, use) in enumerate(
            itertools.product(cases(item["deg"]), USES)):
        quick = item["tier"] == "quick"
        if quick and item["deg"] > 1 and (k // len(USES) + turn) % 3:
            # every combination of two of the choices is still there
            continue
        if quick and use != "fit" and \
                item["hough"] != HOUGH[(USES.index(use) + SOURCES.index(
                    item["source"])) % len(HOUGH)]:
            continue
        full = dict(item, use=use, **case)
        ctx.count("evaluations")
        ctx.key(full)
        ctx.guard(full, one, full)
        if ctx.stop:
            return
    ctx.sample(full)


def one(case):
    folder = os.path.join(core.scratch(), "i01_%d" % os.getpid())
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    try:
        chain(case, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def chain(case, folder):
    import numpy as np
    from rascal import util
    from rascal.calibrator import Calibrator
    from rascal.houghtransform import HoughTransform

    coeff, peaks, decoys, ghosts, lin, ctol = BASE[case["deg"]]
    seen = [p for k, p in enumerate(peaks) if k != case["dark"]]
    known = [p for k, p in enumerate(peaks) if k != case["missing"]]
    lines = sorted([fitlib.poly(coeff, p) for p in known]
                   + (decoys if case["decoy"] else []))
    shown = sorted(seen + (ghosts if case["ghost"] else []))

    spec = np.array(spectrum(shown))
    estimates = [int(round(p)) + (1 if k % 2 else 0)
                 for k, p in enumerate(shown)]
    found = util.refine_peaks(spec, estimates, window_width=8)
    if len(found) != len(shown) or np.max(np.abs(
            np.sort(found) - shown)) > 1e-3:
        raise core.Violation("the refined peaks are %s, expected %s"
                             % (list(found), shown))

    c = Calibrator(found, spectrum=spec)
    c.set_calibrator_properties(log_level="critical")
    c.set_hough_properties(
        num_slopes=200, xbins=20, ybins=20, min_wavelength=coeff[0],
        max_wavelength=fitlib.poly(coeff, N - 1), range_tolerance=20.0,
        linearity_tolerance=lin)
    c.set_ransac_properties(
        sample_size=len(coeff), top_n_candidate=2, ransac_tolerance=0.5,
        minimum_fit_error=0.0, filter_close=False)
    a = load(case["source"], lines, folder)
    want = sorted(air(w) for w in lines)
    if len(a) != len(want) or np.max(np.abs(
            np.sort(a.get_lines()) - want)) > 1e-4:
        raise core.Violation("the lines are %s, expected %s"
                             % (a.get_lines(), want))
    if case["source"] == "calibrator":
        c.add_user_atlas(a.get_elements(), a.get_lines(),
                         candidate_tolerance=ctol)
    else:
        c.set_atlas(a, candidate_tolerance=ctol)

    how = case["hough"]
    if how == "pairwise":
        c.do_hough_transform(brute_force=True)
    elif how != "fit":
        c.do_hough_transform()
    if how in ("npy", "json"):
        f = os.path.join(folder, "space")
        c.save_hough_transform(f, fileformat=how)
        d = Calibrator(found, spectrum=spec)
        d.set_calibrator_properties(log_level="critical")
        # what is done to the space in between does not count
        c.ht.bin_hough_points(3, 2)
        c.load_hough_transform(f, filetype=how)
    elif how == "merged":
        other = HoughTransform()
        other.set_constraints(c.min_slope, c.max_slope, c.min_intercept,
                              c.max_intercept)
        other.generate_hough_points(c.pairs[:, 0], c.pairs[:, 1], 50)
        c.ht.add_hough_points(other)
        c.ht.bin_hough_points(25, 25)
        c.hough_points = c.ht.hough_points
        c.hough_lines = c.ht.hough_lines

    r = c.fit(fit_deg=case["deg"], candidate_tolerance=ctol,
              brute_force=True, progress=False)
    use = case["use"]
    if use == "plots":
        import matplotlib.pyplot as plt

        c.plot_arc(display=False)
        c.plot_search_space(display=False)
        c.plot_fit(display=False)
        plt.close("all")
        r = c.match_peaks(tolerance=1.0, robust_refit=False)
    elif use == "match":
        r = c.match_peaks(tolerance=2.0)
    elif use == "refine":
        c.match_peaks(refine=True, n_delta=1, tolerance=2.0,
                      robust_refit=False)
        r = c.match_peaks(tolerance=1.0)
    elif use == "refit":
        c.match_peaks(tolerance=1.0)
        # a pair that the user adds, and one that is taken away
        p = peaks[-1] + 7.0
        c.add_pix_wave_pair(p, air(fitlib.poly(coeff, p)))
        c.remove_pix_wave_pair(1)
        r = c.manual_refit()
    got = np.polynomial.polynomial.polyval(
        np.arange(N, dtype=float), np.asarray(r[0], dtype=float))
    truth = np.array([air(fitlib.poly(coeff, i)) for i in range(N)])
    bad = float(np.max(np.abs(got - truth)))
    if not bad < 0.1:
        raise core.Violation("the wavelengths are wrong by %s: %s"
                             % (bad, fitlib.plain(list(r) + [0, 0])))
    # the pairs
    pairs = {(round(float(p), 1), round(float(w), 2))
             for p, w in zip(r[1], r[2])}
    want = {p for k, p in enumerate(peaks)
            if k not in (case["dark"], case["missing"])}
    if use == "refit":
        want = set(sorted(want)[:1] + sorted(want)[2:] + [peaks[-1] + 7.0])
    want = {(round(p, 1), round(air(fitlib.poly(coeff, p)), 2))
            for p in want}
    near = [(a, b) for a in pairs ^ want for b in pairs ^ want
            if a != b and abs(a[0] - b[0]) < 0.15 and abs(a[1] - b[1]) < 0.02]
    if len(pairs) != len(want) or (pairs ^ want) - {x for n in near
                                                    for x in n}:
        raise core.Violation("the pairs are %s, expected %s"
                             % (sorted(pairs), sorted(want)))
