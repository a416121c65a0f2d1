"""J01: the representation of the numbers does not matter."""
import itertools
import os

from . import core, plotutil

ID = "J01"
LEVEL = "exploration"
RULE = (
    "every step of a calibration is done with its inputs (peaks, spectrum, "
    "pixel list, lines, intensities, known pairs, coefficients, pairs, "
    "settings) in each of the representations: Python and numpy integers and "
    "floats of every size, signed and unsigned, both byte orders (FITS files "
    "are big-endian), lists, tuples, strided, reversed and read-only arrays; "
    "all pairs of representations where a step has two inputs. The numbers "
    "are integers or, for the floats and for lists that mix integers and "
    "floats, halves, so that each holds them exactly. The outputs have to be "
    "those of the Python floats. Non-trivial: another representation."
)
BOUNDS = "one problem per step, <= 255 for the peaks and <= 65535 for the lines"
ASSUMPTIONS = ["results from 32 bit floats may be off by 1e-6 of their value",
               "an input that the documentation does not allow is declared "
               "with an exception, a tuple where it asks for a list or array"]

DTYPES = ["float64", "float32", "int64", "int32", "int16", "uint16", "uint32",
          "uint64", ">f8", ">f4", ">i2", ">i4", ">u2", "uint8", "int8", "<u2"]
FORMS = ["list", "ints", "mixed", "tuple", "npscalars", "npmixed",
         "strided", "readonly", "fortran"] + DTYPES


def whole(x):
    return int(x) if float(x).is_integer() else float(x)


def make(values, form):
    """The values in that representation; None if impossible."""
    import numpy as np

    v = [whole(x) for x in values]
    if form == "list":
        return [float(x) for x in v]
    if form == "ints":
        return v if all(isinstance(x, int) for x in v) else None
    if form == "mixed":
        # integers, and floats if there is no other way
        return None if all(isinstance(x, int) for x in v) else v
    if form == "tuple":
        return tuple(float(x) for x in v)
    if form == "npscalars":
        return [np.int32(x) if k % 2 and isinstance(x, int) else np.float64(x)
                for k, x in enumerate(v)]
    if form == "npmixed":
        return [np.int32(x) if isinstance(x, int) else np.float32(x)
                for x in v]
    if form == "strided":
        a = np.full(2 * len(v), -7.0)
        a[::2] = v
        return a[::2]
    if form == "readonly":
        a = np.array(v, dtype=float)
        a.flags.writeable = False
        return a
    if form == "fortran":
        # a column of a table, reversed twice
        a = np.asfortranarray(np.array([v[::-1], v[::-1]], dtype=float).T)
        return a[::-1, 1]
    a = np.array(v, dtype=form)
    if [whole(x) for x in a] != v:
        return None
    return a


def scalar(value, form):
    import numpy as np

    if form in ("list", "tuple", "strided", "readonly", "fortran"):
        return float(value)
    if form == "ints":
        return int(value)
    if form == "npscalars":
        return np.float64(value)
    if form in ("mixed", "npmixed"):
        return None
    a = np.array([int(value)], dtype=form)[0]
    return a if int(a) == int(value) else None


def fits(values, form):
    try:
        return make(values, form) is not None
    except OverflowError:
        return False


def fits_scalar(value, form):
    try:
        return scalar(value, form) is not None
    except OverflowError:
        return False


PEAKS = [10, 25, 40, 62, 81, 97]
LINES = [4000 + 10 * p for p in PEAKS] + [4131, 4480]
COEFF = [4000, 10]
CENTRES = [20, 60, 97]


def spec():
    import math

    return [int(round(20000 * sum(
        math.exp(-(i - c) ** 2 / 12.5) for c in CENTRES)))
        for i in range(120)]


def small():
    return [v // 200 for v in spec()]


# ---- the steps: name -> (inputs, function of the made inputs) -------------

def s_refine(a, b):
    from rascal.util import refine_peaks

    return refine_peaks(a, b, window_width=9)


def s_air(a):
    from rascal.util import air_to_vacuum_wavelength as f
    from rascal.util import vacuum_to_air_wavelength as g

    return [g(a), f(a), g(a, 288.15, 90000.0, 40.0)]


def s_air1(a):
    return s_air(a)


def s_separation(a):
    from rascal.util import filter_separation

    return [filter_separation(a, d) for d in (0, 5, 30, 100)]


def s_load(a, b, folder):
    """The limits of the lines as numbers."""
    from rascal.util import load_calibration_lines

    p = lists(folder)
    return [list(map(list, load_calibration_lines(
        ["He", "Xe"], linelist=p, min_atlas_wavelength=4000,
        max_atlas_wavelength=4000 + a, min_intensity=b, min_distance=d,
        brightest_n_lines=n, vacuum=v)))
        for d, n, v in itertools.product((0, a), (None, 2), (True, False))]


def s_load2(a, folder):
    """The intensity of each of the elements."""
    from rascal.util import load_calibration_lines

    return [list(map(list, load_calibration_lines(
        ["He", "Xe"], linelist=lists(folder), min_intensity=a, min_distance=0,
        vacuum=v))) for v in (True, False)]


def lists(folder):
    p = os.path.join(folder, "lines.csv")
    with open(p, "w") as f:
        for k in range(8):
            f.write("%s,%d,%d\n" % ("HXHHXXHX"[k].replace("H", "He").replace(
                "X", "Xe"), 4000 + k * k, 10 + 7 * k % 50))
    return p


def s_atlas(a, b):
    from rascal.atlas import Atlas

    t = Atlas()
    t.add_user_atlas(["X"] * len(a), a, b)
    t.add_user_atlas(["Y"] * len(a), a, b, vacuum=True)
    t.remove_atlas_lines_range(a[1], 1)
    return [t.get_lines(), t.get_intensities(), t.min_atlas_wavelength,
            t.max_atlas_wavelength, len(t)]


def s_atlas1(a, b):
    from rascal.atlas import Atlas

    t = Atlas()
    t.add_user_atlas("X", a, b)
    t.add_user_atlas("Y", a, vacuum=True)
    t.add_user_atlas("Z", 4400.0)
    t.remove_atlas_lines_range(a, b)
    return [t.get_lines(), t.get_intensities(), t.min_atlas_wavelength,
            t.max_atlas_wavelength, len(t)]


def ht(x, y, how, folder):
    import numpy as np
    from rascal.houghtransform import HoughTransform

    h = HoughTransform()
    h.set_constraints(8.0, 12.0, 3950.0, 4050.0)
    if how == "brute":
        h.generate_hough_points_brute_force(x, y)
    else:
        h.generate_hough_points(x, y, 9)
    h.bin_hough_points(5, 4)
    g = HoughTransform()
    h.save(os.path.join(folder, "h"), "npy+json")
    g.load(os.path.join(folder, "h"), "json")
    return [h.hough_points, np.sort(h.hist.ravel()), g.hough_points]


def s_ht(x, y, folder):
    return ht(x, y, "slopes", folder)


def s_htbrute(x, y, folder):
    return ht(x, y, "brute", folder)


def s_merge(a, folder):
    import numpy as np
    from rascal.houghtransform import HoughTransform

    h = HoughTransform()
    h.set_constraints(8.0, 12.0, 3950.0, 4050.0)
    h.generate_hough_points(np.array([10.0, 40.0]),
                            np.array([4100.0, 4400.0]), 5)
    pts = np.array(a)
    pts = np.stack((pts[:3], pts[3:]), axis=1)
    pts = pts.astype(np.asarray(a).dtype)
    h.add_hough_points(pts)
    h.bin_hough_points(3, 3)
    h.save(os.path.join(folder, "h"), "npy+json")
    g = HoughTransform()
    g.load(os.path.join(folder, "h"), "npy")
    return [h.hough_points, h.hist, g.hough_points, g.hist]


def s_limits(a, b, folder):
    """The constraints as scalars."""
    import numpy as np
    from rascal.houghtransform import HoughTransform

    h = HoughTransform()
    h.set_constraints(a, 2 * a, b, b + a)
    h.generate_hough_points(np.array([0.0, 40.0]), np.array([4005.0, 4400.0]),
                            9)
    h.bin_hough_points(3, 3)
    out = [h.hough_points]
    for form in ("json", "npy"):
        h.save(os.path.join(folder, "h"), form)
        g = HoughTransform()
        g.load(os.path.join(folder, "h"), form)
        out += [g.hough_points, g.hist, g.min_slope, g.max_slope,
                g.min_intercept, g.max_intercept]
    return out


def calibrator(peaks=None, lines=None, pixels=None, spectrum=None, lo=4000.0,
               num_pix=100):
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    c = Calibrator([float(p) for p in PEAKS] if peaks is None else peaks,
                   spectrum=spectrum)
    c.set_calibrator_properties(num_pix=num_pix, pixel_list=pixels,
                                log_level="critical")
    c.set_hough_properties(num_slopes=50, xbins=10, ybins=10,
                           min_wavelength=lo, max_wavelength=lo + 990,
                           range_tolerance=20.0, linearity_tolerance=10.0)
    c.set_ransac_properties(sample_size=2, top_n_candidate=3,
                            ransac_tolerance=1.0, minimum_fit_error=0.0,
                            filter_close=False)
    t = Atlas()
    lines = [float(w) for w in LINES] if lines is None else lines
    t.add_user_atlas(["X"] * len(lines), lines)
    c.set_atlas(t, candidate_tolerance=10.0)
    return c


def solve(c, **kw):
    import numpy as np

    np.random.seed(5)
    kw = dict(dict(brute_force=True), **kw)
    return c.fit(max_tries=2, fit_deg=1, candidate_tolerance=10.0,
                 progress=False, **kw)


def s_fit(a, b, folder):
    c = calibrator(a, b)
    c.do_hough_transform()
    c.save_hough_transform(os.path.join(folder, "h"), "json")
    c.load_hough_transform(os.path.join(folder, "h"), "json")
    r = solve(c)
    drawn = solve(c, brute_force=False)
    return [c.pairs, r, drawn, c.match_peaks(tolerance=9.0, refine=True, n_delta=1,
                                convergence=1e-2),
            c.get_pix_wave_pairs()]


def s_pixels(a, b):
    """Pixel list and peaks."""
    c = calibrator(b, pixels=a)
    r = solve(c)
    return [c.pixel_list, c.pix_to_rawpix(c.peaks), c.min_slope, c.max_slope,
            r, c.match_peaks(tolerance=9.0, refine=True, convergence=1e-2)]


def s_settings(a, b, folder):
    """Number of pixels and wavelength as scalars."""
    c = calibrator(lo=a, num_pix=b)
    c.do_hough_transform()
    c.save_hough_transform(os.path.join(folder, "h"), "json")
    c.load_hough_transform(os.path.join(folder, "h"), "json")
    r = solve(c)
    return [c.min_slope, c.max_slope, c.min_intercept, c.max_intercept, r]


def s_tolerances(a, b):
    """Tolerances and numbers as scalars."""
    c = calibrator()
    c.set_hough_properties(range_tolerance=b, linearity_tolerance=b)
    c.set_ransac_properties(ransac_tolerance=a, hough_weight=b)
    r = solve(c)
    return [c.min_slope, c.max_slope, r, c.match_peaks(tolerance=b)]


def s_numbers(a, b):
    """Numbers of things as integers."""
    c = calibrator()
    c.set_hough_properties(xbins=b, ybins=b, num_slopes=b)
    c.set_ransac_properties(sample_size=a, top_n_candidate=a,
                            minimum_matches=a)
    return [solve(c)]


def s_known(a, b):
    c = calibrator()
    c.set_known_pairs(a, b)
    return [c.pix_known, c.wave_known, solve(c)]


def s_known1(a, b):
    c = calibrator()
    c.set_known_pairs(a, b)
    return [c.pix_known, c.wave_known, solve(c)]


def s_guess(a):
    c = calibrator()
    r = solve(c, fit_coeff=a)
    return [r, c.match_peaks(a, tolerance=2.0, robust_refit=False),
            c.match_peaks(a, tolerance=9.0, refine=True, n_delta=1,
                                convergence=1e-2),
            c.match_peaks(a, tolerance=2.0)]


def s_refit(a, b):
    c = calibrator()
    solve(c)
    r = c.manual_refit(a, b, degree=1)
    return [r, c.get_pix_wave_pairs()]


def s_edit(a, b):
    c = calibrator()
    solve(c)
    c.add_pix_wave_pair(a, b)
    c.remove_pix_wave_pair(1)
    return [c.get_pix_wave_pairs(), c.manual_refit()]


def s_robust(a, b):
    from rascal.models import robust_polyfit

    return [robust_polyfit(a, b, 1), robust_polyfit(a, b, 2),
            robust_polyfit(a, b, 1, x0=[4000.0, 10.0])]


def s_synthetic(a, b):
    from rascal.synthetic import SyntheticSpectrum

    s = SyntheticSpectrum(a, 4000.0, 5000.0)
    return list(s.get_pixels(b))


def s_plots(a, b):
    """The spectrum and the pixel list in the plots."""
    import matplotlib.pyplot as plt
    from rascal import plotting

    out = []
    n = len(a)
    for lib in ("matplotlib", "plotly"):
        c = calibrator(spectrum=a, pixels=b, num_pix=n)
        c.set_calibrator_properties(plotting_library=lib)
        solve(c)
        for log in (False, True):
            plt.close("all")
            for f in (lambda: plotting.plot_arc(
                        c, log_spectrum=log, display=False,
                        return_jsonstring=True),
                      lambda: plotting.plot_fit(
                        c, c.fit_coeff, spectrum=a,
                        log_spectrum=log, display=False,
                        return_jsonstring=True)):
                r = f()
                d = plotutil.from_plotly(r) if lib == "plotly" else \
                    plotutil.from_matplotlib(plt.gcf())
                plt.close("all")
                out += [d.curves, d.points]
    return out


W6 = LINES[:6]
# the first, and the last, is an integer
HALF = [10, 25.5, 40.5, 62, 81.5, 97.5]
FLAH = [10.5, 25, 40.5, 62.5, 81, 97]
WHALF = [4000 + 10 * p + (0.5 if k % 3 else 0) for k, p in enumerate(PEAKS)]
WFLAH = [4000 + 10 * p + (0 if k % 3 else 0.5) for k, p in enumerate(PEAKS)]
STEPS = {
    "refine": (s_refine, [spec, lambda: [19, 62, 96]]),
    "refine_small": (s_refine, [small, lambda: [21, 59, 97]]),
    "air": (s_air, [lambda: [4000, 5555, 9000]]),
    "air1": (s_air1, [4000]),
    "separation": (s_separation, [lambda: [4000, 4004, 4030, 4100]]),
    "load": (s_load, [30, 20]),
    "load2": (s_load2, [lambda: [30, 20]]),
    "atlas": (s_atlas, [lambda: W6, lambda: [30, 1, 7, 200, 5, 0]]),
    "atlas1": (s_atlas1, [4100, 30]),
    "hough": (s_ht, [lambda: PEAKS, lambda: W6]),
    "hough_pairwise": (s_htbrute, [lambda: PEAKS[::-1], lambda: W6[::-1]]),
    "merge": (s_merge, [lambda: [9, 10, 11, 4000, 4010, 4020]]),
    "limits": (s_limits, [10, 4000]),
    "fit": (s_fit, [lambda: PEAKS, lambda: LINES]),
    "fit_down": (s_fit, [lambda: PEAKS[::-1], lambda: LINES[::-1]]),
    "pixels": (s_pixels, [lambda: list(range(50)) + list(range(55, 105)),
                          lambda: PEAKS]),
    "settings": (s_settings, [4000, 100]),
    "tolerances": (s_tolerances, [3, 20]),
    "numbers": (s_numbers, [3, 20]),
    "known": (s_known, [lambda: [10, 97], lambda: [4100, 4970]]),
    "known1": (s_known1, [10, 4100]),
    "guess": (s_guess, [lambda: COEFF]),
    "refit": (s_refit, [lambda: PEAKS, lambda: W6]),
    "edit": (s_edit, [50, 4500]),
    "robust": (s_robust, [lambda: PEAKS, lambda: [w + k % 3 for k, w in
                                                 enumerate(W6)]]),
    "synthetic": (s_synthetic, [lambda: COEFF, lambda: W6]),
    "synthetic2": (s_synthetic, [lambda: [4000, 9, 0, 1], lambda: W6]),
    "plots": (s_plots, [lambda: [v + 1 for v in small()],
                        lambda: list(range(120))]),
    # not all of the numbers are integers
    "refine_half": (s_refine, [lambda: [v + 0.5 * (k % 3 > 0) for k, v in
                                        enumerate(small())],
                               lambda: [20, 59.5, 97]]),
    "air_half": (s_air, [lambda: WHALF]),
    "separation_half": (s_separation, [lambda: [4000, 4004.5, 4030, 4034.5]]),
    "atlas_half": (s_atlas, [lambda: WHALF,
                             lambda: [30, 1.5, 7.25, 200, 5.5, 0.5]]),
    "atlas_flah": (s_atlas, [lambda: WFLAH,
                             lambda: [0.5, 1, 7.25, 200, 5.5, 3]]),
    "fit_half": (s_fit, [lambda: HALF, lambda: WHALF + [4131, 4480.5]]),
    "fit_flah": (s_fit, [lambda: FLAH, lambda: WFLAH + [4131.5, 4480]]),
    "pixels_half": (s_pixels, [
        lambda: list(range(50)) + [x + 0.5 for x in range(55, 105)],
        lambda: HALF]),
    "known_half": (s_known, [lambda: [10, 97.5], lambda: [4100, 4974.5]]),
    "known_flah": (s_known, [lambda: [10.5, 97], lambda: [4104.5, 4970]]),
    "guess_half": (s_guess, [lambda: [4000, 10.125]]),
    "refit_half": (s_refit, [lambda: HALF, lambda: WHALF]),
    "refit_flah": (s_refit, [lambda: FLAH, lambda: WFLAH]),
    "robust_half": (s_robust, [lambda: HALF, lambda: WHALF]),
    "synthetic_half": (s_synthetic, [lambda: [4000, 9.5, 0.25],
                                     lambda: WHALF]),
    "synthetic_flah": (s_synthetic, [lambda: [4000.5, 10], lambda: WFLAH]),
    "plots_half": (s_plots, [
        lambda: [v + 1 + 0.5 * (k % 3 > 0) for k, v in enumerate(small())],
        lambda: list(range(60)) + [x + 0.5 for x in range(60, 120)]]),
}
# a tuple or a list is not what these document
ARRAYS_ONLY = {"load2", "hough", "merge", "synthetic", "synthetic2"}
SEQ = {"list", "ints", "mixed", "tuple", "npscalars", "npmixed"}


def items(tier, seed):
    return [dict(step=s, form=f, tier=tier) for s in STEPS for f in FORMS]


def forms_of(step, k, form):
    """Whether the k-th input of the step can be given like this."""
    v = STEPS[step][1][k]
    if callable(v):
        if step.split("_")[0] in ARRAYS_ONLY and form in SEQ and not (
                step.startswith(("synthetic", "load"))
                and form != "tuple"):
            return False
        return fits(v(), form)
    if step == "numbers" and ("f" in form or form in ("list", "npscalars")):
        return False
    return form not in ("tuple", "strided", "readonly", "fortran") and \
        fits_scalar(v, form)


def value(step, k, form):
    v = STEPS[step][1][k]
    return make(v(), form) if callable(v) else scalar(v, form)


def plain(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, str):
        return v
    return float(v)


def same(a, b, tol):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y, tol)
                                        for x, y in zip(a, b))
    if a is None or isinstance(a, str) or b is None or isinstance(b, str):
        return a == b
    return a == b or (a != a and b != b) or \
        abs(a - b) <= tol * max(1.0, abs(a))


def call(step, forms, folder):
    args = [value(step, k, f) for k, f in enumerate(forms)]
    before = [plain(a) for a in args]
    f = STEPS[step][0]
    if "folder" in f.__code__.co_varnames[:f.__code__.co_argcount]:
        out = plain(f(*args, folder))
    else:
        out = plain(f(*args))
    if [plain(a) for a in args] != before:
        raise core.Violation("the inputs are modified")
    return out


def run(item, ctx):
    folder = os.path.join(core.scratch(), "j01_%d" % os.getpid())
    os.makedirs(folder, exist_ok=True)
    step = item["step"]
    n = len(STEPS[step][1])
    base = "int64" if step == "numbers" else "float64"
    want = call(step, [base] * n, folder)
    second = FORMS if n == 2 else [None]
    if step.startswith("plots") and item["tier"] == "quick":
        second = ["float64", "ints", "mixed", ">f4", "uint16"]
    for g in second:
        forms = [item["form"]] + ([g] if n == 2 else [])
        if not all(forms_of(step, k, f) for k, f in enumerate(forms)):
            continue
        case = dict(step=step, forms=forms)
        ctx.count("evaluations")
        if set(forms) != {base}:
            ctx.key(case)
        ok, r = ctx.guard(case, call, step, forms, folder)
        if ctx.stop:
            return
        if not ok:
            continue
        tol = 2e-5 if any(
            "f4" in f or f in ("float32", "npmixed") for f in forms) else 1e-9
        if not same(want, r, tol):
            ctx.violation("%s with %s: %s, expected %s"
                          % (step, forms, short(r), short(want)), case)
    ctx.sample(dict(step=step, form=item["form"]))


def short(r):
    return str(r)[:300]
