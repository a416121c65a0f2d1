"""Calibration problems and monitors shared by the checks of the solver."""
from . import core, rng


def poly(coeff, x):
    r = 0.0
    for c in reversed(coeff):
        r = r * x + c
    return r


def place(p):
    """Peaks are never on whole pixels: an integer stands for one near it."""
    return p + (p * 7919 % 97 - 48) / 997 if isinstance(p, int) else p


class Problem:
    """
    A spectrograph with a known solution. `peaks` are the detected peaks,
    `lines` the atlas lines; both may hold intruders.
    """

    def __init__(self, coeff, peaks, extra_peaks=(), missing=(), decoys=(),
                 noise=None, num_pix=100, hough=None, ransac=None, fit=None,
                 ctol=10.0, known=None, guess=None):
        peaks, extra_peaks, missing = [
            [place(p) for p in ps] for ps in (peaks, extra_peaks, missing)]
        self.coeff = list(coeff)
        self.true_peaks = [float(p) for p in peaks]
        noise = noise or [0.0] * len(peaks)
        self.truth = {
            float(p): poly(coeff, p) + n for p, n in zip(peaks, noise)
        }
        self.missing = [float(p) for p in missing]
        self.peaks = sorted(self.true_peaks + [float(p) for p in extra_peaks])
        self.lines = sorted(
            [w for p, w in self.truth.items() if p not in self.missing]
            + [float(d) for d in decoys]
        )
        for p in self.missing:
            del self.truth[p]
        self.num_pix = num_pix
        self.ctol = ctol
        lo, hi = poly(coeff, 0), poly(coeff, num_pix - 1)
        self.hough = dict(
            num_slopes=60, xbins=4, ybins=4, min_wavelength=lo,
            max_wavelength=hi, range_tolerance=20.0, linearity_tolerance=10.0,
        )
        self.hough.update(hough or {})
        self.ransac = dict(
            sample_size=len(coeff), top_n_candidate=3, linear=True,
            filter_close=False, ransac_tolerance=1.0, candidate_weighted=True,
            hough_weight=1.0, minimum_fit_error=0.0,
        )
        self.ransac.update(ransac or {})
        self.fit = dict(
            max_tries=1, fit_deg=len(coeff) - 1, candidate_tolerance=ctol,
            progress=False,
        )
        self.fit.update(fit or {})
        self.known = known
        self.guess = guess


PROBLEMS = {
    # degree 1
    "line": Problem([4000.0, 10.0], [10, 25, 47, 81],
                    decoys=[4131.0, 4480.0]),
    "line_extra": Problem([4000.0, 10.0], [10, 25, 47, 81],
                          extra_peaks=[60.0], decoys=[4131.0, 4610.0]),
    # degree 2
    "quad": Problem([4000.0, 9.0, 0.01], [8, 20, 37, 55, 90],
                    decoys=[4195.0, 4530.0], hough=dict(
                        linearity_tolerance=20.0), ctol=25.0),
    "quad_extra": Problem([4000.0, 9.0, 0.01], [8, 20, 37, 55, 90],
                          extra_peaks=[71.0], missing=[],
                          decoys=[4195.0, 4700.0], hough=dict(
                              linearity_tolerance=20.0), ctol=25.0),
    "quad_missing": Problem([4000.0, 9.0, 0.01], [8, 20, 37, 55, 71, 90],
                            missing=[37], decoys=[4195.0], hough=dict(
                                linearity_tolerance=20.0), ctol=25.0),
    "quad_noise": Problem([4000.0, 9.0, 0.01], [8, 20, 37, 55, 90],
                          noise=[0.1, -0.2, 0.15, -0.1, 0.05],
                          decoys=[4195.0, 4530.0], hough=dict(
                              linearity_tolerance=20.0), ctol=25.0),
    "line_over": Problem([4000.0, 10.0], [10, 25, 47, 81],
                         decoys=[4131.0], ransac=dict(sample_size=3)),
    # cubic
    "cubic": Problem([4000.0, 9.0, 0.01, 5e-5], [5, 20, 37, 55, 71, 90],
                     decoys=[4195.0], hough=dict(
                         linearity_tolerance=30.0), ctol=50.0,
                     ransac=dict(top_n_candidate=2)),
}


def atlas(pb):
    from rascal.atlas import Atlas

    a = Atlas()
    if pb.lines:
        a.add_user_atlas(["X"] * len(pb.lines), list(pb.lines))
    return a


def calibrator(pb, **over):
    """A configured Calibrator of a problem, ready for fit()."""
    from rascal.calibrator import Calibrator

    c = Calibrator(peaks=list(pb.peaks))
    c.set_calibrator_properties(num_pix=pb.num_pix, log_level="critical")
    c.set_hough_properties(**dict(pb.hough, **over.get("hough", {})))
    c.set_ransac_properties(**dict(pb.ransac, **over.get("ransac", {})))
    c.set_atlas(over.get("atlas") or atlas(pb), candidate_tolerance=pb.ctol)
    if pb.known is not None:
        c.set_known_pairs(*pb.known)
    return c


NOFIT = "no fit"


def fit(c, pb, **over):
    """The result of fit(), or NOFIT if it declares that there is none."""
    kw = dict(pb.fit, **over)
    if pb.guess is not None and "fit_coeff" not in kw:
        kw["fit_coeff"] = list(pb.guess)
    try:
        return c.fit(**kw)
    except AssertionError as e:
        if "fit" in str(e).lower():
            return NOFIT
        raise


def plain(r):
    """Comparable form of a result."""
    if isinstance(r, str):
        return r
    return core.jsonable(
        [r[0], r[1], r[2], float(r[3]),
         None if r[4] is None else list(r[4]), r[5], r[6]])


def seeded_fit(c, pb, seed, **over):
    import numpy as np

    np.random.seed(seed)
    return plain(fit(c, pb, **dict(dict(max_tries=5), **over)))


def is_truth(r, pb, tol=None):
    """All the true pairs and nothing else, on the true curve."""
    if isinstance(r, str):
        return False
    want = sorted((p, w) for p, w in pb.truth.items())
    got = sorted((float(p), float(w)) for p, w in zip(r[1], r[2]))
    if len(want) != len(got):
        return False
    for a, b in zip(want, got):
        if abs(a[0] - b[0]) > 1e-9 or abs(a[1] - b[1]) > 1e-6:
            return False
    tol = tol or pb.ransac["ransac_tolerance"]
    return all(abs(poly(list(r[0]), p) - w) < tol for p, w in want)


def sound(r, pb, c, fit_deg=None, baseline=None, value=poly):
    """Everything a result says about itself, recomputed. None if sound."""
    import math

    if isinstance(r, str):
        return None
    if len(r) != 7:
        return "a result of %d elements" % len(r)
    coeff, mp, ma, rms, res, pu, au = r
    coeff = [float(v) for v in coeff]
    mp = [float(v) for v in mp]
    ma = [float(v) for v in ma]
    res = [] if res is None else [float(v) for v in res]
    deg = pb.fit["fit_deg"] if fit_deg is None else fit_deg
    tol = c.ransac_tolerance
    if len(coeff) != deg + 1:
        return "%d coefficients for degree %d" % (len(coeff), deg)
    if not all(math.isfinite(v) for v in coeff + mp + ma + res):
        return "values that are not finite"
    if len(mp) != len(ma) or len(mp) != len(res):
        return "%d peaks, %d lines and %d residuals" % (
            len(mp), len(ma), len(res))
    if len(set(mp)) != len(mp) or len(set(ma)) != len(ma):
        return "the matches are not one-to-one: %s %s" % (mp, ma)
    for p in mp:
        if not any(abs(p - q) < 1e-9 for q in pb.peaks):
            return "%s is not a peak" % p
    lines = [float(w) for w in c.atlas.get_lines()]
    for w in ma:
        if not any(abs(w - q) < 1e-9 for q in lines):
            return "%s is not a line of the atlas" % w
    is_base = baseline is not None and all(
        abs(a - b) <= 1e-12 * max(1, abs(b)) for a, b in zip(coeff, baseline))
    for p, w, e in zip(mp, ma, res):
        d = value(coeff, p) - w
        if abs(abs(e) - min(abs(d), tol)) > 1e-6:
            return "residual %s of %s -> %s, expected %s" % (e, p, w, d)
        if abs(d) < tol - 1e-6 and abs(e - d) > 1e-6:
            return "residual %s of %s -> %s, expected %s" % (e, p, w, d)
    if res:
        want = math.sqrt(sum(e * e for e in res) / len(res))
        if abs(want - float(rms)) > 1e-6:
            return "rms %s, expected %s" % (rms, want)
    if abs(pu - len(mp) / len(pb.peaks)) > 1e-9:
        return "peak utilisation %s" % pu
    if abs(au - len(ma) / len(lines)) > 1e-9:
        return "atlas utilisation %s" % au
    if not is_base:
        if len(mp) <= deg:
            return "%d matches for degree %d" % (len(mp), deg)
        if len(mp) < min(c.minimum_matches, len(lines), len(pb.peaks)):
            return "%d matches, fewer than %s" % (len(mp), c.minimum_matches)
        if len(mp) < c.minimum_peak_utilisation * len(pb.peaks) - 1e-9:
            return "%d matches of %d peaks, fewer than the fraction %s" % (
                len(mp), len(pb.peaks), c.minimum_peak_utilisation)
        if float(rms) < c.minimum_fit_error:
            return "rms %s below the limit %s" % (rms, c.minimum_fit_error)
    return None


class Hypotheses:
    """Records the samples handed to the exact fit of numpy."""

    def __enter__(self):
        import numpy as np

        self.seen = []
        self.mod = np.polynomial.polynomial
        self.orig = self.mod.polyfit

        def polyfit(x, y, deg, *a, **k):
            self.seen.append((list(map(float, x)), list(map(float, y))))
            return self.orig(x, y, deg, *a, **k)

        self.mod.polyfit = polyfit
        return self

    def __exit__(self, *a):
        self.mod.polyfit = self.orig


def runs(pb, depth, limit=None, first=None, over=None, hyp=False,
         budget=3000, stats=None, **fitkw):
    """
    Every schedule of the draws of fit(), on a fresh Calibrator each time
    (the transform is computed once). Yields (picks, result, calibrator,
    number of choice points, hypotheses).
    """
    base = calibrator(pb, **(over or {}))
    base.do_hough_transform()

    def execute(ctl):
        c = clone(base)
        if hyp:
            with Hypotheses() as h:
                r = fit(c, pb, **fitkw)
            return r, c, ctl, h.seen
        return fit(c, pb, **fitkw), c, ctl, None

    for picks, (r, c, ctl, h) in rng.schedules(
            execute, depth, limit, first, budget, stats):
        yield picks, r, c, ctl, h


def clone(c):
    import copy

    log, c.logger = c.logger, None
    try:
        d = copy.deepcopy(c)
    finally:
        c.logger = log
    d.logger = log
    return d
