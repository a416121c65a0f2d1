"""C02: the search window holds every spectrograph within the tolerances."""
import itertools

from . import core, fitlib

ID = "C02"
LEVEL = "model_checking"
RULE = (
    "every combination of pixel range, wavelength range and tolerances x "
    "every corner of the spectrographs that they allow (wavelength at either "
    "end off by -1, 0 or +1 times the tolerance): its straight line is in the "
    "window, the Hough points of its pairs come out next to it, and no Hough "
    "point leaves the window; states are the windows."
)
BOUNDS = "5 pixel ranges x 4 wavelength ranges x 4 x 3 tolerances x 9 " \
         "spectrographs x 3 orders of the setters"
ASSUMPTIONS = ["the first pixel of the list is next to pixel 0"]

PIXELS = [dict(num_pix=100), dict(num_pix=1024), dict(num_pix=5),
          dict(pixel_list=[0, 1, 2, 3, 50, 51, 52, 199]),
          dict(pixel_list=[0.0, 0.5, 1.0, 1.5, 30.5])]
RANGES = [(3000.0, 9000.0), (4000.0, 4500.0), (0.0, 200.0), (9000.0, 10000.0)]
RTOL = [0.5, 20.0, 300.0, 900.0]
LTOL = [0.25, 10.0, 100.0]


def items(tier, seed):
    return [dict(pixels=p, range=r, order=o)
            for p in range(len(PIXELS)) for r in range(len(RANGES))
            for o in range(3)]


def calibrator(pix, lo, hi, rt, lt, order, peaks):
    from rascal.calibrator import Calibrator

    c = Calibrator(peaks)
    h = dict(min_wavelength=lo, max_wavelength=hi, range_tolerance=rt,
             linearity_tolerance=lt, num_slopes=81, xbins=40, ybins=40)
    if order == 0:
        c.set_calibrator_properties(**pix)
        c.set_hough_properties(**h)
    elif order == 1:
        c.set_hough_properties(**h)
        c.set_calibrator_properties(**pix)
    else:
        # one by one, after another configuration
        c.set_calibrator_properties(num_pix=77)
        c.set_hough_properties(min_wavelength=1.0, max_wavelength=2.0)
        for k in sorted(h):
            c.set_hough_properties(**{k: h[k]})
        c.set_calibrator_properties(**pix)
    return c


def run(item, ctx):
    import numpy as np
    from rascal.atlas import Atlas

    pix = PIXELS[item["pixels"]]
    lo, hi = RANGES[item["range"]]
    last = max(pix.get("pixel_list", [pix.get("num_pix", 0) - 1]))
    peaks = [0.1 * last, 0.35 * last, 0.5 * last, 0.8 * last]
    for rt, lt in itertools.product(RTOL, LTOL):
        case = dict(item, rt=rt, lt=lt)

        def window():
            c = calibrator(pix, lo, hi, rt, lt, item["order"], list(peaks))
            return c, (c.min_slope, c.max_slope, c.min_intercept,
                       c.max_intercept)

        ctx.count("transitions")
        ok, r = ctx.guard(case, window)
        if ctx.stop:
            return
        if not ok:
            continue
        c, (s0, s1, i0, i1) = r
        ctx.state([s0, s1, i0, i1])
        eps = 1e-9 * (1 + abs(hi))
        want = (((hi - rt - lt) - (lo + rt + lt)) / last,
                ((hi + rt + lt) - (lo - rt - lt)) / last, lo - rt, lo + rt)
        if any(abs(a - b) > eps for a, b in zip((s0, s1, i0, i1), want)):
            ctx.violation("the window is %s, expected %s"
                          % ((s0, s1, i0, i1), want), case)
            continue
        for a, b in itertools.product((-1, 0, 1), repeat=2):
            w0, w1 = lo + a * rt, hi + b * rt
            slope = (w1 - w0) / last
            if slope <= 0:
                continue
            case2 = dict(case, first=w0, last=w1)
            if not (s0 - eps <= slope <= s1 + eps and
                    i0 - eps <= w0 <= i1 + eps):
                ctx.violation("the spectrograph is out of the window %s"
                              % ((s0, s1, i0, i1),), case2)
                continue
            lines = [w0 + slope * p for p in peaks]

            def points():
                at = Atlas()
                at.add_user_atlas(["X"] * len(lines), list(lines))
                c.set_atlas(at)
                c.do_hough_transform()
                return (np.array(c.hough_points), np.array(c.hough_lines),
                        [c.ht.min_slope, c.ht.max_slope, c.ht.min_intercept,
                         c.ht.max_intercept])

            ctx.count("transitions", 2)
            ctx.count("traces_validated_against_impl")
            ok, r = ctx.guard(case2, points)
            if ctx.stop:
                return
            if not ok:
                continue
            hp, hl, lim = r
            if any(abs(p - q) > eps for p, q in zip(lim, (s0, s1, i0, i1))):
                ctx.violation("the limits of the transform are %s, expected "
                              "%s" % (lim, (s0, s1, i0, i1)), case2)
            if len(hp) and not (
                    (hp[:, 0] >= s0 - eps).all()
                    and (hp[:, 0] <= s1 + eps).all()
                    and (hp[:, 1] >= i0 - eps).all()
                    and (hp[:, 1] <= i1 + eps).all()):
                ctx.violation("Hough points are out of the window", case2)
            # one point per true pair within half a step of the slope
            step = (s1 - s0) / 80
            for p, w in zip(peaks, lines):
                reach = step * p * 0.5 + eps
                if abs(a) == 1 and reach > 0:
                    continue  # the point may be cut at the border
                near = (np.abs(hp[:, 0] - slope) <= step * 0.5 + eps) & (
                    np.abs(hp[:, 1] - w0) <= reach) & (
                    np.abs(hp[:, 1] + hp[:, 0] * p - w) <= 1e-6)
                if reach < rt and not near.any():
                    ctx.violation("no Hough point of the pair %s is next to "
                                  "the spectrograph" % ((p, w),), case2)
    ctx.sample(item)
