"""C01: the settings are the last values given, in every history."""
import itertools

from . import core

ID = "C01"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over the histories of the setters of a Calibrator "
    "(one setting at a time, several at once, none, rejected values), with "
    "and without a spectrum; the reference is a map in which the last value "
    "wins; states are deduplicated on all the settings."
)
BOUNDS = "all the histories of 3 of 46 calls (quick: the third call from the " \
         "group of the settings that interact)"
ASSUMPTIONS = ["a single thread configures a Calibrator"]

DEF_H = dict(num_slopes=2000, xbins=100, ybins=100, min_wavelength=3000.0,
             max_wavelength=9000.0, range_tolerance=500,
             linearity_tolerance=100)
DEF_R = dict(sample_size=5, top_n_candidate=5, linear=True,
             filter_close=False, ransac_tolerance=5, candidate_weighted=True,
             hough_weight=1.0, minimum_matches=0, minimum_peak_utilisation=0,
             minimum_fit_error=1e-4)

OPS = []
for _k, _v in (("num_slopes", (10, 20)), ("xbins", (5, 7)), ("ybins", (6, 9)),
               ("min_wavelength", (3500.0, 0.0)),
               ("max_wavelength", (8000.0, 9500.0)),
               ("range_tolerance", (100, 0)),
               ("linearity_tolerance", (50.0, 0.0))):
    OPS += [["h", {_k: v}] for v in _v]
OPS += [["h", {}], ["h", dict(min_wavelength=4000.0, max_wavelength=5000.0,
                              range_tolerance=20.0)]]
for _k, _v in (("sample_size", (3,)), ("top_n_candidate", (1, 8)),
               ("linear", (False, True)), ("filter_close", (True, False)),
               ("ransac_tolerance", (1, 0.0)),
               ("candidate_weighted", (False, True)),
               ("hough_weight", (0.0, 10.0)), ("minimum_matches", (4,)),
               ("minimum_peak_utilisation", (0.5, 0.0)),
               ("minimum_fit_error", (0.0, 0.3))):
    OPS += [["r", {_k: v}] for v in _v]
OPS += [["r", {}], ["bad", dict(minimum_matches=0)],
        ["bad", dict(minimum_matches=-2)],
        ["bad", dict(minimum_peak_utilisation=1.5)],
        ["bad", dict(minimum_peak_utilisation=-0.1)],
        ["bad", dict(minimum_fit_error=-1.0)]]
OPS += [["c", dict(num_pix=50)], ["c", dict(num_pix=200)],
        ["c", dict(pixel_list=[0, 1, 2, 10, 11, 12])],
        ["c", dict(pixel_list=[5.0, 6.0, 7.0, 8.0], num_pix=4)],
        ["c", dict(plotting_library="plotly")],
        ["c", dict(plotting_library="matplotlib")], ["c", {}],
        ["use", "matplotlib"], ["use", "plotly"]]
PEAKS = [5.0, 20.0, 40.0]


def items(tier, seed):
    return [dict(first=i, spectrum=s, deep=tier != "quick")
            for i in range(len(OPS)) for s in (False, True)]


def expected(spectrum, hist):
    m = dict(DEF_H)
    m.update(DEF_R)
    m["num_pix"] = 30 if spectrum else 1.1 * max(PEAKS)
    m["pixel_list"] = numbers(m["num_pix"])
    lib, plot = "matplotlib", "matplotlib"
    for kind, arg in hist:
        if kind in "hr":
            m.update(arg)
        elif kind == "c":
            if "num_pix" in arg:
                m["num_pix"] = arg["num_pix"]
                m["pixel_list"] = numbers(arg["num_pix"])
            if "pixel_list" in arg:
                m["pixel_list"] = list(map(float, arg["pixel_list"]))
            lib = arg.get("plotting_library", lib)
            plot = lib
        elif kind == "use":
            plot = arg
    m["plot"] = plot
    span = max(m["pixel_list"]) - min(m["pixel_list"])
    tol = m["range_tolerance"] + m["linearity_tolerance"]
    lo, hi = m["min_wavelength"], m["max_wavelength"]
    m["min_intercept"] = lo - m["range_tolerance"]
    m["max_intercept"] = lo + m["range_tolerance"]
    m["min_slope"] = ((hi - tol) - (lo + tol)) / span
    m["max_slope"] = ((hi + tol) - (lo - tol)) / span
    return m


def numbers(n):
    import math

    return [float(i) for i in range(int(math.ceil(n)))]


def execute(spectrum, hist):
    import numpy as np
    from rascal.calibrator import Calibrator

    c = Calibrator(list(PEAKS), spectrum=np.ones(30) if spectrum else None)
    for n, (kind, arg) in enumerate(hist):
        last = n == len(hist) - 1
        if kind == "h":
            c.set_hough_properties(**arg)
        elif kind == "r":
            c.set_ransac_properties(**arg)
        elif kind == "c":
            c.set_calibrator_properties(**arg)
        elif kind == "use":
            getattr(c, "use_" + arg)()
        elif kind == "bad":
            try:
                c.set_ransac_properties(**arg)
            except (AssertionError, ValueError):
                pass
            else:
                if last:
                    raise core.Violation("%s is accepted" % (arg,))
    want = expected(spectrum, hist)
    got = {}
    for k in want:
        if k == "plot":
            got[k] = c.which_plotting_library()
        elif k == "pixel_list":
            got[k] = [float(v) for v in c.pixel_list]
        else:
            got[k] = getattr(c, k)
    for k in want:
        a, b = got[k], want[k]
        if isinstance(b, float):
            same = abs(float(a) - b) <= 1e-9 * max(1.0, abs(b))
        else:
            same = a == b
        if not same:
            raise core.Violation("%s is %r, expected %r" % (k, a, b))
    # the position of a pixel in the list
    for i, p in enumerate(want["pixel_list"][:: max(
            1, len(want["pixel_list"]) // 3)]):
        k = want["pixel_list"].index(p)
        if abs(float(c.pix_to_rawpix(p)) - k) > 1e-9:
            raise core.Violation("pixel %s is at position %s, expected %s"
                                 % (p, c.pix_to_rawpix(p), k))
    return want


def run(item, ctx):
    first = OPS[item["first"]]

    def visit(hist):
        ctx.count("transitions", len(hist))
        ctx.count("traces_validated_against_impl")
        ok, m = ctx.guard(dict(spectrum=item["spectrum"], history=hist),
                          execute, item["spectrum"], hist)
        return ok and ctx.state([item["spectrum"], m])

    visit([first])
    for second in OPS:
        new = visit([first, second])
        if ctx.stop:
            return
        if not new and not item["deep"]:
            continue
        for third in OPS:
            if item["deep"] or (third[0] == first[0] and third[0] != "r") or (
                    third[1] == {}):
                visit([first, second, third])
            if ctx.stop:
                return
    ctx.sample(dict(history=[first, OPS[-3], OPS[0]]))
