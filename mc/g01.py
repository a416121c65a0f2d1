"""G01: looking at a calibration does not change it."""
import contextlib
import copy
import io
import itertools
import os

from . import core, fitlib

ID = "G01"
LEVEL = "model_checking"
RULE = (
    "all the sequences of looks (plots of both libraries with their options, "
    "listings, saves) at 5 stages of a calibration, each followed by the rest "
    "of the work (a seeded fit, a match, a refit); the calibration and the "
    "outcome are compared with a calibration nobody looked at; every call "
    "with lists and arrays, compared with copies of its arguments; histories "
    "in which the caller reuses the lists that were given or returned. A "
    "state is the calibration at a stage with the looks taken."
)
BOUNDS = "2 looks (thorough: 3) of 17, 5 stages, 2 problems"
ASSUMPTIONS = ["the figures are not shown (display=False)"]

LOOKS = [
    ["plot_arc", "matplotlib", dict(log_spectrum=True)],
    ["plot_arc", "plotly", dict(return_jsonstring=True)],
    ["plot_arc", "plotly", dict(return_jsonstring=True, log_spectrum=True)],
    ["plot_search_space", "matplotlib", dict(top_n_candidate=1)],
    ["plot_search_space", "matplotlib", dict(top_n_candidate=7,
                                             weighted=False)],
    ["plot_search_space", "plotly", dict(return_jsonstring=True,
                                         top_n_candidate=2)],
    ["plot_fit", "matplotlib", dict(log_spectrum=True)],
    ["plot_fit", "matplotlib", dict(plot_atlas=False, given=True)],
    ["plot_fit", "plotly", dict(log_spectrum=True, return_jsonstring=True)],
    ["plot_fit", "plotly", dict(tolerance=1.0, return_jsonstring=True,
                                given=True)],
    ["pairs"],
    ["atlas"],
    ["list"],
    ["save", "npy"],
    ["save", "json"],
    ["memory"],
    ["library"],
]
STAGES = ["fresh", "hough", "fitted", "matched", "edited"]
NAMES = ["line_extra", "quad_extra"]


def items(tier, seed):
    its = []
    for n, s, k in itertools.product(NAMES, STAGES, range(len(LOOKS))):
        its.append(dict(kind="look", name=n, stage=s, first=k, tier=tier))
    its += [dict(kind="args", name=n) for n in NAMES]
    its += [dict(kind=k, name=n) for k in ("alias", "reuse") for n in NAMES]
    return its


def spectrum(pb):
    import numpy as np

    return np.array([100.0 + (i * 7) % 13 - 104.0 * (i % 29 == 3)
                     for i in range(pb.num_pix)])


BASE = {}


def stage(name, upto):
    """A Calibrator at a stage."""
    if (name, upto) not in BASE:
        from rascal.calibrator import Calibrator

        pb = fitlib.PROBLEMS[name]
        c = Calibrator(list(pb.peaks), spectrum=spectrum(pb))
        c.set_calibrator_properties(num_pix=pb.num_pix, log_level="critical")
        c.set_hough_properties(**pb.hough)
        c.set_ransac_properties(**pb.ransac)
        c.set_atlas(fitlib.atlas(pb), candidate_tolerance=pb.ctol)
        c.set_known_pairs([pb.true_peaks[0]], [pb.truth[pb.true_peaks[0]]])
        n = STAGES.index(upto)
        if n >= 1:
            c.do_hough_transform()
        if n >= 2:
            fitlib.fit(c, pb, brute_force=True)
        if n >= 3:
            c.match_peaks(tolerance=2.0)
        if n >= 4:
            c.add_pix_wave_pair(62.0, fitlib.poly(pb.coeff, 62.0))
            c.remove_pix_wave_pair(0)
        BASE[name, upto] = c
    return fitlib.clone(BASE[name, upto])


SETTINGS = """peaks spectrum num_pix pixel_list num_slopes xbins ybins
min_wavelength max_wavelength range_tolerance linearity_tolerance sample_size
top_n_candidate linear filter_close ransac_tolerance candidate_weighted
hough_weight minimum_matches minimum_peak_utilisation minimum_fit_error
matched_peaks matched_atlas fit_coeff pairs hough_points hough_lines pix_known
wave_known""".split()


def snapshot(c):
    out = {k: core.jsonable(getattr(c, k)) for k in SETTINGS}
    out["atlas"] = [core.jsonable(v) for v in (
        c.atlas.get_lines(), c.atlas.get_elements(),
        c.atlas.get_intensities())]
    out["library"] = c.which_plotting_library()
    return out


def look(c, op, pb):
    """False if there is nothing to look at yet."""
    kind = op[0]
    if kind.startswith("plot"):
        import matplotlib.pyplot as plt

        if kind != "plot_arc" and c.fit_coeff is None:
            return False
        lib = c.which_plotting_library()
        getattr(c, "use_" + op[1])()
        kw = dict(op[2])
        if kw.pop("given", False):
            kw["spectrum"] = spectrum(pb) * 2
            kw["fit_coeff"] = list(c.fit_coeff)
        plt.close("all")
        getattr(c, kind)(display=False, **kw)
        plt.close("all")
        getattr(c, "use_" + lib)()
    elif kind == "pairs":
        got = c.get_pix_wave_pairs()
        for k in range(len(got)):
            got[k] = (0, 1.0, 2.0)
    elif kind == "atlas":
        for v in (c.atlas.get_lines(), c.atlas.get_elements(),
                  c.atlas.get_intensities()):
            v[:] = v[:1]
        len(c.atlas)
    elif kind == "list":
        with contextlib.redirect_stdout(io.StringIO()):
            c.list_atlas()
    elif kind in ("save", "memory"):
        if c.hough_lines is None:
            return False
        if kind == "memory":
            c.save_hough_transform(to_disk=False)
        else:
            path = os.path.join(core.scratch(), "g01_%d" % os.getpid())
            c.save_hough_transform(path, fileformat=op[1])
    elif kind == "library":
        c.which_plotting_library()
    return True


NEXT = ["fit", "match", "refit", "hough"]


def follow(c, step, pb):
    """The rest of the work, with the seed set before the looks."""
    if step == "fit":
        return fitlib.plain(fitlib.fit(c, pb, max_tries=3))
    if step == "hough":
        c.do_hough_transform()
        return core.jsonable([c.hough_points, c.hough_lines])
    if c.fit_coeff is None:
        return None
    if step == "match":
        return core.jsonable(list(c.match_peaks(tolerance=4.0)))
    return core.jsonable(list(c.manual_refit(degree=len(pb.coeff) - 1)))


PLAIN = {}


def plain(name, upto, step):
    import numpy as np

    key = (name, upto, step)
    if key not in PLAIN:
        c = stage(name, upto)
        np.random.seed(5)
        PLAIN[key] = follow(c, step, fitlib.PROBLEMS[name])
    return PLAIN[key]


def run(item, ctx):
    {"look": run_look, "args": run_args, "alias": run_alias,
     "reuse": run_reuse}[item["kind"]](
        item, ctx, fitlib.PROBLEMS[item["name"]])


def run_look(item, ctx, pb):
    import numpy as np

    n, s = item["name"], item["stage"]
    depth = 2 if item["tier"] == "quick" else 3
    case = None
    for d in range(1, depth + 1):
        for rest in itertools.product(range(len(LOOKS)), repeat=d - 1):
            hist = [LOOKS[k] for k in (item["first"],) + rest]
            # the steps that follow are spread over the pairs of looks
            if d == 1:
                steps = NEXT
            else:
                k = (item["first"] + sum(rest)) % len(NEXT)
                steps = [NEXT[k]]
            case = dict(name=n, stage=s, looks=hist)

            def go():
                c = stage(n, s)
                before = snapshot(c)
                np.random.seed(5)
                for op in hist:
                    if not look(c, op, pb):
                        return None
                state = np.random.get_state()
                after = snapshot(c)
                for k in before:
                    if before[k] != after[k]:
                        raise core.Violation(
                            "%s changed from %s to %s"
                            % (k, before[k], after[k]))
                for step in steps:
                    e = fitlib.clone(c)
                    np.random.set_state(state)
                    got = follow(e, step, pb)
                    if got != plain(n, s, step):
                        raise core.Violation(
                            "then %s gives %s, without the looks %s"
                            % (step, got, plain(n, s, step)))
                return after

            ok, r = ctx.guard(case, go)
            if ctx.stop:
                return
            if not ok:
                continue
            if r is None:
                continue
            ctx.count("transitions", d)
            ctx.count("traces_validated_against_impl")
            ctx.state([n, s, hist])
    ctx.sample(case)


def copies(v, as_array):
    import numpy as np

    return np.array(v, dtype=float) if as_array else [float(x) for x in v]


def run_args(item, ctx, pb):
    """No call changes the lists and arrays it is given."""
    import numpy as np
    from rascal import synthetic, util
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator
    from rascal.houghtransform import HoughTransform

    curve = list(pb.coeff)
    waves = [fitlib.poly(curve, p) for p in pb.true_peaks]

    def calls(arr):
        spec = copies(spectrum(pb), arr)
        yield "Calibrator", lambda p, s: Calibrator(p, spectrum=s), \
            [copies(pb.peaks, arr), spec]
        yield "pixel_list", lambda p: stage(
            item["name"], "fitted").set_calibrator_properties(
                pixel_list=p), [copies(range(pb.num_pix), arr)]
        yield "set_known_pairs", lambda p, w: stage(
            item["name"], "fitted").set_known_pairs(p, w), \
            [copies(pb.true_peaks, arr), copies(waves, arr)]
        for kw in (dict(), dict(refine=True), dict(robust_refit=False)):
            yield "match_peaks %s" % kw, lambda k, kw=kw: stage(
                item["name"], "fitted").match_peaks(k, **kw), \
                [copies(curve, arr)]
        for bf in (True, False):
            yield "fit %s" % bf, lambda k, bf=bf: fitlib.fit(
                stage(item["name"], "hough"), pb, max_tries=2, fit_coeff=k,
                brute_force=bf), [copies(curve, arr)]

        def known(p, w):
            c = stage(item["name"], "hough")
            c.set_known_pairs(p, w)
            np.random.seed(3)
            fitlib.fit(c, pb, max_tries=2)
            c.match_peaks()
            c.add_pix_wave_pair(1.0, 3990.0)

        yield "known pairs", known, [copies(pb.true_peaks[:2], arr),
                                     copies(waves[:2], arr)]
        yield "manual_refit", lambda p, w: stage(
            item["name"], "fitted").manual_refit(p, w, degree=1), \
            [copies(pb.true_peaks, arr), copies(waves, arr)]

        def edits(p, w):
            c = stage(item["name"], "fitted")
            c.manual_refit(p, w, degree=1)
            c.add_pix_wave_pair(1.0, 3990.0)
            c.remove_pix_wave_pair(2)
            c.get_pix_wave_pairs()

        yield "edits", edits, [copies(pb.true_peaks, arr),
                               copies(waves, arr)]
        for lib in ("matplotlib", "plotly"):
            for log in (True, False):
                def plots(k, s, lib=lib, log=log):
                    import matplotlib.pyplot as plt

                    c = stage(item["name"], "fitted")
                    getattr(c, "use_" + lib)()
                    kw = {} if lib == "matplotlib" else dict(
                        return_jsonstring=True)
                    c.plot_fit(k, spectrum=s, log_spectrum=log,
                               display=False, **kw)
                    c.plot_search_space(k, display=False, **kw)
                    plt.close("all")

                yield "plots %s %s" % (lib, log), plots, [
                    copies(curve, arr), copies(spectrum(pb), True)]

        def atlas(w, i):
            a = Atlas()
            a.add_user_atlas(["X"] * len(w), w, i, vacuum=True)
            a.remove_atlas_lines_range(w[0])
            a.clear()

        yield "add_user_atlas", atlas, [
            copies(pb.lines, arr), copies(range(len(pb.lines)), arr)]
        yield "vacuum_to_air", lambda w: util.vacuum_to_air_wavelength(
            w, 288.15, 80000.0, 50.0), [copies(pb.lines, True)]
        yield "air_to_vacuum", lambda w: util.air_to_vacuum_wavelength(
            w, 288.15, 80000.0, 50.0), [copies(pb.lines, True)]
        yield "refine_peaks", lambda s, p: util.refine_peaks(
            s, p, window_width=5), [
                copies([100.0 * np.exp(-(i - 40.2) ** 2 / 4.0)
                        for i in range(100)], True), copies([40], arr)]

        def synth(k, w):
            s = synthetic.SyntheticSpectrum(k)
            s.add_atlas(fitlib.atlas(pb)) if hasattr(s, "add_atlas") else None
            s.get_pixels(w)

        yield "synthetic", synth, [
            [1e-5, 0.1, -300.0], copies(pb.lines, True)]

        def hough(x, y):
            h = HoughTransform()
            h.set_constraints(5.0, 15.0, 3950.0, 4050.0)
            h.generate_hough_points(x, y, 20)
            h.add_hough_points(h.hough_points.copy())
            h.bin_hough_points(5, 5)

        yield "hough", hough, [copies(pb.true_peaks, True),
                               copies(waves, True)]

    for arr in (False, True):
        for name, fn, args in calls(arr):
            if arr and name == "synthetic":
                continue
            case = dict(name=item["name"], call=name, arrays=arr)
            before = copy.deepcopy(args)
            ok, _ = ctx.guard(case, fn, *args)
            ctx.count("transitions")
            ctx.count("traces_validated_against_impl")
            ctx.state(case)
            if ctx.stop:
                return
            if ok and any(type(a) is not type(b) or len(a) != len(b)
                          or not np.array_equal(a, b)
                          for a, b in zip(args, before)):
                ctx.violation("the arguments of %s are changed from %s to %s"
                              % (name, before, args), case)
            ctx.sample(case)


def run_alias(item, ctx, pb):
    """The caller reuses the peaks and the spectrum that were given."""
    import numpy as np
    from rascal.calibrator import Calibrator

    for arr, when, what in itertools.product(
            (False, True), ("made", "atlas", "hough", "fitted"),
            ("peaks", "spectrum", "both")):
        case = dict(name=item["name"], arrays=arr, when=when, what=what)

        def work(reuse):
            peaks = copies(pb.peaks, arr)
            spec = copies(spectrum(pb), arr)

            def at(point):
                if reuse and when == point:
                    if what != "spectrum":
                        peaks[0] = 99.0
                    if what != "peaks":
                        spec[0] = -5.0

            c = Calibrator(peaks, spectrum=spec)
            at("made")
            c.set_calibrator_properties(num_pix=pb.num_pix,
                                        log_level="critical")
            c.set_hough_properties(**pb.hough)
            c.set_ransac_properties(**pb.ransac)
            c.set_atlas(fitlib.atlas(pb), candidate_tolerance=pb.ctol)
            at("atlas")
            c.do_hough_transform()
            at("hough")
            np.random.seed(5)
            r = fitlib.plain(fitlib.fit(c, pb, max_tries=3))
            at("fitted")
            m = core.jsonable(list(c.match_peaks()))
            return [r, m, snapshot(c)]

        def go():
            a, b = work(False), work(True)
            if a != b:
                raise core.Violation(
                    "reusing the %s that were given changes the calibration"
                    % what)

        ctx.guard(case, go)
        ctx.count("transitions", 5)
        ctx.count("traces_validated_against_impl")
        ctx.state(case)
        ctx.sample(case)
        if ctx.stop:
            return


def run_reuse(item, ctx, pb):
    """The caller reuses the lists given to the later calls."""
    import numpy as np

    curve = list(pb.coeff)
    n = len(curve) - 1
    waves = [fitlib.poly(curve, p) for p in pb.true_peaks]
    shifted = [w + (i % 2) for i, w in enumerate(waves)]

    def hough(c):
        c.do_hough_transform()

    CALLS = {
        "manual_refit": ("fitted", [pb.true_peaks, shifted],
                         lambda c, p, w: c.manual_refit(p, w, degree=n)),
        "refit edited": ("edited", [pb.true_peaks, shifted],
                         lambda c, p, w: (c.manual_refit(p, w, degree=n),
                                          c.add_pix_wave_pair(99.0, 5555.0))),
        "set_known_pairs": ("hough", [pb.true_peaks[1:2], waves[1:2]],
                            lambda c, p, w: c.set_known_pairs(p, w)),
        "match_peaks": ("fitted", [curve],
                        lambda c, k: c.match_peaks(k, tolerance=3.0)),
        "fit": ("hough", [curve],
                lambda c, k: fitlib.fit(c, pb, max_tries=2, fit_coeff=k)),
        "pixel_list": ("fresh", [[float(i) for i in range(pb.num_pix)]],
                       lambda c, p: c.set_calibrator_properties(
                           pixel_list=p, log_level="critical")),
        "user_atlas": ("hough", [pb.lines, pb.lines],
                       lambda c, w, i: lines(c, w, i)),
        "hough_points": ("hough", [[[8.0, 4000.0], [9.0, 4001.0]]],
                         lambda c, p: c.ht.add_hough_points(p)),
    }

    def lines(c, w, i):
        from rascal.atlas import Atlas

        a = Atlas()
        a.add_user_atlas(["X"] * len(w), w, i)
        c.set_atlas(a, candidate_tolerance=pb.ctol)

    for name, arr, step in itertools.product(CALLS, (False, True), NEXT):
        at, given, call = CALLS[name]
        if at in ("fresh", "hough") and step in ("match", "refit"):
            continue
        case = dict(name=item["name"], call=name, arrays=arr, step=step)

        def work(reuse):
            c = stage(item["name"], at)
            np.random.seed(5)
            if name == "hough_points":
                args = [np.array(given[0])]
            else:
                args = [copies(g, arr) for g in given]
            call(c, *args)
            before = snapshot(c)
            if reuse:
                for g in args:
                    if isinstance(g, np.ndarray):
                        g += 17.5
                    else:
                        del g[1:]
                        g[0] = 3.25
            if before != snapshot(c):
                return "the calibration changes"
            np.random.seed(6)
            return [follow(c, step, pb), snapshot(c)]

        def go():
            a, b = work(False), work(True)
            if a != b:
                raise core.Violation(
                    "reusing the lists given to %s changes the calibration "
                    "from %s to %s" % (name, a, b))

        ctx.guard(case, go)
        ctx.count("transitions", 4)
        ctx.count("traces_validated_against_impl")
        ctx.state(case)
        ctx.sample(case)
        if ctx.stop:
            return
