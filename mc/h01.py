"""H01: objects do not influence each other."""
import itertools
import os
import pickle
import signal
import traceback

from . import core, fitlib, htutil

ID = "H01"
LEVEL = "model_checking"
RULE = (
    "every pair of scripts of calls on two Atlases, HoughTransforms, "
    "SyntheticSpectra, Calibrators and lists of lines (also of the same "
    "class, two Calibrators that share an Atlas, and callers that modify the "
    "lists they got), executed in every interleaving; what is observed of "
    "each object at the end, after the other is finished as well, has to be "
    "what is observed when it is alone. States are the interleavings."
)
BOUNDS = "all the interleavings of 18 x 18 scripts of 2 to 5 steps"
ASSUMPTIONS = ["the random generator of numpy is seeded by the script right "
               "before a fit"]


COUNT = [0]


def problem(n):
    return fitlib.PROBLEMS[n]


def lists(a):
    return core.jsonable([a.get_lines(), a.get_elements(),
                          a.get_intensities(), len(a)])


def atlas_user(o):
    from rascal.atlas import Atlas

    def observe():
        return lists(o["a"])

    return [
        lambda: o.update(a=Atlas()),
        lambda: o["a"].add_user_atlas(["X", "Y"], [4100.0, 4200.0],
                                      [5.0, 6.0]),
        lambda: o["a"].add_user_atlas("Z", 4150.0),
        lambda: o["a"].remove_atlas_lines_range(4100.0, 1.0),
    ], observe


def atlas_vacuum(o):
    from rascal.atlas import Atlas

    return [
        lambda: o.update(a=Atlas()),
        lambda: o["a"].add_user_atlas(["V"] * 3, [5000.0, 5100.0, 5200.0],
                                      vacuum=True, pressure=80000.0),
        lambda: o["a"].clear(),
        lambda: o["a"].add_user_atlas(["W"], [4999.0], vacuum=False),
    ], lambda: lists(o["a"])


def atlas_bundled(o):
    from rascal.atlas import Atlas

    return [
        lambda: o.update(a=Atlas("He", 4000.0, 7000.0, min_intensity=20,
                                 min_distance=5)),
        lambda: o["a"].add(["Kr", "Ar"], 5500.0, 6000.0, min_intensity=50),
        lambda: o["a"].remove_atlas_lines_range(5876.0, 3.0),
    ], lambda: lists(o["a"])


def lines_modified(o):
    """Somebody who works in place on the lists that were returned."""
    from rascal import util

    def load(k):
        o[k] = util.load_calibration_lines(
            ["He", "Kr"], min_atlas_wavelength=4000.0,
            max_atlas_wavelength=7000.0, min_intensity=10, min_distance=5)

    def spoil():
        for v in o["l"]:
            try:
                v[0] = v[1]
                v.sort()
            except (TypeError, ValueError):
                pass

    return [lambda: load("l"), spoil, lambda: load("l2"), ], lambda: \
        core.jsonable([list(map(str, v)) for v in o["l2"]])


def lines_kept(o):
    """Somebody who asks for the same lines."""
    from rascal import util

    def load():
        o["l"] = util.load_calibration_lines(
            ["He", "Kr"], min_atlas_wavelength=4000.0,
            max_atlas_wavelength=7000.0, min_intensity=10, min_distance=5)

    return [load, lambda: None], lambda: core.jsonable(
        [list(map(str, v)) for v in o["l"]])


def lines_air(o):
    from rascal import util

    def load(**kw):
        o.setdefault("got", []).append([list(map(str, v)) for v in
                                        util.load_calibration_lines(
                                            "He", 3000.0, 6000.0, 5, 1, **kw)])

    return [lambda: load(vacuum=True), lambda: load(vacuum=False),
            lambda: load(vacuum=True, pressure=70000.0)], lambda: o["got"]


def hough(variant):
    def script(o):
        import numpy as np
        from rascal.houghtransform import HoughTransform

        x = np.array([1.0, 2.0, 4.0]) + variant
        y = np.array([8.0, 9.0, 12.0])

        def gen():
            if variant:
                o["h"].generate_hough_points_brute_force(x, y)
            else:
                o["h"].generate_hough_points(x, y, 5)

        return [
            lambda: o.update(h=HoughTransform()),
            lambda: o["h"].set_constraints(-3.0, 3.5, 0.0, 9.5 + variant),
            gen,
            lambda: o["h"].add_hough_points(np.array([[1.0, 8.0]])),
            lambda: o["h"].bin_hough_points(3, 2 + variant),
        ], lambda: htutil.snapshot(o["h"])

    return script


def synthetic(variant):
    def script(o):
        from rascal.synthetic import SyntheticSpectrum

        model = [1e-3, 0.8, 200.0] if variant else [1e-6, 1e-4, 0.6, 250.0]

        def get():
            o["p"] = core.jsonable(o["s"].get_pixels(
                [350.0, 455.5, 470.0, 610.25]))

        return [
            lambda: o.update(s=SyntheticSpectrum()),
            lambda: o["s"].set_model(list(model)),
            lambda: o["s"].set_wavelength_limit(300.0, 500.0 + 200 * variant),
            get,
        ], lambda: [o["p"], get(), o["p"]]

    return script


def lines_file(tag):
    """A list of lines in a file, which is written again later."""
    def script(o):
        import os
        from rascal.atlas import Atlas

        COUNT[0] += 1
        folder = os.path.join(core.scratch(), "h01_%s_%d_%d" % (
            tag, os.getpid(), COUNT[0]))
        path = os.path.join(folder, "lines.csv")

        def write(rows):
            o["rows"] = rows
            os.makedirs(folder, exist_ok=True)
            with open(path, "w") as f:
                f.writelines("%s,%s,%s\n" % r for r in rows)

        def load():
            a = Atlas(["X", "Y"], 3000.0, 9000.0, min_intensity=1,
                      min_distance=0, linelist=path, vacuum=True)
            o.setdefault("got", []).append(lists(a))
            if sorted(a.get_lines()) != sorted(r[1] for r in o["rows"]):
                raise core.Violation("the file holds %s, the lines are %s"
                                     % (o["rows"], a.get_lines()))

        return [
            lambda: write([("X", 4000 + tag, 10), ("Y", 5000, 20)]), load,
            lambda: write([("X", 4100 + tag, 30), ("X", 5000, 2),
                           ("Y", 6000, 7)]), load,
        ], lambda: o["got"]

    return script


def fitter(name, edit, atlas=None, defaults=False, fit_type="poly"):
    def script(o):
        import numpy as np
        from rascal.calibrator import Calibrator

        pb = problem(name)

        def settings():
            c = o["c"]
            c.set_calibrator_properties(num_pix=pb.num_pix,
                                        log_level="critical")
            c.set_hough_properties(**pb.hough)
            if not defaults:
                c.set_ransac_properties(**pb.ransac)

        def lines():
            if atlas is not None:
                o["c"].set_atlas(o["shared"], candidate_tolerance=pb.ctol)
            else:
                o["c"].set_atlas(fitlib.atlas(pb),
                                 candidate_tolerance=pb.ctol)

        def fit():
            np.random.seed(9)
            try:
                o["r"] = fitlib.plain(o["c"].fit(
                    max_tries=3, fit_deg=len(pb.coeff) - 1,
                    candidate_tolerance=pb.ctol, progress=False,
                    fit_type=fit_type))
            except AssertionError:
                o["r"] = "no fit"

        def after():
            c = o["c"]
            if edit and o["r"] != "no fit":
                c.set_known_pairs(1.0, 4010.0)
                c.match_peaks(tolerance=3.0)
                c.add_pix_wave_pair(1.0, 4010.0)
                c.manual_refit(degree=1)
                c.get_pix_wave_pairs()

        def observe():
            c = o["c"]
            return core.jsonable([
                o["r"], lists(c.atlas), c.hough_points, c.hough_lines,
                c.fit_coeff, list(c.matched_peaks), list(c.matched_atlas),
                c.peaks, c.pix_known, c.sample_size, c.top_n_candidate,
                c.ransac_tolerance, c.num_slopes, c.min_wavelength])

        return [
            lambda: (o.update(c=Calibrator(list(pb.peaks))), settings()),
            lambda: (lines(), o["c"].do_hough_transform()), fit, after,
        ], observe

    return script


SCRIPTS = {
    "file_1": lines_file(1),
    "file_2": lines_file(2),
    "fit_legendre": fitter("line_extra", True, fit_type="legendre"),
    "atlas_user": atlas_user,
    "atlas_vacuum": atlas_vacuum,
    "atlas_bundled": atlas_bundled,
    "lines_modified": lines_modified,
    "lines_kept": lines_kept,
    "lines_air": lines_air,
    "hough_0": hough(0),
    "hough_1": hough(1),
    "synthetic_0": synthetic(0),
    "synthetic_1": synthetic(1),
    "fit_line": fitter("line", False),
    "fit_defaults": fitter("quad_noise", False, defaults=True),
    "fit_edit": fitter("line_extra", True),
    "fit_shared": fitter("quad_extra", True, atlas="shared"),
    "fit_shared_2": fitter("quad", True, atlas="shared"),
}


def items(tier, seed):
    names = list(SCRIPTS)
    return [dict(a=a, b=b, tier=tier) for a, b in
            itertools.combinations_with_replacement(names, 2)]


def execute(item, schedule):
    """Observations of both, after the whole schedule."""
    shared = fitlib.atlas(problem("quad_extra"))
    sides = []
    for n in (item["a"], item["b"]):
        steps, observe = SCRIPTS[n](o := dict(shared=shared))
        sides.append((list(steps), observe))
    for k in schedule:
        sides[k][0].pop(0)()
    return [core.jsonable(s[1]()) for s in sides if not s[0]]


ALONE = {}


def alone(name):
    """What is observed in a process where nothing else happened."""
    if name not in ALONE:
        def go():
            shared = fitlib.atlas(problem("quad_extra"))
            steps, observe = SCRIPTS[name](dict(shared=shared))
            for s in steps:
                s()
            return core.jsonable(observe())

        ALONE[name] = in_child(go)
    return ALONE[name]


def in_child(fn):
    """The value of fn() in a new process; exceptions are raised here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (True, fn())
            except BaseException:
                out = (False, traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    ok, value = pickle.loads(data)
    if not ok:
        raise core.Violation("raises " + value)
    return value


FIELDS = ["counts", "keys", "states", "samples", "viol", "found"]


def run(item, ctx):
    # this process stays as it was after the import
    ok, want = ctx.guard(item, lambda: [alone(item["a"]), alone(item["b"])])
    if not ok:
        return

    def go():
        c = core.Ctx(item, ctx.limit)
        interleave(item, c, want)
        return {k: getattr(c, k) for k in FIELDS}

    for k, v in in_child(go).items():
        setattr(ctx, k, v)


def interleave(item, ctx, want):
    n = [len(SCRIPTS[k](dict(shared=None))[0]) for k in (item["a"], item["b"])]
    total = sum(n)
    for pos in itertools.combinations(range(total), n[0]):
        sched = [0 if i in pos else 1 for i in range(total)]
        case = dict(item, schedule=sched)
        ctx.count("transitions", total)
        ctx.count("traces_validated_against_impl")
        ctx.state(case)

        def go():
            got = execute(item, sched)
            for g, w, k in zip(got, want, (item["a"], item["b"])):
                if g != w:
                    raise core.Violation(
                        "%s observes %s, alone %s" % (k, g, w))

        ctx.guard(case, go)
        if ctx.stop:
            return
    ctx.sample(case)
