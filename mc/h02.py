"""H02: a Calibrator can be used again, whatever it did before."""
import itertools

from . import core, fitlib

ID = "H02"
LEVEL = "model_checking"
RULE = (
    "all the histories of fits (of several degrees, families and guesses, "
    "exhaustive, failing), matches, refits, edits, plots, changes of the "
    "atlas, the known pairs and the settings of one Calibrator; after each of "
    "them the Hough transform and a seeded fit are compared with those of a "
    "new Calibrator with the settings, the lines and the known pairs that "
    "were given last. A state is the history modulo equal Calibrators."
)
BOUNDS = "all histories of 2 of 21 calls and 3 of 11 calls (thorough: 3 of 21 " \
         "and 4 of 11), 4 final fits"
ASSUMPTIONS = ["numpy.random.seed() is called before the final fit"]

PB = fitlib.Problem([4000.0, 9.0, 0.01], [8, 20, 37, 71, 90],
                    decoys=[4195.0, 4530.0],
                    hough=dict(linearity_tolerance=20.0, num_slopes=20),
                    ctol=25.0, ransac=dict(top_n_candidate=2))
LINES = {
    "all": PB.lines,
    "few": PB.lines[:3],
    "other": [w + 7.0 for w in PB.lines],
}
OPS = [
    ["fit", dict(fit_deg=1)],
    ["fit", dict(fit_deg=3)],
    ["fit", dict(fit_deg=2, brute_force=True)],
    ["fit", dict(fit_deg=2, candidate_tolerance=1e-9)],
    ["fit", dict(fit_deg=2, fit_coeff=[4001.0, 9.0, 0.01])],
    ["fit", dict(fit_deg=1, fit_type="legendre")],
    ["match", dict(tolerance=3.0)],
    ["refit"],
    ["edit"],
    ["plot"],
    ["atlas", "all"],
    ["atlas", "few"],
    ["atlas", "other"],
    ["ransac", dict(sample_size=4)],
    ["ransac", dict(minimum_matches=4)],
    ["ransac", dict(minimum_peak_utilisation=0.9, hough_weight=0.5)],
    ["ransac", dict(filter_close=True, top_n_candidate=1)],
    ["hough", dict(num_slopes=15, range_tolerance=25.0)],
    ["known"],
    ["transform"],
    ["props", dict(plotting_library="plotly", seed=3)],
]
FINAL = [dict(fit_deg=2, max_tries=2), dict(fit_deg=1, max_tries=1),
         dict(fit_deg=2, brute_force=True),
         dict(fit_deg=2, max_tries=1, fit_coeff=[4000.5, 9.0, 0.01])]
KNOWN = [[fitlib.place(20)], [PB.truth[fitlib.place(20)]]]


# the calls that are combined to the full depth
CORE = [0, 2, 3, 4, 6, 11, 12, 13, 14, 18, 19]


def items(tier, seed):
    return [dict(first=i, second=j, tier=tier) for i in range(len(OPS))
            for j in range(len(OPS))]


def atlas(name):
    from rascal.atlas import Atlas

    a = Atlas()
    a.add_user_atlas(["X"] * len(LINES[name]), list(LINES[name]))
    return a


def start():
    return dict(atlas="all", hough=dict(PB.hough), ransac=dict(PB.ransac),
                known=False)


def build(s):
    """A new Calibrator with these settings."""
    from rascal.calibrator import Calibrator

    c = Calibrator(list(PB.peaks))
    c.set_calibrator_properties(num_pix=PB.num_pix, log_level="critical")
    c.set_hough_properties(**s["hough"])
    c.set_ransac_properties(**s["ransac"])
    c.set_atlas(atlas(s["atlas"]), candidate_tolerance=PB.ctol)
    if s["known"]:
        c.set_known_pairs(*KNOWN)
    return c


def apply(c, s, op):
    """Carries out the call; the model only knows the settings."""
    kind = op[0]
    if kind == "fit":
        kw = dict(max_tries=1, candidate_tolerance=PB.ctol, progress=False)
        kw.update(op[1])
        try:
            c.fit(**kw)
        except AssertionError:
            pass
    elif kind in ("match", "refit", "edit", "plot"):
        if c.fit_coeff is None or len(c.matched_peaks) == 0:
            return
        if kind == "match":
            try:
                c.match_peaks(**op[1])
            except AssertionError:
                pass
        elif kind == "refit":
            if len(c.matched_peaks) > 1:
                c.manual_refit(list(c.matched_peaks), list(c.matched_atlas),
                               degree=1)
        elif kind == "edit":
            c.add_pix_wave_pair(50.0, 4475.0)
            c.remove_pix_wave_pair(0)
        else:
            import matplotlib.pyplot as plt

            c.use_matplotlib()
            c.plot_search_space(display=False, top_n_candidate=5)
            plt.close("all")
    elif kind == "atlas":
        s["atlas"] = op[1]
        c.set_atlas(atlas(op[1]), candidate_tolerance=PB.ctol)
    elif kind == "ransac":
        s["ransac"] = dict(s["ransac"], **op[1])
        c.set_ransac_properties(**op[1])
    elif kind == "hough":
        s["hough"] = dict(s["hough"], **op[1])
        c.set_hough_properties(**op[1])
    elif kind == "known":
        s["known"] = True
        c.set_known_pairs(*KNOWN)
    elif kind == "transform":
        c.do_hough_transform()
    elif kind == "props":
        c.set_calibrator_properties(log_level="critical", **op[1])


def finish(c, k):
    c.do_hough_transform()
    kw = dict(FINAL[k], candidate_tolerance=PB.ctol, progress=False)
    if "fit_coeff" in kw:
        kw["fit_coeff"] = list(kw["fit_coeff"])
    import numpy as np

    np.random.seed(11)
    try:
        r = fitlib.plain(c.fit(**kw))
    except AssertionError as e:
        if "fit" not in str(e).lower():
            raise
        r = fitlib.NOFIT
    return [r, core.jsonable(c.hough_points), core.jsonable(c.hough_lines)]


NEW = {}


def new(s, k):
    key = repr((s, k))
    if key not in NEW:
        NEW[key] = finish(build(s), k)
    return NEW[key]


def run(item, ctx):
    hists = [[OPS[item["first"]]]] if item["second"] == 0 else []
    base = [OPS[item["first"]], OPS[item["second"]]]
    hists.append(base)
    core_ops = [OPS[k] for k in CORE]
    if item["tier"] != "quick":
        hists += [base + [o] for o in OPS]
    elif item["first"] in CORE and item["second"] in CORE:
        hists += [base + [o] for o in core_ops]
    if item["tier"] != "quick" and (item["first"] in CORE
                                    and item["second"] in CORE):
        hists += [base + list(t) for t in itertools.product(core_ops,
                                                            repeat=2)]
    for hist in hists:
        case = dict(history=hist)

        def go():
            s = start()
            c = build(s)
            import numpy as np

            np.random.seed(4)
            for op in hist:
                apply(c, s, op)
            return c, s

        ok, r = ctx.guard(case, go)
        if ctx.stop:
            return
        if not ok:
            continue
        ctx.count("transitions", len(hist))
        ctx.state(case)
        for k in range(len(FINAL)):
            # all the final fits of the short histories, one of the long ones
            if len(hist) > 2 and k != (0, 1, 3)[sum(
                    OPS.index(o) for o in hist) % 3]:
                continue

            def end():
                got = finish(fitlib.clone(r[0]), k)
                want = new(r[1], k)
                for a, b, what in zip(got, want, (
                        "the fit", "the points", "the straight lines")):
                    if a != b:
                        raise core.Violation(
                            "%s of the Calibrator that was used: %s; of a "
                            "new one: %s" % (what, a, b))

            ctx.count("traces_validated_against_impl")
            ctx.count("transitions", 2)
            ctx.guard(dict(case, final=FINAL[k]), end)
            if ctx.stop:
                return
    ctx.sample(dict(history=hists[-1]))
