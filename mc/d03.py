"""D03: fit() ends, with a result or a declared failure, on every input."""
import itertools

from . import core, fitlib

ID = "D03"
LEVEL = "model_checking"
RULE = (
    "stateless exploration of fit() over the random draws, on inputs chosen "
    "so that samples are rejected: too few peaks or lines, no line in reach, "
    "shared wavelengths, an empty window, unreachable limits, samples larger "
    "than the candidates, each with random and brute-force sampling. An "
    "execution that passes the horizon of draws or of time is a violation."
)
BOUNDS = "the answers of the first 3 (thorough: 5) draws in order, up to 20 " \
         "(200) schedules and 1500 draws of each of the inputs x settings; " \
         "fair answers afterwards; horizon 200000 draws; trees_completed and " \
         "trees_cut tell how many trees were exhausted"
ASSUMPTIONS = [
    "fair draws: a value with a positive probability is drawn eventually",
    "a failure is declared with an AssertionError that names the fit",
]
LIMIT = 120.0

P = fitlib.Problem


def inputs():
    out = {}
    for np_, nl in itertools.product((1, 2, 3, 4), (1, 2, 3, 4)):
        peaks = [10, 25, 47, 81][:np_]
        pb = P([4000.0, 10.0], peaks)
        pb.lines = sorted([4100.0, 4250.0, 4470.0, 4810.0][:nl])
        out["few_%d_%d" % (np_, nl)] = pb
    out["shared"] = P([4000.0, 10.0], [10, 11, 12, 13], missing=[11, 12, 13])
    out["shared_two"] = P([4000.0, 10.0], [10, 10.4, 80, 80.4],
                          missing=[10.4, 80.4])
    # more peaks than the lines they share, drawn together
    out["shared_three"] = P([4000.0, 10.0], [50, 50.2, 50.4, 50.6, 80],
                            missing=[50.2, 50.4, 50.6],
                            decoys=[4503.0, 4506.0],
                            ransac=dict(sample_size=5))
    out["shared_four"] = P([4000.0, 10.0], [50, 50.2, 50.4, 50.6, 50.8],
                           missing=[50.2, 50.4, 50.6, 50.8],
                           decoys=[4502.0, 4505.0, 4507.0],
                           ransac=dict(sample_size=5, top_n_candidate=4))
    # evenly spaced peaks lie on the edges of any regular histogram of them
    out["even"] = P([4000.0, 10.0], [10, 30, 50, 70, 90], decoys=[4311.0])
    out["even_three"] = P([4000.0, 9.0, 0.01], [0, 50, 99], ctol=30.0,
                          hough=dict(linearity_tolerance=20.0))
    # lines that can hardly be told apart
    for d in (0.03, 1e-4, 1e-9):
        out["blend_%s" % d] = P([4000.0, 10.0], [10, 25, 50, 51, 81],
                                missing=[51], decoys=[4500.0 + d],
                                ransac=dict(sample_size=2))
    out["out_of_reach"] = P([4000.0, 10.0], [10, 25, 47, 81], missing=[
        10, 25, 47, 81], decoys=[4175.0, 4360.0, 4640.0, 4700.0], ctol=30.0)
    out["window"] = P([4000.0, 10.0], [10, 25, 47, 81], ctol=60.0, hough=dict(
        range_tolerance=0.001, linearity_tolerance=60.0),
        decoys=[4120.0, 4265.0])
    out["decreasing"] = P([4000.0, 1.0], [10, 20, 30, 40], ctol=200.0,
                          decoys=[4040.0, 4030.5, 4020.5, 4010.5],
                          missing=[10, 20, 30, 40],
                          hough=dict(linearity_tolerance=200.0))
    out["quad"] = fitlib.PROBLEMS["quad"]
    out["cubic"] = fitlib.PROBLEMS["cubic"]
    return out


RANSAC = [
    {},
    dict(minimum_matches=5),
    dict(minimum_peak_utilisation=1.0),
    dict(minimum_fit_error=1e3),
    dict(ransac_tolerance=1e-9),
    dict(sample_size=9),
    dict(sample_size=1),
    dict(filter_close=True),
    dict(top_n_candidate=1),
    dict(hough_weight=0.0),
]
FITS = [
    dict(max_tries=1),
    dict(max_tries=2),
    dict(brute_force=True),
    dict(max_tries=1, fit_deg=3),
    dict(max_tries=1, candidate_tolerance=1e-9),
    dict(max_tries=1, guess=True),
    dict(brute_force=True, guess=True),
]


def items(tier, seed):
    its = []
    for n in inputs():
        for r in range(len(RANSAC)):
            if tier == "quick" and n.startswith("few") and r in (2, 3, 7, 9):
                continue
            for f in range(len(FITS)):
                its.append(dict(name=n, ransac=r, fit=f,
                                depth=3 if tier == "quick" else 5,
                                limit=20 if tier == "quick" else 200))
    return its


def run(item, ctx):
    pb = inputs()[item["name"]]
    kw = dict(FITS[item["fit"]])
    if kw.pop("guess", None):
        kw["fit_coeff"] = list(pb.coeff)
        kw["fit_deg"] = len(pb.coeff) - 1
    stats = {}

    def first():
        return fitlib.runs(pb, item["depth"], item["limit"], stats=stats,
                           budget=1500,
                           over=dict(ransac=RANSAC[item["ransac"]]), **kw)

    it = first()
    while True:
        ok, nxt = ctx.guard(item, next, it, None)
        if not ok or nxt is None:
            break
        picks, r, c, ctl, _ = nxt
        ctx.count("transitions", 1 + len(ctl.points))
        ctx.count("traces_validated_against_impl")
        ctx.count("failures_declared", isinstance(r, str))
        ctx.state([item, picks])
        deg = len(kw["fit_coeff"]) - 1 if "fit_coeff" in kw else kw.get(
            "fit_deg", pb.fit["fit_deg"])
        e = fitlib.sound(r, pb, c, fit_deg=deg, baseline=kw.get("fit_coeff"))
        if e:
            ctx.violation(e, dict(item, picks=picks))
        if ctx.stop:
            break
    ctx.count("trees_completed" if stats.get("complete") else "trees_cut")
    ctx.sample(item)
