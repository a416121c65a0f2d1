"""D07: a guess is the baseline that the result never falls behind."""
from . import fitlib

ID = "D07"
LEVEL = "model_checking"
RULE = (
    "stateless exploration of the draws of fit() started from guesses: the "
    "truth, the truth shifted within and beyond the tolerance, and curves far "
    "away. The monitor compares the result with the guess: never worse, the "
    "guess itself if nothing better was drawn, and the truth if it was drawn."
)
BOUNDS = "6 problems x 7 guesses, the draws of the first try complete and of " \
         "the second in part; exhaustive search, also with fit_deg 1 to 4 " \
         "and sample_size 1 and 4"
ASSUMPTIONS = ["quality of a solution is the number of lines it fits, and "
               "the size of the errors for the same number, in problems where "
               "no subset competes"]

NAMES = ["line", "line_extra", "quad", "quad_extra", "quad_missing", "cubic"]
SHIFTS = [0.0, 0.02, -0.05, 3.0, -6.0, 300.0, 5000.0]


def items(tier, seed):
    its = []
    for n in NAMES:
        for s in range(len(SHIFTS)):
            for hw in (1.0, 0.0):
                its.append(dict(kind="brute", name=n, shift=s, hw=hw))
                for tries in (0, 1, 2):
                    its.append(dict(
                        kind="tree", name=n, shift=s, hw=hw, tries=tries,
                        limit=40 if tier == "quick" else 1500))
    # the degree of the guess is the one that counts
    for n in NAMES:
        for deg in (1, 2, 3, 4):
            for size in (1, 4):
                for s in (0, 3, 5):
                    its.append(dict(kind="brute", name=n, shift=s, hw=1.0,
                                    deg=deg, size=size))
    return its


def run(item, ctx):
    import numpy as np

    pb = fitlib.PROBLEMS[item["name"]]
    shift = SHIFTS[item["shift"]]
    guess = list(pb.coeff)
    guess[0] += shift
    ov = dict(ransac=dict(hough_weight=item["hw"]))
    degree = {}
    if "deg" in item:
        ov["ransac"]["sample_size"] = item["size"]
        degree["fit_deg"] = item["deg"]
    k = len(pb.coeff)

    def check(r, c, case):
        if isinstance(r, str):
            ctx.violation("no fit although a guess is given", case)
            return
        e = fitlib.sound(r, pb, c, fit_deg=k - 1, baseline=guess)
        if e:
            ctx.violation(e, case)
            return
        same = np.allclose(list(map(float, r[0])), guess, rtol=1e-12, atol=0)
        if abs(shift) < 1.0:
            # the guess fits all the true pairs: so does the result
            if not (fitlib.is_truth(r, pb) or same):
                ctx.violation("the guess fits all the lines, the result is "
                              "%s" % fitlib.plain(r), case)
        if same:
            # the matches are those of the guess
            want = {p: w for p, w in pb.truth.items()
                    if abs(shift) < c.ransac_tolerance}
            got = {float(p): float(w) for p, w in zip(r[1], r[2])}
            if abs(shift) < 1 and got != want:
                ctx.violation("matches %s of the guess, expected %s"
                              % (got, want), case)
        if item["kind"] == "tree" and item["tries"] == 0 and not same:
            ctx.violation("nothing was drawn, the result is not the guess",
                          case)
        if item["kind"] == "brute" and not fitlib.is_truth(r, pb):
            ctx.violation("the truth is among the samples, the result is %s"
                          % fitlib.plain(r), case)

    if item["kind"] == "brute":
        ctx.count("transitions", 2)
        ctx.count("traces_validated_against_impl")
        ctx.state(item)

        def go():
            c = fitlib.calibrator(pb, **ov)
            return fitlib.fit(c, pb, brute_force=True,
                              fit_coeff=list(guess), **degree), c

        ok, r = ctx.guard(item, go)
        if ok:
            check(r[0], r[1], item)
        return
    stats = {}
    it = fitlib.runs(pb, (k + 1) * item["tries"], item["limit"], over=ov,
                     max_tries=item["tries"], fit_coeff=list(guess),
                     stats=stats, hyp=True)
    outcomes = set()
    while True:
        ok, nxt = ctx.guard(item, next, it, None)
        if not ok or nxt is None:
            break
        picks, r, c, ctl, hyp = nxt
        ctx.count("transitions", 1 + len(ctl.points))
        ctx.count("traces_validated_against_impl")
        case = dict(item, picks=picks)
        ctx.state(case)
        check(r, c, case)
        outcomes.add(str(fitlib.plain(r))[:200])
        for x, y in hyp:
            if all(a in pb.truth and abs(pb.truth[a] - b) < 1e-6
                   for a, b in zip(x, y)):
                if not fitlib.is_truth(r, pb):
                    ctx.violation("the truth was drawn, the result is %s"
                                  % fitlib.plain(r), case)
                break
        if ctx.stop:
            break
    ctx.count("trees_completed" if stats.get("complete") else "trees_cut")
    ctx.count("distinct_outcomes", len(outcomes))
    ctx.sample(dict(item=item, outcomes=len(outcomes)))
