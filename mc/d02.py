"""D02: a good sample is never lost, whatever is drawn before and after it."""
import itertools

from . import fitlib, rng

ID = "D02"
LEVEL = "model_checking"
RULE = (
    "stateless exploration of fit() over the random draws. Level 1: every "
    "answer of the draws of a single try; a try whose sample holds only true "
    "pairs has to return the truth. Level 2: the tries of level 1 are "
    "concatenated in every order (pairs, and triples around a true one); the "
    "truth has to be returned if any of them returned it on its own."
)
BOUNDS = "1 try: complete; 2 tries: all the pairs; 3 tries: the true try at " \
         "each position among 2 others"
ASSUMPTIONS = ["the truth is the only solution without errors that matches "
               "all the peaks of these problems"]

P1 = fitlib.Problem
PROBLEMS = {
    "line": fitlib.PROBLEMS["line"],
    "line_extra": fitlib.PROBLEMS["line_extra"],
    "line_decoys": P1([4000.0, 10.0], [10, 25, 47, 81],
                      decoys=[4104.0, 4245.0, 4474.0, 4806.0]),
    "quad": fitlib.PROBLEMS["quad"],
    "quad_noise": P1([4000.0, 9.0, 0.01], [8, 20, 37, 55, 90],
                     noise=[0.01, -0.02, 0.015, -0.01, 0.005],
                     decoys=[4195.0, 4530.0],
                     hough=dict(linearity_tolerance=20.0), ctol=25.0),
    "quad_missing": fitlib.PROBLEMS["quad_missing"],
    "line_over": fitlib.PROBLEMS["line_over"],
    "cubic": fitlib.PROBLEMS["cubic"],
    "edge": P1([4000.0, 10.0], [0, 1, 50, 98, 99], decoys=[4004.0, 4990.5],
               hough=dict(xbins=6, ybins=5)),
}
# The limits reject a solution that costs less than the truth
NOISY = [0.3, -0.3, 0.25, -0.35, 0.3]
SPREAD = [10, 25, 47, 81, 90]
DECOYS = [4015.0 + 10.1 * p for p in SPREAD]
REJECT = {
    "few": P1([4000.0, 10.0], SPREAD, noise=NOISY, decoys=DECOYS[:4],
              ctol=30.0, ransac=dict(minimum_matches=5)),
    "unused": P1([4000.0, 10.0], SPREAD, noise=NOISY, decoys=DECOYS[:4],
                 ctol=30.0, ransac=dict(minimum_peak_utilisation=0.95)),
    "perfect": P1([4000.0, 10.0], SPREAD, noise=NOISY, decoys=DECOYS,
                  ctol=30.0, ransac=dict(minimum_fit_error=0.1)),
    "steep": P1([4000.0, 10.0], SPREAD, noise=NOISY, ctol=60.0,
                decoys=[4045.0 + 10.1 * p for p in SPREAD],
                hough=dict(range_tolerance=30.0),
                ransac=dict(top_n_candidate=4, minimum_matches=4)),
}
WEIGHTS = [1.0, 0.0]


def items(tier, seed):
    its = []
    for n in PROBLEMS:
        for w in range(len(WEIGHTS)):
            for f in range(35):
                k = len(PROBLEMS[n].peaks)
                if f < 36 and f < ncomb(n):
                    its.append(dict(kind="one", name=n, w=w, first=f))
    lim = 24 if tier == "quick" else 70
    for n in PROBLEMS:
        for w in range(len(WEIGHTS)):
            for part in range(4):
                its.append(dict(kind="two", name=n, w=w, limit=lim,
                                part=part))
    for n in REJECT:
        for w in range(len(WEIGHTS)):
            for part in range(2):
                its.append(dict(kind="reject", name=n, w=w, part=part,
                                limit=20 if tier == "quick" else 60))
    return its


def ncomb(n):
    import math

    pb = PROBLEMS[n]
    return math.comb(len(pb.peaks), pb.ransac["sample_size"])


def depth(pb):
    return pb.ransac["sample_size"] + 1


def over(item):
    return dict(ransac=dict(hough_weight=WEIGHTS[item["w"]]))


def run(item, ctx):
    if item["kind"] == "reject":
        return run_reject(item, ctx, REJECT[item["name"]])
    pb = PROBLEMS[item["name"]]
    if item["kind"] == "two":
        return run_two(item, ctx, pb)
    d = depth(pb)
    it = fitlib.runs(pb, d, first=[item["first"]], over=over(item), hyp=True,
                     budget=None)
    good = 0
    while True:
        ok, nxt = ctx.guard(item, next, it, None)
        if not ok or nxt is None:
            break
        picks, r, c, ctl, hyp = nxt
        ctx.count("transitions", len(ctl.points))
        ctx.count("traces_validated_against_impl")
        for i in range(len(picks) + 1):
            ctx.state([item["name"], item["w"], picks[:i]])
        for x, y in hyp:
            if x and all(
                a in pb.truth and abs(pb.truth[a] - b) < 1e-6
                for a, b in zip(x, y)
            ) and (item["name"] != "quad_noise"):
                good += 1
                if not fitlib.is_truth(r, pb):
                    ctx.violation(
                        "the true sample %s %s was drawn, the result is %s"
                        % (x, y, fitlib.plain(r)), dict(item, picks=picks))
                break
        if ctx.stop:
            return
    ctx.count("true_samples", good)
    if good:
        ctx.sample(dict(item=item, true_samples=good))


def single_tries(pb, ov, limit):
    """The distinct tries that need no redraw, with their results."""
    out = []
    for picks, r, c, ctl, _ in fitlib.runs(
        pb, depth(pb), limit=400, over=ov, budget=None
    ):
        if len(ctl.points) <= depth(pb):
            out.append((picks, fitlib.is_truth(r, pb), fitlib.plain(r)))
    t = [o for o in out if o[1]]
    f = [o for o in out if not o[1]]

    def spread(l, n):
        return l if len(l) <= n else [l[i * len(l) // n] for i in range(n)]

    return spread(t, limit // 2), spread(f, limit - limit // 2)


def run_two(item, ctx, pb):
    ov = over(item)
    ok, tf = ctx.guard(item, single_tries, pb, ov, item["limit"])
    if not ok:
        return
    true, false = tf
    ctx.count("true_tries", len(true))
    ctx.count("other_tries", len(false))
    base = fitlib.calibrator(pb, **ov)
    base.do_hough_transform()
    seqs = []
    for t in true:
        for f in false:
            seqs += [[t, f], [f, t]]
        for g in true:
            seqs.append([t, g])
    for t in true[:4]:
        for f, g in itertools.product(false[:5], repeat=2):
            seqs += [[t, f, g], [f, t, g], [f, g, t]]
    outcomes = set()
    for n, s in enumerate(seqs):
        if n % 4 != item["part"]:
            continue
        picks = [p for o in s for p in o[0]]

        def go():
            ctl = rng.Controller(picks)
            with rng.under(ctl):
                c = fitlib.clone(base)
                return fitlib.fit(c, pb, max_tries=len(s)), ctl

        case = dict(name=item["name"], w=item["w"], tries=[o[0] for o in s])
        ok, r = ctx.guard(case, go)
        if not ok:
            if ctx.stop:
                return
            continue
        r, ctl = r
        ctx.state(case)
        ctx.count("transitions", len(ctl.points))
        ctx.count("traces_validated_against_impl")
        outcomes.add(str(fitlib.plain(r))[:200])
        if not fitlib.is_truth(r, pb):
            ctx.violation(
                "the truth was found by one of the tries, the result is %s"
                % fitlib.plain(r), case)
        if ctx.stop:
            return
    ctx.count("distinct_outcomes", len(outcomes))


def run_reject(item, ctx, pb):
    """
    A sample that is refused has no influence: the tries after it, and the
    redraws of the same try, still find the truth.
    """
    ov = over(item)
    d = depth(pb)
    good, bad, kinds = {}, [], set()
    for picks, r, c, ctl, hyp in fitlib.runs(pb, d, over=ov, hyp=True,
                                             budget=None):
        if len(picks) < d or not hyp:
            continue
        key = sample(*hyp[0])
        if len(set(hyp[0][1])) < len(hyp[0][1]):
            continue
        if len(ctl.points) == d:
            if fitlib.is_truth(r, pb):
                good[key] = picks
        elif len(hyp) > 1:
            bad.append((key, picks))
    refused = [b for b in bad if len(b[1]) == d]
    ctx.count("true_tries", len(good))
    ctx.count("refused_samples", len(refused))
    if not good or not refused:
        ctx.violation("the problem has %d samples of the truth and %d samples "
                      "that are refused" % (len(good), len(refused)),
                      dict(item))
        return

    def spread(l, n):
        return l if len(l) <= n else [l[i * len(l) // n] for i in range(n)]

    base = fitlib.calibrator(pb, **ov)
    base.do_hough_transform()
    g = spread(sorted(good.values()), item["limit"])
    b = [x[1] for x in spread(refused, item["limit"])]
    seqs = [[x, y] for x in b for y in g]
    seqs += [[y, x] for x in b for y in g]
    seqs += [[x, z, y] for x in b[:6] for z in b[:6] for y in g[:4]]
    seqs += [[y, x, z] for x in b[:4] for z in b[:4] for y in g[:3]]
    for n, s in enumerate(seqs):
        if n % 2 != item["part"]:
            continue
        picks = [p for o in s for p in o]

        def go():
            ctl = rng.Controller(picks)
            with rng.under(ctl):
                c = fitlib.clone(base)
                with fitlib.Hypotheses() as h:
                    r = fitlib.fit(c, pb, max_tries=len(s))
            return r, ctl, h.seen

        case = dict(name=item["name"], w=item["w"], draws=s)
        ok, out = ctx.guard(case, go)
        if not ok:
            if ctx.stop:
                return
            continue
        r, ctl, hyp = out
        ctx.state(case)
        ctx.count("transitions", len(ctl.points))
        ctx.count("traces_validated_against_impl")
        hit = [h for h in hyp if sample(*h) in good]
        ctx.count("true_samples", len(hit))
        if hit and not fitlib.is_truth(r, pb):
            ctx.violation(
                "the sample %s finds the truth on its own, after or before "
                "samples that are refused the result is %s"
                % (hit[0], fitlib.plain(r)), case)
        if ctx.stop:
            return


def sample(x, y):
    return tuple(sorted((round(a, 6), round(b, 6)) for a, b in zip(x, y)))
