"""D12: every sample can be drawn, the isolated peaks more often."""
import itertools

from . import fitlib, rng

ID = "D12"
LEVEL = "model_checking"
RULE = (
    "stateless exploration of the draws of one try of fit(), for every set of "
    "peaks of the alphabet x size of the sample x known pairs: the "
    "probabilities of the peaks are compared with the inverse of the number "
    "of peaks in their tenth of the range, and the samples that are reached "
    "with all the one-to-one choices of candidates of as many peaks. A state "
    "is a sample."
)
BOUNDS = "2-5 (thorough: 2-8) of 8 peaks, samples of 2 and 3 peaks and " \
         "larger than the number of peaks, up to 4 candidates for each peak"
ASSUMPTIONS = ["the draws use numpy.random.choice"]

POS = [5.2, 8.1, 11.4, 30.7, 52.3, 55.9, 58.8, 93.6]
DECOYS = [4066.0, 4102.0, 4531.0, 4575.0, 4950.0]


class Enough(BaseException):
    pass


def items(tier, seed):
    its = []
    for k in range(2, 6 if tier == "quick" else 9):
        for s in (2, 3, 9):
            if k < s < 9:
                continue
            if s == 9 and k > (4 if tier == "quick" else 6):
                continue
            if tier == "quick" and k == 5 and s == 3:
                continue
            for part in range(4):
                its.append(dict(k=k, size=s, part=part))
    its += [dict(k=k, size=2, known=True, part=p) for k in (2, 3, 4)
            for p in range(2)]
    return its


def problem(peaks, size, known):
    pb = fitlib.Problem([4000.0, 10.0], list(peaks), decoys=DECOYS, ctol=28.0,
                        ransac=dict(sample_size=size, top_n_candidate=4))
    if known:
        pb.known = ([70.3], [4703.0])
    return pb


def frequencies(peaks):
    """Proportional to the inverse of the number of peaks of its tenth."""
    lo, hi = min(peaks), max(peaks)
    box = [min(int((p - lo) / (hi - lo) * 10), 9) for p in peaks]
    w = [1.0 / box.count(b) for b in box]
    return [v / sum(w) for v in w]


def assignments(cand, size):
    """All the one-to-one choices of `size` peaks and their candidates."""
    out = set()
    for ps in itertools.combinations(sorted(cand), size):
        for ws in itertools.product(*[cand[p] for p in ps]):
            if len(set(ws)) == size:
                out.add(tuple(zip(ps, ws)))
    return out


def run(item, ctx):
    sets = list(itertools.combinations(POS, item["k"]))
    for peaks in sets[item["part"]::2 if item.get("known") else 4]:
        one(item, ctx, peaks)
        if ctx.stop:
            return
    ctx.sample(dict(item, peaks=peaks))


def one(item, ctx, peaks):
    import numpy as np

    pb = problem(peaks, item["size"], item.get("known"))
    base = fitlib.calibrator(pb)
    base.do_hough_transform()
    case = dict(item, peaks=peaks)
    known = len(pb.known[0]) if pb.known else 0

    def execute(ctl):
        calls = []
        choice = ctl.choice

        h = fitlib.Hypotheses()

        def record(a, size=None, replace=True, p=None):
            if size is not None:
                calls.append((np.asarray(a), size, replace, p))
                if h.seen:
                    raise Enough  # this is the second sample
            return choice(a, size, replace, p)

        ctl.choice = record
        c = fitlib.clone(base)
        with h:
            try:
                fitlib.fit(c, pb)
            except Enough:
                pass
        return c, calls, h.seen

    seen, cand, size = set(), None, None
    it = rng.schedules(execute, 1 + 2 * min(item["size"], item["k"]))
    while True:
        ok, nxt = ctx.guard(case, next, it, None)
        if not ok or nxt is None:
            break
        picks, (c, calls, hyp) = nxt
        ctx.count("transitions", 1 + len(picks))
        ctx.count("traces_validated_against_impl")
        if cand is None:
            cand = {}
            for p, w in zip(c.candidate_peak, c.candidate_arc):
                cand.setdefault(float(p), set()).add(float(w))
            size = min(item["size"], len(cand))
            freq = dict(zip(sorted(cand), frequencies(sorted(cand)))) \
                if len(cand) > 1 else {}
        if len(cand) < 2:
            continue
        if not calls:
            ctx.violation("no peaks are drawn", case)
            return
        for a, n, replace, p in calls:
            if p is None:
                p = [1.0 / len(a)] * len(a)
            got = {}
            for x, v in zip(a.tolist(), p):
                got[x] = got.get(x, 0.0) + float(v)
            if n != size or (replace and n > 1):
                ctx.violation("%s peaks are drawn, expected %d different "
                              "ones" % (n, size), case)
                return
            if set(got) != set(freq) or any(
                    abs(got[x] - freq[x]) > 1e-9 for x in freq):
                ctx.violation("the peaks are drawn with the chances %s, "
                              "expected %s" % (got, freq), case)
                return
        if not hyp:
            continue
        x, y = hyp[0]
        pairs = sorted(zip(x[:len(x) - known], y[:len(y) - known]))
        if known and sorted(zip(x, y)) != sorted(
                pairs + list(zip(*pb.known))):
            ctx.violation("the known pairs are not in %s" % (hyp[0],), case)
        seen.add(tuple(pairs))
        ctx.state([case, pairs])
        # a line that starts out of the window, or that decreases
        m, b = np.polynomial.polynomial.Polynomial.fit(
            x, y, 1).convert().coef if len(x) == 2 else (1.0, 0.0)
        m, b = b, m
        refused = len(x) == 2 and (
            m < -1e-6 or b < c.min_intercept - 1e-6
            or b > c.max_intercept + 1e-6)
        if refused:
            ctx.count("refused_samples")
            if len(calls) < 2:
                ctx.violation("the sample %s is refused and not drawn again"
                              % (pairs,), case)
        if ctx.stop:
            return
    if cand is None or len(cand) < 2:
        ctx.count("too_few_candidates")
        return
    want = assignments(cand, size)
    if seen != want:
        ctx.violation(
            "samples that cannot be drawn: %s; that should not be: %s" % (
                sorted(want - seen)[:3], sorted(seen - want)[:3]), case)
