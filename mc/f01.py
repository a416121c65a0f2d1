"""F01: refined peaks are the centres of the peaks of the spectrum."""
import itertools
import math

from . import core

ID = "F01"
LEVEL = "exploration"
RULE = (
    "every position of a Gaussian peak on a lattice of a tenth of a pixel x "
    "width x height x window x error of the first estimate, at the middle and "
    "at both ends of the spectrum; every sequence of up to 3 estimates next "
    "to 2 or 3 peaks, missing pixels, empty regions, types of the inputs. "
    "Non-trivial: the centre is not an integer."
)
BOUNDS = "spectra of 80 pixels, windows of 4-15 pixels, sigma 1-4 pixels"
ASSUMPTIONS = ["the background is removed and the peaks are resolved"]

N = 80
SIGMA = [1.0, 1.5, 2.5, 4.0]
WINDOW = [4, 6, 10, 15]
BASE = [0, 1, 3, 5, 8, 40, 41, 70, 75, 78]
HEIGHT = [100.0, 1.0, 6e4, 1e-3]


def items(tier, seed):
    its = [dict(kind="single", sigma=s, window=w, tier=tier)
           for s in SIGMA for w in WINDOW]
    its += [dict(kind="several", sigma=s, window=w) for s in (1.0, 1.5, 2.0)
            for w in (4, 6, 8)]
    its.append(dict(kind="empty"))
    return its


def gauss(c, s, a):
    return [a * math.exp(-(i - c) ** 2 / (2 * s * s)) for i in range(N)]


def call(spectrum, peaks, window):
    import numpy as np
    from rascal.util import refine_peaks

    sb, pb = np.array(spectrum, float), np.array(peaks, float)
    r = refine_peaks(spectrum, peaks, window_width=window)
    if not np.array_equal(sb, np.array(spectrum, float), equal_nan=True) or \
            not np.array_equal(pb, np.array(peaks, float)):
        raise core.Violation("the inputs are changed")
    r = [float(v) for v in r]
    if any(not 0 < v < N for v in r):
        raise core.Violation("positions out of the spectrum: %s" % r)
    if len(r) > len(peaks):
        raise core.Violation("%d positions for %d peaks" % (
            len(r), len(peaks)))
    if any(abs(a - b) < 1e-6 for a, b in itertools.combinations(r, 2)):
        raise core.Violation("the positions %s are not unique" % r)
    return r


def run(item, ctx):
    {"single": single, "several": several, "empty": empty}[item["kind"]](
        item, ctx)


def single(item, ctx):
    import numpy as np

    s, w = item["sigma"], item["window"]
    fine = 10 if item["tier"] == "quick" else 40
    for b, f, (h, a) in itertools.product(
            BASE, range(fine), enumerate(HEIGHT)):
        c = b + f / fine
        if c < 0.3 or (f + h + b) % 2 and h and fine == 10:
            continue
        y = gauss(c, s, a)
        for off in (-2.0, -1, 0, 0.6, 1, 2):
            p = round(c) + off
            if off == 0.6:
                p = c + 0.3
            if not 0 <= p < N or p + w - c < 2 or c - p + w < 2:
                continue
            if (N - 1 - c) < 1 and s < 1.5:
                continue  # one side of the peak is not in the spectrum
            if c < 1 and s < 1.5:
                continue
            case = dict(item, centre=c, height=a, estimate=p)
            ctx.count("evaluations")
            if f:
                ctx.key(case)
            spec = y if h % 2 else np.array(y)
            est = [p] if h < 2 else np.array([p])
            ok, r = ctx.guard(case, call, spec, est, w)
            if ctx.stop:
                return
            if ok and (len(r) != 1 or abs(r[0] - c) > 0.02):
                ctx.violation("refined to %s" % r, case)
    ctx.sample(case)


def several(item, ctx):
    import numpy as np

    s, w = item["sigma"], item["window"]
    gap = 2 * w + 6 * s
    for first, frac in itertools.product((w + 2.0, w + 4.3),
                                         (0.0, 0.25, 0.6)):
        centres = [first, first + gap + frac]
        if centres[-1] + gap < N - 6:
            centres.append(centres[-1] + gap + 1 - frac)
        for heights in itertools.product((50.0, 2000.0), repeat=len(centres)):
            y = np.zeros(N)
            for c, a in zip(centres, heights):
                y += np.array(gauss(c, s, a))
            near = []
            for k, c in enumerate(centres):
                near += [(k, int(round(c)) - 1), (k, int(round(c))),
                         (k, int(round(c)) + 1), (k, c + 0.2)]
            for n in (1, 2, 3):
                for seq in itertools.permutations(near, n):
                    if n == 3 and (seq[0][1] + seq[2][1]) % 2 > 0.5:
                        continue
                    case = dict(item, centres=centres, heights=heights,
                                estimates=[p for _, p in seq])
                    ctx.count("evaluations")
                    if frac:
                        ctx.key(case)
                    ok, r = ctx.guard(case, call, y, [p for _, p in seq], w)
                    if ctx.stop:
                        return
                    if not ok:
                        continue
                    want = []
                    for k, _ in seq:
                        if centres[k] not in want:
                            want.append(centres[k])
                    if len(r) != len(want) or any(
                            abs(a - b) > 0.05 for a, b in zip(r, want)):
                        ctx.violation("refined to %s, expected %s"
                                      % (r, want), case)
    ctx.sample(case)


def empty(item, ctx):
    """Missing pixels, nothing to fit, and where the window lies."""
    import numpy as np

    for s, w, c in itertools.product((1.5, 2.5), (6, 10),
                                     (2.3, 20.4, 39.9, 76.2)):
        y = np.array(gauss(c, s, 300.0))
        for k in (1, 2):
            for miss in itertools.combinations(range(-4, 5), k):
                z = y.copy()
                for m in miss:
                    if 0 <= int(c) + m < N:
                        z[int(c) + m] = np.nan
                case = dict(item, sigma=s, window=w, centre=c, missing=miss)
                ctx.count("evaluations")
                ctx.key(case)
                ok, r = ctx.guard(case, call, z, [int(c)], w)
                if ctx.stop:
                    return
                if ok and (len(r) != 1 or abs(r[0] - c) > 0.02):
                    ctx.violation("refined to %s" % r, case)
        # other peaks out of the window do not count
        for d in range(w + 12, 40):
            for far in (c + d, c - d):
                if not 0 <= far < N:
                    continue
                z = y + np.array(gauss(far, 1.2, 9000.0))
                case = dict(item, sigma=s, window=w, centre=c, other=far)
                ctx.count("evaluations")
                ok, r = ctx.guard(case, call, z, [round(c)], w)
                if ok and (len(r) != 1 or abs(r[0] - c) > 0.05):
                    ctx.violation("refined to %s" % r, case)
                if ctx.stop:
                    return
    for spec, peaks in itertools.product(
            (np.zeros(N), np.full(N, np.nan), [0.0] * N),
            ([], [5], [0, 40, 79], np.array([3.3]))):
        case = dict(item, spectrum=str(spec)[:20], peaks=list(peaks))
        ctx.count("evaluations")
        ok, r = ctx.guard(case, call, spec, peaks, 8)
        if ok and r:
            ctx.violation("refined to %s although there is nothing" % r, case)
    ok, r = ctx.guard(item, call, gauss(20.3, 2, 10), [], 8)
    if ok and r:
        ctx.violation("positions of no peaks: %s" % r, item)
