"""B02: the accumulator and the ranked lines describe the Hough points."""
import collections
import itertools

from . import core

ID = "B02"
LEVEL = "model_checking"
RULE = (
    "every multiset of up to 4 points of a 4 x 4 lattice, binned with every "
    "number of bins, followed by every history (depth <= 2) of merging one of "
    "3 arrays / transforms and binning again; up to 65537 points in a bin; "
    "state = content of the points "
    "and the bins."
)
BOUNDS = "<= 4 points + 2 merges, 1-4 bins per axis"
ASSUMPTIONS = ["bins are half open except the last one, as in numpy",
               "bins of the same count can be ranked in any order"]

GX = [0.0, 1.0, 2.0, 4.0]
GY = [10.0, 12.0, 13.0, 18.0]
BINS = [(1, 1), (2, 2), (3, 2), (1, 4), (4, 4)]
# where the types of fewer bits overflow
MANY = [127, 128, 255, 256, 257, 512, 32768, 65535, 65536, 65537]
EXTRA = [[(1.0, 12.0)], [(0.5, 11.0), (6.0, 10.0)], [(2.0, 18.0)] * 3]
OPS = ([["bin", b] for b in BINS] + [["array", e] for e in EXTRA]
       + [["object", e] for e in EXTRA[:2]] + [["bad", None], ["bad", "x"],
                                               ["bad", [(1.0, 1.0)]]])


def items(tier, seed):
    kmax = 4 if tier == "quick" else 5
    its = [dict(part=p, parts=24, kmax=kmax) for p in range(24)]
    # many points in a bin
    its += [dict(many=k, kmax=kmax) for k in range(len(MANY))]
    return its


def sources(kmax):
    grid = list(itertools.product(GX, GY))
    for k in range(1, kmax + 1):
        for c in itertools.combinations_with_replacement(grid, k):
            yield c


def expect_bins(pts, bins):
    """Counts per bin with the equal-width bins over the range of points."""
    edges = []
    for axis, n in enumerate(bins):
        v = [p[axis] for p in pts]
        lo, hi = min(v), max(v)
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        edges.append([lo + (hi - lo) * k / n for k in range(n + 1)])
    return edges


def check_bins(ht, pts, bins):
    import numpy as np

    h, xe, ye = ht.hist, ht.xedges, ht.yedges
    ex, ey = expect_bins(pts, bins)
    if np.shape(h) != tuple(bins):
        return "histogram of shape %s, expected %s" % (np.shape(h), bins)
    if not (np.allclose(xe, ex, atol=1e-9) and np.allclose(ye, ey,
                                                          atol=1e-9)):
        return "edges %s %s, expected %s %s" % (xe, ye, ex, ey)
    cnt = {}
    for p, times in collections.Counter(pts).items():
        ij = []
        for v, e in zip(p, (xe, ye)):
            k = sum(1 for q in e[1:-1] if v >= q)
            ij.append(k)
        cnt[tuple(ij)] = cnt.get(tuple(ij), 0) + times
    for i in range(bins[0]):
        for j in range(bins[1]):
            if h[i][j] != cnt.get((i, j), 0):
                return "bin %s counts %s, expected %s" % (
                    (i, j), h[i][j], cnt.get((i, j), 0))
    lines = [(float(a), float(b)) for a, b in ht.hough_lines]
    if len(lines) != bins[0] * bins[1]:
        return "%d lines for %d bins" % (len(lines), bins[0] * bins[1])
    seen, last = set(), None
    for m, c in lines:
        i = [k for k in range(bins[0]) if ex[k] < m < ex[k + 1]]
        j = [k for k in range(bins[1]) if ey[k] < c < ey[k + 1]]
        if len(i) != 1 or len(j) != 1:
            return "line %s is not the centre of a bin" % ((m, c),)
        i, j = i[0], j[0]
        if abs(m - (ex[i] + ex[i + 1]) / 2) > 1e-9 or abs(
                c - (ey[j] + ey[j + 1]) / 2) > 1e-9:
            return "line %s is not the centre of a bin" % ((m, c),)
        if (i, j) in seen:
            return "bin %s is listed twice" % ((i, j),)
        seen.add((i, j))
        n = cnt.get((i, j), 0)
        if last is not None and n > last:
            return "the lines are not in the order of the counts"
        last = n
    return None


def execute(start, hist):
    import numpy as np
    from rascal.houghtransform import HoughTransform

    ht = HoughTransform()
    ht.hough_points = np.array(start)
    pts = list(start)
    binned = None
    for op, arg in hist:
        if op == "bin":
            ht.bin_hough_points(*arg)
            binned = (list(pts), arg)
        elif op == "array":
            e = np.array(arg)
            ht.add_hough_points(e)
            pts = pts + list(arg)
            if not np.array_equal(e, np.array(arg)):
                raise core.Violation("the merged array is modified")
        elif op == "object":
            o = HoughTransform()
            o.hough_points = np.array(arg)
            ht.add_hough_points(o)
            pts = pts + list(arg)
            if not np.array_equal(o.hough_points, np.array(arg)):
                raise core.Violation("the merged transform is modified")
        else:
            try:
                ht.add_hough_points(arg)
            except TypeError:
                pass
            else:
                raise core.Violation("points of an unknown type are accepted")
        got = sorted(map(tuple, np.asarray(ht.hough_points).tolist()))
        if got != sorted(tuple(map(float, p)) for p in pts):
            raise core.Violation("points %s, expected %s" % (got, pts))
        if binned:
            e = check_bins(ht, *binned)
            if e:
                raise core.Violation(e)
    return pts, binned


def run_many(item, ctx):
    n = MANY[item["many"]]
    cells = [(0.0, 10.0), (1.0, 18.0), (4.0, 13.0)]
    for few, k in itertools.product([0, 1, 2, 200], range(len(cells))):
        pts = [cells[k]] * n + [cells[k - 1]] * few + [cells[k - 2]]
        for h in ([["bin", (2, 2)]], [["bin", (4, 3)], ["array", EXTRA[0]],
                                      ["bin", (3, 2)]]):
            case = dict(item, few=few, cell=k, history=h)
            ctx.count("transitions", len(h))
            ctx.count("traces_validated_against_impl")
            ok, r = ctx.guard(case, execute, pts, h)
            if ok:
                ctx.state(case)
            if ctx.stop:
                return
    ctx.sample(case)


def run(item, ctx):
    if "many" in item:
        return run_many(item, ctx)
    for n, start in enumerate(sources(item["kmax"])):
        if n % item["parts"] != item["part"]:
            continue
        deep = len(start) <= 2
        hists = [[["bin", b]] for b in BINS]
        if deep:
            hists += [[a, b, ["bin", c]] for a in OPS for b in OPS
                      for c in ((2, 2), (3, 2))]
        else:
            # all the numbers of bins, then a merge and another binning
            hists = [[["bin", BINS[k % len(BINS)]] for k in (i, i + 1)]
                     for i in range(len(BINS))]
        for h in hists:
            case = dict(points=start, history=h)
            ctx.count("transitions", len(h))
            ctx.count("traces_validated_against_impl")
            ok, r = ctx.guard(case, execute, start, h)
            if ok:
                ctx.state([sorted(r[0]), r[1]])
            if ctx.stop:
                return
        ctx.sample(dict(points=start, history=hists[0]))
