"""C03: the pairs are those of the peaks and of the current lines."""
import itertools

from . import core

ID = "C03"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over the histories of changes of the atlas and of "
    "the settings through a Calibrator; after each call the pairs are "
    "compared with the product of the peaks and the current lines (within "
    "the polygon, if it is asked for); states are pairs + settings."
)
BOUNDS = "all the histories of 3 of 17 calls (thorough: 4) up to equal states"
ASSUMPTIONS = ["the atlas is changed through the Calibrator"]

PEAKS = [5.0, 20.0, 40.0, 49.0]
SETS = {
    "a": [3010.0, 4100.0, 5600.0, 8800.0],
    "b": [2600.0, 3010.0, 7000.5],
    "c": [],
}
OPS = [
    ["set", "a", 10.0, False],
    ["set", "b", 10.0, False],
    ["set", "a", 10.0, True],
    ["set", "b", 200.0, True],
    ["set", "c", 10.0, False],
    ["add", 5000.0, 10.0, False],
    ["add", 4100.0, 10.0, False],
    ["add", 3300.0, 50.0, True],
    ["element", "Xe"],
    ["remove", 4100.0, 20],
    ["remove", 5600.0, 10000],
    ["remove", 1.0, 1],
    ["clear"],
    ["hough", dict(range_tolerance=100.0)],
    ["hough", dict(min_wavelength=2500.0, max_wavelength=7000.0)],
    ["pixels", dict(num_pix=80)],
    ["transform"],
]


def items(tier, seed):
    d = 3 if tier == "quick" else 4
    return [dict(first=i, second=j, depth=d) for i in range(len(OPS))
            for j in range(len(OPS))]


def hull(points):
    pts = sorted(set(points))

    def half(seq):
        out = []
        for p in seq:
            while len(out) > 1 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]

    return half(pts) + half(pts[::-1])


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def inside(h, p):
    """1 inside, 0 outside, None next to the border."""
    v = min(cross(a, b, p) / max(1.0, abs(b[0] - a[0]) + abs(b[1] - a[1]))
            for a, b in zip(h, h[1:] + h[:1]))
    if abs(v) < 1e-6:
        return None
    return 1 if v > 0 else 0


def execute(hist):
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    c = Calibrator(list(PEAKS))
    c.set_calibrator_properties(num_pix=50)
    lines, ctol, poly, n = None, None, None, 50
    h = dict(min_wavelength=3000.0, max_wavelength=9000.0,
             range_tolerance=500)
    c.set_hough_properties(num_slopes=20, xbins=5, ybins=5)
    for op in hist:
        if op[0] == "set":
            a = Atlas()
            if SETS[op[1]]:
                a.add_user_atlas(["X"] * len(SETS[op[1]]), list(SETS[op[1]]))
            c.set_atlas(a, candidate_tolerance=op[2], constrain_poly=op[3])
            lines, ctol, poly = list(SETS[op[1]]), op[2], op[3]
        elif op[0] == "add":
            c.add_user_atlas(["Y"], [op[1]], candidate_tolerance=op[2],
                             constrain_poly=op[3])
            lines, ctol, poly = (lines or []) + [op[1]], op[2], op[3]
        elif op[0] == "element":
            before = list(c.atlas.get_lines()) if c.atlas is not None else []
            c.add_atlas(op[1], min_intensity=300, min_distance=50)
            now = [float(w) for w in c.atlas.get_lines()]
            new = now[len(before):]
            if now[:len(before)] != before:
                raise core.Violation("lines disappear when adding an element")
            lo = h["min_wavelength"] - h["range_tolerance"] - 1
            hi = h["max_wavelength"] + h["range_tolerance"] + 1
            if any(not lo <= w <= hi for w in new):
                raise core.Violation("a line out of the range is added")
            lines, ctol, poly = (lines or []) + new, 10.0, False
        elif op[0] == "remove":
            if lines is None:
                continue
            c.remove_atlas_lines_range(op[1], op[2])
            lines = [w for w in lines if not abs(w - op[1]) < op[2]]
        elif op[0] == "clear":
            if lines is None:
                continue
            c.clear_atlas()
            lines = []
        elif op[0] == "hough":
            c.set_hough_properties(**op[1])
            h.update(op[1])
        elif op[0] == "pixels":
            c.set_calibrator_properties(**op[1])
            n = op[1]["num_pix"]
        elif op[0] == "transform":
            if not lines or poly:
                continue
            c.do_hough_transform()
        if lines is None:
            continue
        if sorted(map(float, c.atlas.get_lines())) != sorted(lines):
            raise core.Violation("lines %s, expected %s" % (
                sorted(c.atlas.get_lines()), sorted(lines)))
        want = [(p, w) for p in PEAKS for w in lines]
        got = [tuple(map(float, q)) for q in c.pairs]
        if poly:
            lo, hi = h["min_wavelength"], h["max_wavelength"]
            rt = h["range_tolerance"]
            g = hull([(0.0, lo + rt + ctol), (0.0, lo - rt - ctol),
                      (n - 1.0, hi - rt - ctol), (n - 1.0, hi + rt + ctol)])
            side = {q: inside(g, q) for q in want}
            maybe = {q for q in want if side[q] is None}
            want = [q for q in want if side[q] == 1]
            got = [q for q in got if q not in maybe]
        if sorted(got) != sorted(want):
            raise core.Violation("pairs %s, expected %s" % (
                sorted(got), sorted(want)))
    return [lines, ctol, poly, n, h]


def run(item, ctx):
    frontier = [[OPS[item["first"]]]]
    for depth in range(1, item["depth"]):
        new = []
        for hist in frontier:
            for j, op in enumerate(OPS):
                if depth == 1 and j != item["second"]:
                    continue
                g = hist + [op]
                ctx.count("transitions", len(g))
                ctx.count("traces_validated_against_impl")
                ok, st = ctx.guard(dict(history=g), execute, g)
                if ctx.stop:
                    return
                if ok and (ctx.state(st) or depth == 1):
                    new.append(g)
        frontier = new
    if frontier:
        ctx.sample(dict(history=frontier[0]))
