"""G03: the simulated arc shows the lines that qualify, and their blend."""
import itertools
import math
import os

from . import core, plotutil, refs

ID = "G03"
LEVEL = "exploration"
RULE = (
    "every line list of the alphabet (1 to 4 lines of 2 elements, 2 orders of "
    "the intensities, lines in the same bin, none in the range) x elements "
    "(5 spellings) x intensity x separation x brightest N x vacuum/air x "
    "label x logarithm x sampling; the figure is read back. Non-trivial: at "
    "least one line is drawn."
)
BOUNDS = "line lists of <= 4 lines over 32 Angstrom"
ASSUMPTIONS = [
    "matplotlib's artists are what is drawn",
    "a tie of the intensity at the N-th brightest line leaves the choice open",
]

LISTS = {
    "four": [("He", 4001.5, 100.0), ("Xe", 4006.25, 50.0),
             ("He", 4012.0, 200.0), ("Xe", 4021.125, 10.0)],
    "rev": [("Xe", 4021.125, 80.0), ("He", 4012.0, 20.0),
            ("Xe", 4006.25, 300.0), ("He", 4001.5, 30.0)],
    "bin": [("He", 4010.0002, 60.0), ("Xe", 4010.0001, 40.0),
            ("He", 4018.0, 90.0)],
    "one": [("Xe", 4010.0, 75.0)],
    "out": [("Xe", 4010.0, 75.0), ("Xe", 4044.0, 70.0), ("He", 3970.0, 99.0)],
}
ELEMENTS = ["He", ["He", "Xe"], ["xe"], ["XE", "hE"], ["Kr", "Xe"]]
LO, HI = 3999.0, 4031.0


def items(tier, seed):
    its = []
    for n, e, v in itertools.product(sorted(LISTS), ELEMENTS, (True, False)):
        its.append(dict(list=n, elements=e, vacuum=v, tier=tier))
    return its


def options(tier, elements):
    ints = [5.0, 0.0, 45.0]
    if isinstance(elements, list) and len(elements) == 2:
        ints += [[60.0, 5.0], [5.0, 60.0]]
    k = 0
    for i, d, b in itertools.product(ints, (0.0, 5.0, 6.0),
                                     (None, 1, 2, 3)):
        for lab, log, scale, air in itertools.product(
                (False, True), (False, True), (1.0, 0.2),
                ({}, dict(temperature=288.15, pressure=70000.0))):
            if log and isinstance(i, list):
                continue
            k += 1
            # the drawing options do not depend on the selection: every value
            # of each with every selection
            n = (lab * 4 + log * 2 + (scale != 1.0)) * 2 + bool(air)
            if tier == "quick" and n not in (0, 15, 6 + k % 2):
                continue
            yield dict(min_intensity=i, min_distance=d, brightest_n_lines=b,
                       label=lab, log=log, pixel_scale=scale, **air)


def expected(rows, item, q):
    el = item["elements"]
    el = [el] if isinstance(el, str) else el
    air = (q.get("temperature", 273.15), q.get("pressure", 101325.0))
    base = refs.select(rows, el, LO, HI, {}, 0.0, q["brightest_n_lines"],
                       item["vacuum"], *air)
    if base is None:
        return None
    i = q["min_intensity"]
    thr = {e.lower(): (i[k] if isinstance(i, list) else i)
           for k, e in enumerate(el)}
    # the selection is already in the air, if asked for
    named = refs.select(base, el, 0.0, 1e9, thr, q["min_distance"], None, True)
    return base, named, el


def run(item, ctx):
    rows = LISTS[item["list"]]
    path = os.path.join(core.scratch(), "g03_%d.csv" % os.getpid())
    with open(path, "w") as f:
        for e, w, i in rows:
            f.write("%s,%s,%s\n" % (e, w, i))
    for q in options(item["tier"], item["elements"]):
        case = dict(item, **q)
        exp = expected(rows, item, q)
        if exp is None:
            continue

        def go():
            import matplotlib.pyplot as plt
            from rascal.plotting import plot_calibration_lines

            plt.close("all")
            el = item["elements"]
            fig = plot_calibration_lines(
                elements=el if isinstance(el, str) else list(el),
                min_atlas_wavelength=LO, max_atlas_wavelength=HI,
                vacuum=item["vacuum"], linelist=path, display=False,
                fig_kwarg={"figsize": (4, 3)}, **q)
            out = plotutil.from_matplotlib(fig)
            legend = [t.get_text() for ax in fig.axes
                      for t in (ax.get_legend().get_texts()
                                if ax.get_legend() else [])]
            log = [ax.get_yscale() == "log" for ax in fig.axes]
            plt.close("all")
            return out, legend, log

        ctx.count("evaluations")
        ok, r = ctx.guard(case, go)
        if ctx.stop:
            return
        if not ok:
            continue
        judge(ctx, case, q, item, exp, *r)
    ctx.sample(case)


def judge(ctx, case, q, item, exp, fig, legend, log):
    base, named, el = exp
    if named:
        ctx.key(case)

    def fail(what):
        ctx.violation("the simulated arc: " + what, case)

    # plotutil gives the logarithms of what is on a logarithmic axis
    def seen(v):
        return plotutil.log(v, bool(log) and log[0])

    drawn = [e for e in el if any(n[0].lower() == e.lower() for n in named)]
    # one group of markers for each element
    want = {e: [(w, seen(i)) for n, w, i in named if n.lower() == e.lower()]
            for e in drawn}
    if len(fig.points) != len(drawn):
        fail("%d groups of lines, expected %s" % (len(fig.points), want))
    for e in drawn:
        if not plotutil.has(fig.points, want[e], close):
            fail("the lines of %s are not at %s; there is %s"
                 % (e, want[e], fig.points))
        if not plotutil.has_marks(fig, [w for w, _ in want[e]]):
            fail("the stems of %s" % e)
    if sorted(t for t in legend if t in el) != sorted(drawn):
        fail("the legend %s, the elements are %s" % (legend, drawn))
    curves = [c for c in fig.curves if len(c) > 100]
    if len(curves) != 1:
        fail("%d spectra" % len(curves))
        return
    c = curves[0]
    if abs(c[0][0] - LO) > 2e-3 or abs(c[-1][0] - HI) > 2e-3:
        fail("the spectrum covers %s to %s" % (c[0][0], c[-1][0]))
    sigma = 2.5 * q["pixel_scale"]
    scale = max([i for _, _, i in base] + [1.0])
    for k in range(0, len(c), 97):
        x, y = c[k]
        if log and log[0]:
            # far from the lines: below what can be told
            y = 10.0 ** y if y == y else 0.0
        z = sum(i * math.exp(-(x - w) ** 2 / (2 * sigma * sigma))
                for _, w, i in base)
        if not abs(y - z) < 5e-3 * scale:
            fail("the flux at %s is %s, expected %s" % (x, y, z))
            break
    texts = sorted(fig.texts)
    exp_t = sorted("%s: %1.2f" % (e, w) for e in drawn for w, _ in want[e]) \
        if q["label"] else []
    if texts != exp_t:
        fail("the labels %s, expected %s" % (texts, exp_t))
    if log != [q["log"]]:
        fail("the logarithmic scale is %s" % log)
    name = "acuum" if item["vacuum"] else "ir"
    if not any(name in a and "avelength" in a for a, _ in fig.labels):
        fail("the label of the axis %s" % fig.labels)


def close(a, b):
    # the wavelengths in the air are those of the line list
    if len(a) != len(b):
        return False
    return all(abs(p[0] - q[0]) < 1e-5 and abs(p[1] - q[1]) < 1e-6
               for p, q in zip(sorted(a), sorted(b)))
