"""A01: the lines that are loaded are exactly those that qualify."""
import itertools
import os

from . import core, refs

ID = "A01"
LEVEL = "exploration"
RULE = (
    "every line list of up to 4 lines over 5 wavelengths x 2 elements x "
    "intensity orders x file orders, each with every query of the alphabet "
    "(elements in 7 spellings, inclusive limits, intensities, brightest N, "
    "separation, vacuum/air); plus the bundled list, all its elements, and "
    "each of 7 routes to the lines (function, Atlas, calibrator, with and "
    "without limits) x settings off their defaults. "
    "Non-trivial: the query drops at least one line and keeps at least one."
)
BOUNDS = "line lists of <= 4 lines, bundled list of 14 thousand lines"
ASSUMPTIONS = [
    "wavelengths are distinct in the small line lists",
    "a tie of the intensity at the N-th brightest line leaves the choice open",
]

WAVES = ["4000.0", "4004.5", "4010.0", "4011.0", "4030.25"]
INTENS = [["10", "50", "100", "200"], ["200", "100", "50", "10"],
          ["50", "200", "10", "100"]]

QUERIES = []
for _e in ("He", "hE", ["He"], ["xe", "He"], ["Xe"], ["HE", "XE"], ["Kr"]):
    QUERIES.append(dict(elements=_e, min_distance=0, min_intensity=0))
for _v in (True, False):
    for _d in (0, 1.0, 5, 5.5, 7.0, 30):
        QUERIES.append(dict(elements=["He", "Xe"], min_distance=_d,
                            vacuum=_v))
    for _i in (0, 10, 10.5, 50, 100.0, 1000, [10, 100], [100, 10],
               [0.0, 60]):
        QUERIES.append(dict(elements=["Xe", "he"], min_intensity=_i,
                            min_distance=0, vacuum=_v))
    for _n in (0, 1, 2, 3, 10):
        for _d in (0, 5, 7.0):
            QUERIES.append(dict(elements=["He", "Xe"], brightest_n_lines=_n,
                                min_distance=_d, min_intensity=0, vacuum=_v))
    QUERIES.append(dict(elements=["He", "Xe"], brightest_n_lines=2,
                        min_distance=5, min_intensity=50, vacuum=_v))
for _lo, _hi in ((4000.0, 4010.0), (4004.5, 4011.0), (4004.6, 4029.0),
                 (4010.0, 4010.0), (4100.0, 4200.0), (4000, 4030.25)):
    QUERIES.append(dict(elements=["He", "Xe"], lo=_lo, hi=_hi,
                        min_distance=0, min_intensity=0, vacuum=True))
    QUERIES.append(dict(elements=["He", "Xe"], lo=_lo, hi=_hi,
                        min_distance=5, min_intensity=20, vacuum=True))
for _lo, _hi in ((3999.5, 4009.5), (4000.2, 4012.0)):
    QUERIES.append(dict(elements=["He", "Xe"], lo=_lo, hi=_hi,
                        min_distance=0, min_intensity=0, vacuum=False))
for _t, _p in ((288.15, 101325.0), (293.15, 70000.0)):
    for _v in (True, False):
        QUERIES.append(dict(elements=["He", "Xe"], min_distance=5,
                            min_intensity=20, vacuum=_v, temperature=_t,
                            pressure=_p))


def lists(tier):
    out = []
    for k in range(1, 5 if tier == "quick" else 6):
        for ws in itertools.combinations(WAVES, k):
            for es in itertools.product(("He", "Xe"), repeat=k):
                for p, ints in enumerate(INTENS):
                    if k > 4:
                        ints = ints + ["75"]
                    rows = list(zip(es, ws, ints))
                    for rev in (0, 1):
                        if k == 1 and rev:
                            continue
                        out.append(rows[::-1] if rev else rows)
    return out


def items(tier, seed):
    ls = lists(tier)
    n = 48
    its = [dict(kind="small", rows=ls[i::n]) for i in range(n)]
    for e in ("Ar", "Cd", "Cu", "He", "Hg", "Kr", "Ne", "Th", "Xe"):
        its.append(dict(kind="nist", element=e, tier=tier))
    its.append(dict(kind="history"))
    its += [dict(kind="routes", elements=e, vacuum=v, tier=tier)
            for e in ("Hg", ["xe", "Kr"], ["Cu"], ["Kr", "Hg", "Ne"])
            for v in (False, True)]
    its += [dict(kind="format", fmt=f) for f in FORMATS]
    return its


FORMATS = ["%r", "%.2f", "%.12f", "%e", "%.12e", "%.18E", "%+.8e", "%20.4f",
           "%-18.4f", "%.17g", "%015.5f"]


def run_format(item, ctx):
    """The numbers of the file in other formats, with comments."""
    path = os.path.join(core.scratch(), "fmt%d.csv" % os.getpid())
    f = item["fmt"]
    base = [("He", 4000.25, 123456.5), ("Xe", 4004.5, 20.0),
            ("he", 4010.0, 1.5), ("XE", 4030.75, 7000000.0)]
    for k in range(1, len(base) + 1):
        for rows in itertools.permutations(base, k):
            with open(path, "w") as g:
                if k % 2:
                    g.write("# element, wavelength, intensity\n")
                for n, (e, w, i) in enumerate(rows):
                    g.write("%s,%s,%s%s\n" % (
                        e, f % w, f % i, " # faint" if n == 1 else ""))
                    if n == 0:
                        g.write("\n")
            for v, m, d, b in itertools.product(
                    (True, False), (0, 20, 30000.0, None), (0, 5.0),
                    (None, 2)):
                q = dict(elements=["He", "xe"], vacuum=v, min_intensity=m,
                         min_distance=d, brightest_n_lines=b)
                compare(ctx, path, list(rows), q,
                        dict(item, rows=rows, query=q))
            if ctx.stop:
                return
    ctx.sample(dict(item, rows=rows, query=q))


def threshold(elements, min_int):
    el = [elements] if isinstance(elements, str) else elements
    if min_int is None:
        return {}
    if isinstance(min_int, list):
        return {e.lower(): m for e, m in zip(el, min_int)}
    return {e.lower(): float(min_int) for e in el}


def expected(rows, q):
    el = q["elements"]
    return refs.select(
        rows,
        [el] if isinstance(el, str) else el,
        q.get("lo", 3900.0),
        q.get("hi", 4100.0),
        threshold(el, q.get("min_intensity", 10)),
        q.get("min_distance", 10),
        q.get("brightest_n_lines"),
        q.get("vacuum", False),
        q.get("temperature", 273.15),
        q.get("pressure", 101325.0),
        q.get("relative_humidity", 0.0),
    )


def load(path, q):
    from rascal.util import load_calibration_lines

    kw = {k: v for k, v in q.items() if k not in ("lo", "hi")}
    return load_calibration_lines(
        min_atlas_wavelength=q.get("lo", 3900.0),
        max_atlas_wavelength=q.get("hi", 4100.0),
        linelist=path,
        **kw
    )


def same(got, exp):
    e, w, i = got
    if not (len(e) == len(w) == len(i) == len(exp)):
        return False
    return all(
        str(a) == x and abs(float(b) - y) < 1e-6 and float(c) == z
        for a, b, c, (x, y, z) in zip(e, w, i, exp)
    )


def compare(ctx, path, rows, q, case):
    ctx.count("evaluations")
    ok, got = ctx.guard(case, load, path, q)
    if not ok:
        return
    exp = expected(rows, q)
    if exp is None:
        ctx.count("ties")
        return
    if 0 < len(exp) < len(rows):
        ctx.key([rows if len(rows) < 9 else "nist", q])
    if not same(got, exp):
        ctx.violation(
            "loaded lines %s, expected %s"
            % ([list(map(str, g[:12])) for g in got], exp[:12]),
            case,
        )


def atlas(ctx, path, rows, q, case):
    """The Atlas holds the lines of each of the elements."""
    from rascal.atlas import Atlas

    el = q["elements"]
    el = [el] if isinstance(el, str) else el
    exp = []
    for e in el:
        r = expected(rows, dict(q, elements=e))
        if r is None:
            return
        exp += r
    ctx.count("evaluations")

    def build():
        return Atlas(
            q["elements"],
            min_atlas_wavelength=q.get("lo", 3900.0),
            max_atlas_wavelength=q.get("hi", 4100.0),
            min_intensity=q.get("min_intensity", 10),
            min_distance=q.get("min_distance", 10),
            vacuum=q.get("vacuum", False),
            temperature=q.get("temperature", 273.15),
            pressure=q.get("pressure", 101325.0),
            linelist=path,
        )

    ok, a = ctx.guard(case, build)
    if ok:
        got = (a.get_elements(), a.get_lines(), a.get_intensities())
        if not same(got, exp) or len(a) != len(exp):
            ctx.violation("atlas lines %s, expected %s" % (got, exp), case)


def run(item, ctx):
    if item["kind"] == "nist":
        return run_nist(item, ctx)
    if item["kind"] == "format":
        return run_format(item, ctx)
    if item["kind"] == "history":
        return run_history(item, ctx)
    if item["kind"] == "routes":
        return run_routes(item, ctx)
    path = os.path.join(core.scratch(), "list%d.csv" % os.getpid())
    for rows in item["rows"]:
        with open(path, "w") as f:
            for r in rows:
                f.write(",".join(r) + "\n")
        rows = [(e, float(w), float(i)) for e, w, i in rows]
        for q in QUERIES:
            case = dict(rows=rows, query=q)
            compare(ctx, path, rows, q, case)
            if "brightest_n_lines" not in q and not isinstance(
                q.get("min_intensity"), list
            ):
                atlas(ctx, path, rows, q, case)
            if ctx.stop:
                return
        ctx.sample(dict(rows=rows, query=QUERIES[3]))


def run_history(item, ctx):
    """A load does not depend on the loads before it."""
    import numpy as np

    path = os.path.join(core.scratch(), "hist%d.csv" % os.getpid())
    rows = [("He", 4000.0, 50.0), ("XE", 4004.5, 100.0), ("he", 4010.0, 20.0),
            ("Xe", 4030.25, 10.0)]
    with open(path, "w") as f:
        for r in rows:
            f.write("%s,%s,%s\n" % r)
    qs = [QUERIES[k] for k in (0, 3, 6, 9, 14, 20, 27, 45)]
    qs += [dict(elements=np.array(["He", "Xe"]).tolist(), min_distance=0,
                min_intensity=[20.0, 5.0])]
    for a, b, c in itertools.product(range(len(qs)), repeat=3):
        for q in (qs[a], qs[b], qs[c]):
            compare(ctx, path, rows, q, dict(history=[a, b, c], query=q))
        if ctx.stop:
            return


def calibrator(tol=500):
    from rascal.calibrator import Calibrator

    c = Calibrator(peaks=[10.0, 40.0, 90.0])
    c.set_calibrator_properties(num_pix=100, log_level="CRITICAL")
    c.set_hough_properties(min_wavelength=4000.0, max_wavelength=6000.0,
                           range_tolerance=tol, num_slopes=20, xbins=5,
                           ybins=5)
    return c


def routes(q, lo, hi):
    """Each of the ways to get at the bundled lines."""
    from rascal.atlas import Atlas
    from rascal.util import load_calibration_lines

    kw = {k: v for k, v in q.items() if k not in ("elements", "lo", "hi")}
    el = q["elements"]
    full = dict(kw, min_atlas_wavelength=lo, max_atlas_wavelength=hi)

    def load():
        got = [[], [], []]
        for e in [el] if isinstance(el, str) else el:
            for k, v in enumerate(load_calibration_lines(e, **full)):
                got[k] += list(v)
        return got

    def of(a):
        return a.get_elements(), a.get_lines(), a.get_intensities()

    def created():
        return of(Atlas(el, **full))

    def added():
        a = Atlas()
        a.add(el, **full)
        return of(a)

    def added_default():
        # without limits: those of the atlas, and the tolerance
        a = Atlas(min_atlas_wavelength=lo + 250.0,
                  max_atlas_wavelength=hi - 250.0, range_tolerance=250.0)
        a.add(el, **kw)
        return of(a)

    def calibrator_new():
        c = calibrator()
        c.add_atlas(el, **full)
        return of(c.atlas)

    def calibrator_more():
        c = calibrator()
        c.add_user_atlas(["X"], [5000.0])
        c.add_atlas(el, **full)
        e, w, i = of(c.atlas)
        if e[0] != "X" or w[0] != 5000.0:
            raise core.Violation("the lines of the atlas are lost")
        return e[1:], w[1:], i[1:]

    def calibrator_default():
        # without limits: those of the calibrator, and its tolerance
        c = calibrator(350.0)
        c.set_hough_properties(min_wavelength=lo + 350.0,
                               max_wavelength=hi - 350.0)
        c.add_atlas(el, **kw)
        return of(c.atlas)

    return [load, created, added, added_default, calibrator_new,
            calibrator_more, calibrator_default]


def run_routes(item, ctx):
    rows = nist()
    wide = item["tier"] == "thorough"
    for lo, hi in ((3900.0, 5250.0), (5100.5, 9000.25), (0, 2600),
                   (0.0, 4100)):
        for o in itertools.product(
                (0, 20.0), (10.0, 400), (273.15, 293.15),
                (101325.0, 70000.0), (0.0, 80.0)):
            # all pairs of settings off their defaults, or all of them
            off = sum(a != b for a, b in zip(o, (0, 10.0, 273.15, 101325.0,
                                                 0.0)))
            if not wide and off not in (0, 1, 5):
                continue
            q = dict(zip(("min_distance", "min_intensity", "temperature",
                          "pressure", "relative_humidity"), o),
                     elements=item["elements"], vacuum=item["vacuum"])
            exp = []
            for e in ([q["elements"]] if isinstance(q["elements"], str)
                      else q["elements"]):
                # the Atlas keeps the thousand brightest lines; the elements
                # here have fewer
                exp += expected(rows, dict(q, elements=e, lo=lo, hi=hi))
            case = dict(routes=q, lo=lo, hi=hi)
            for f in routes(q, lo, hi):
                ctx.count("evaluations")
                c = dict(case, route=f.__name__)
                ctx.key(c)
                ok, got = ctx.guard(c, f)
                if ok and not same(got, exp):
                    ctx.violation("%d lines %s, expected %d: %s" % (
                        len(got[0]), [list(map(str, g[:5])) for g in got],
                        len(exp), exp[:5]), c)
                if ctx.stop:
                    return
    ctx.sample(dict(case, n=len(exp)))


_NIST = []


def nist():
    if not _NIST:
        import rascal

        p = os.path.join(os.path.dirname(rascal.__file__), "arc_lines",
                         "nist_clean.csv")
        with open(p) as f:
            for line in f:
                line = line.split("#")[0].strip()
                if line:
                    e, w, i = line.split(",")[:3]
                    _NIST.append((e, float(w[:12]), float(i[:12])))
    return _NIST


def run_nist(item, ctx):
    rows = nist()
    e = item["element"]
    els = [e, e.lower(), [e.upper()], [e, "Ar", "Hg"]]
    rng = [(3000.0, 9000.0), (5000.0, 5200.0), (10000.0, 12000.0)]
    opts = []
    for v in (False, True):
        for d in (0, 3, 10.0):
            for n in (None, 5, 40):
                opts.append(dict(min_distance=d, brightest_n_lines=n,
                                 min_intensity=10, vacuum=v))
        for i in (0, 1000):
            opts.append(dict(min_distance=1, min_intensity=i, vacuum=v))
    if item["tier"] == "quick":
        els = els[:1] + els[3:]
        opts = opts[::2]
    for el in els:
        for lo, hi in rng:
            for o in opts:
                q = dict(o, elements=el, lo=lo, hi=hi)
                compare(ctx, "nist", rows, q, dict(linelist="nist", query=q))
                if ctx.stop:
                    return
