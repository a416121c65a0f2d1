"""E02: every history of manual edits of the matches agrees with a list."""
import math

from . import core, fitlib

ID = "E02"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over the histories of adding, removing and listing "
    "matched pairs, refitting them (by degree, by initial coefficients, with "
    "explicit lists, with refused arguments), matching again and fitting "
    "again, from two starting points; the reference is a sorted list of "
    "pairs and the least-squares polynomial through them. A state is the "
    "list of pairs and the coefficients."
)
BOUNDS = "all the histories of 3 (quick) or 4 of 25 edits, up to equal states"
ASSUMPTIONS = [
    "errors of the lines are far smaller than the range of the wavelengths, "
    "where the robust and the least squares solution are the same",
]

CURVE = [4000.0, 9.0, 0.01]
PEAKS = [8.0, 20.0, 37.0, 55.0, 90.0]


def on(p, e=0.0):
    return fitlib.poly(CURVE, p) + e


OPS = [
    ["add", 30.0, on(30.0)],
    ["add", 2, on(2)],
    ["add", 99.5, on(99.5, 0.2)],
    ["add", 37.0, on(37.0, -0.3)],
    ["add", 60.0, 4560.0],
    ["add", 22.0, on(39.0)],
    ["badadd", 30.0, "x"],
    ["remove", 0],
    ["remove", 2],
    ["remove", -1],
    ["badremove", 50],
    ["get"],
    ["refit", dict(degree=1)],
    ["refit", dict(degree=2)],
    ["refit", dict(x0=[4010.0, 8.5, 0.0])],
    ["refit", dict(x0=[4000.0, 9.9])],
    ["refit", dict(x0=[4000.0, 9.0, 0.01], degree=2)],
    ["refit", {}],
    ["lists", [8.0, 20.0, 37.0, 55.0], [on(8), on(20, 0.1), on(37), on(55)],
     2],
    ["lists", [8.0, 55.0, 90.0], [on(8), on(55), on(90)], 1],
    ["badrefit", dict(degree=0)],
    ["badrefit", dict(degree=9)],
    ["badrefit", dict(degree=2, x0=[4000.0, 9.0])],
    ["badrefit", dict(matched_peaks=[float(i) for i in range(40)],
                      degree=1)],
    ["match"],
]


def items(tier, seed):
    d = 3 if tier == "quick" else 4
    return [dict(first=i, start=s, depth=d) for i in range(len(OPS))
            for s in ("fit", "match")]


BASE = {}


class System:
    def __init__(self, start):
        pb = fitlib.PROBLEMS["quad"]
        self.pb = pb
        if start not in BASE:
            c = BASE[start] = fitlib.calibrator(pb)
            if start == "fit":
                fitlib.fit(c, pb, brute_force=True)
            else:
                c.match_peaks(list(CURVE), tolerance=3.0)
        c = self.c = fitlib.clone(BASE[start])
        self.pairs = sorted(pb.truth.items())
        self.coeff = [float(v) for v in c.fit_coeff]
        e = self.compare()
        if e:
            raise core.Violation("at the start: " + e)

    def state(self):
        return [self.pairs, ["%.6g" % v for v in self.coeff]]

    def compare(self):
        got = [(int(i), float(p), float(w))
               for i, p, w in self.c.get_pix_wave_pairs()]
        want = [(i, p, w) for i, (p, w) in enumerate(self.pairs)]
        if got != want:
            return "the pairs are %s, expected %s" % (got, want)
        k = [float(v) for v in self.c.fit_coeff]
        if len(k) != len(self.coeff):
            return "%d coefficients, expected %d" % (len(k), len(self.coeff))
        bad = [x for x in (0.0, 50.0, 99.0)
               if abs(fitlib.poly(k, x) - fitlib.poly(self.coeff, x)) > 1e-3]
        if bad:
            return "the solution %s, expected %s" % (k, self.coeff)
        return None

    def least_squares(self, deg):
        import numpy as np

        x = np.array([p for p, _ in self.pairs])
        y = np.array([w for _, w in self.pairs])
        k = [float(v) for v in np.polynomial.Polynomial.fit(
            x, y, deg).convert().coef]
        return k + [0.0] * (deg + 1 - len(k))

    def apply(self, op):
        """Returns what is wrong."""
        kind, c = op[0], self.c
        if kind == "add":
            c.add_pix_wave_pair(op[1], op[2])
            pos = sum(1 for p, _ in self.pairs if p < op[1])
            self.pairs = (self.pairs[:pos] + [(float(op[1]), float(op[2]))]
                          + self.pairs[pos:])
        elif kind == "badadd":
            try:
                c.add_pix_wave_pair(op[1], op[2])
            except Exception:
                pass
            else:
                return "a wavelength that is no number is accepted"
        elif kind == "remove":
            n = len(self.pairs)
            if -n <= op[1] < n:
                c.remove_pix_wave_pair(op[1])
                self.pairs = list(self.pairs)
                del self.pairs[op[1]]
            else:
                return self.refused(c.remove_pix_wave_pair, op[1])
        elif kind == "badremove":
            return self.refused(c.remove_pix_wave_pair, op[1])
        elif kind == "get":
            c.get_pix_wave_pairs()
        elif kind in ("refit", "lists", "badrefit"):
            kw = dict(op[1]) if kind != "lists" else dict(
                matched_peaks=list(op[1]), matched_atlas=list(op[2]),
                degree=op[3])
            pairs = self.pairs
            if kind == "lists":
                pairs = list(zip(op[1], op[2]))
            deg = kw.get("degree")
            if deg is None:
                deg = len(kw.get("x0", self.coeff)) - 1
            distinct = len(set(p for p, _ in pairs))
            if kind == "badrefit" or not 0 < deg < len(pairs):
                return self.refused(c.manual_refit, **kw)
            if distinct <= deg:
                return None  # not determined
            r = c.manual_refit(**kw)
            self.pairs = pairs
            self.coeff = self.least_squares(deg)
            return self.result(r)
        elif kind == "match":
            old = list(c.fit_coeff)
            try:
                r = c.match_peaks(tolerance=3.0)
            except AssertionError:
                return None
            e = fitlib_pairs(self, r)
            if e:
                return e
            self.pairs = [(float(p), float(w)) for p, w in zip(r[1], r[2])]
            if len(self.pairs) <= len(self.coeff) - 1:
                if [float(v) for v in r[0]] != [float(v) for v in old]:
                    return "%d matches: the solution %s is not kept" % (
                        len(self.pairs), old)
            else:
                self.coeff = self.least_squares(len(self.coeff) - 1)
        return None

    def refused(self, fn, *a, **k):
        try:
            fn(*a, **k)
        except (AssertionError, IndexError):
            return None
        return "the arguments %s %s are accepted" % (a, k)

    def result(self, r):
        if len(r) != 5:
            return "%d elements" % len(r)
        k, mp, ma, rms, res = r
        got = [(float(p), float(w)) for p, w in zip(mp, ma)]
        if got != self.pairs or len(mp) != len(ma):
            return "refit of %s, expected %s" % (got, self.pairs)
        k = [float(v) for v in k]
        want = [w - fitlib.poly(k, p) for p, w in self.pairs]
        res = [float(v) for v in res]
        if len(res) != len(want) or any(
                abs(a - b) > 1e-6 for a, b in zip(res, want)):
            return "residuals %s, expected %s" % (res, want)
        if abs(float(rms) - math.sqrt(
                sum(v * v for v in want) / len(want))) > 1e-6:
            return "rms %s for residuals %s" % (rms, want)
        if [float(v) for v in self.c.fit_coeff] != k:
            return "the Calibrator keeps other coefficients"
        return None


def fitlib_pairs(s, r):
    """The matches of match_peaks() belong to the current solution."""
    from . import e01

    ref = e01.reference(s.pb.peaks, s.pb.lines, s.coeff, 3.0)
    got = {float(p): float(w) for p, w in zip(r[1], r[2])}
    if ref is not None and ref != got:
        return "the matches are %s, expected %s" % (got, ref)
    return None


def run(item, ctx):
    queue, seen = [[item["first"]]], set()
    while queue:
        hist = queue.pop(0)
        case = dict(start=item["start"], history=[OPS[i] for i in hist])

        def go():
            s = System(item["start"])
            for n, i in enumerate(hist):
                if len(s.pairs) == 0 and OPS[i][0] in ("match",):
                    return s, "skip"
                e = s.apply(OPS[i]) or s.compare()
                if e and (n == len(hist) - 1):
                    return s, e
            return s, None

        ok, r = ctx.guard(case, go)
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
        if ctx.stop:
            return
        if not ok or r[1] == "skip":
            continue
        if r[1]:
            ctx.violation(r[1], case)
            continue
        st = core.digest(r[0].state())
        ctx.state([item["start"], r[0].state()])
        if st in seen or len(hist) >= item["depth"]:
            continue
        seen.add(st)
        queue += [hist + [i] for i in range(len(OPS))]
    ctx.sample(case)
