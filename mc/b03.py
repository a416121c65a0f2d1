"""B03: a saved Hough transform is restored completely, in every history."""
import itertools
import os
import shutil

from . import core, htutil

ID = "B03"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over the histories of saving (npy, json, both, in "
    "memory), loading, regenerating, merging and binning of a HoughTransform "
    "and a Calibrator that share two files; the reference is a map from file "
    "to the content at the time of saving."
)
BOUNDS = "quick: all histories of 4 of 19 operations up to equal states"
ASSUMPTIONS = ["a single writer at a time"]

OPS = []
for _o in ("ht", "cal"):
    for _f, _fmt in (("a", "npy"), ("a", "json"), ("b", "npy+json")):
        OPS.append(["save", _o, _f, _fmt])
    for _f in ("a", "b"):
        for _t in ("npy", "json"):
            OPS.append(["load", _o, _f, _t])
OPS += [["make", "ht", 1], ["make", "ht", 2], ["merge", "ht"],
        ["rebin", "ht"], ["remake", "cal"]]


def items(tier, seed):
    d = 4 if tier == "quick" else 5
    its = [dict(kind="bfs", first=i, depth=d) for i in range(len(OPS))]
    its += [dict(kind="formats", variant=v) for v in range(4)]
    its.append(dict(kind="fit"))
    its += [dict(kind="names", variant=v) for v in range(2)]
    return its


def calibrator(variant=0):
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    c = Calibrator(peaks=[5.0, 12.0, 20.0])
    c.set_calibrator_properties(num_pix=25)
    c.set_hough_properties(
        num_slopes=5, xbins=3, ybins=2 + variant, min_wavelength=100.0,
        max_wavelength=150.0, range_tolerance=10.0, linearity_tolerance=2.0)
    a = Atlas()
    a.add_user_atlas(["X"] * 4, [110.0, 124.0, 141.0, 133.0])
    c.set_atlas(a)
    c.do_hough_transform()
    return c


class System:
    def __init__(self, folder):
        self.folder = folder
        self.ht = htutil.make(0)
        self.cal = calibrator()
        self.files = {}
        self.model = dict(ht=htutil.snapshot(self.ht),
                          cal=htutil.snapshot(self.cal.ht))

    def inner(self, o):
        return self.ht if o == "ht" else self.cal.ht

    def apply(self, op):
        import numpy as np

        kind, o = op[0], op[1]
        p = os.path.join(self.folder, str(op[2]) if len(op) > 2 else "")
        if kind == "save":
            if o == "ht":
                self.ht.save(p, op[3])
            else:
                self.cal.save_hough_transform(p, op[3])
            for t in op[3].split("+"):
                self.files[(op[2], t)] = self.model[o]
        elif kind == "load":
            known = (op[2], op[3]) in self.files
            try:
                if o == "ht":
                    self.ht.load(p, op[3])
                else:
                    self.cal.load_hough_transform(p, op[3])
            except OSError:
                if known:
                    raise
            else:
                if not known:
                    raise core.Violation("a file that was not saved is loaded")
                self.model[o] = self.files[(op[2], op[3])]
        elif kind == "make":
            self.ht = htutil.make(op[2])
            self.model[o] = htutil.snapshot(self.ht)
        elif kind == "remake":
            self.cal = calibrator(1)
            self.model[o] = htutil.snapshot(self.cal.ht)
        elif kind == "merge":
            self.ht.add_hough_points(np.array([[1.0, 8.0]]))
            self.model[o] = dict(
                self.model[o],
                hough_points=self.model[o]["hough_points"] + [[1.0, 8.0]])
        elif kind == "rebin":
            self.ht.bin_hough_points(2, 2)
            s = htutil.snapshot(self.ht)
            self.model[o] = dict(
                s, hough_points=self.model[o]["hough_points"],
                limits=self.model[o]["limits"])

    def check(self):
        for o in ("ht", "cal"):
            got = htutil.snapshot(self.inner(o))
            if got != self.model[o]:
                bad = [k for k in got if got[k] != self.model[o][k]]
                raise core.Violation(
                    "%s of the %s is %s, expected %s"
                    % (bad, o, [got[k] for k in bad],
                       [self.model[o][k] for k in bad]))
            r = htutil.ranked(self.inner(o))
            if sorted(r, reverse=True) != r:
                raise core.Violation("the lines of the %s are not ranked" % o)
        s = htutil.snapshot(self.cal.ht)
        mine = dict(s, hough_points=[list(map(float, p)) for p in
                                     self.cal.hough_points],
                    lines=sorted([float(a), float(b)]
                                 for a, b in self.cal.hough_lines))
        if mine != s:
            raise core.Violation("the Calibrator did not pick up the loaded "
                                 "transform")
        if [tuple(map(float, l)) for l in self.cal.hough_lines] != [
                tuple(map(float, l)) for l in self.cal.ht.hough_lines]:
            raise core.Violation("order of the lines of the Calibrator")


def execute(hist):
    folder = os.path.join(core.scratch(), "b03_%d" % os.getpid())
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    s = System(folder)
    for op in hist:
        s.apply(op)
        s.check()
    return [s.model, sorted((k[0] + k[1], v) for k, v in s.files.items())]


def run(item, ctx):
    if item["kind"] == "formats":
        return run_formats(item, ctx)
    if item["kind"] == "fit":
        return run_fit(ctx)
    if item["kind"] == "names":
        return run_names(item, ctx)
    frontier = [[]]
    for depth in range(item["depth"]):
        new = []
        for hist in frontier:
            for k, op in enumerate(OPS):
                if depth == 0 and k != item["first"]:
                    continue
                h = hist + [op]
                ctx.count("transitions", len(h))
                ctx.count("traces_validated_against_impl")
                ok, st = ctx.guard(dict(history=h), execute, h)
                if ctx.stop:
                    return
                if ok and (ctx.state(st) or depth == 0):
                    new.append(h)
        frontier = new
    if frontier:
        ctx.sample(dict(history=frontier[-1]))


def run_formats(item, ctx):
    """Formats, delimiters, names with and without extension, in memory."""
    from rascal.houghtransform import HoughTransform
    import numpy as np

    v = item["variant"]
    folder = os.path.join(core.scratch(), "b03f_%d_%d" % (os.getpid(), v))
    os.makedirs(folder, exist_ok=True)
    for fmt, delim, ext, disk in itertools.product(
        ("npy", "json", "npy+json", "json|npy", "other"), ("+", "|"),
        (False, True), (True, False),
    ):
        case = dict(variant=v, fileformat=fmt, delimiter=delim, disk=disk,
                    extension=ext)
        for f in os.listdir(folder):
            os.remove(os.path.join(folder, f))
        ht = htutil.make(v)
        want = htutil.snapshot(ht)
        parts = fmt.split(delim)
        p = os.path.join(folder, "t")

        def save():
            return ht.save(filename=p, fileformat=fmt, delimiter=delim,
                           to_disk=disk)

        ctx.count("transitions", 2)
        ctx.count("traces_validated_against_impl")
        ok, out = ctx.guard(case, save)
        if not ok:
            continue
        ctx.state(case)
        files = sorted(os.listdir(folder))
        exp = sorted("t." + t for t in ("npy", "json") if t in parts)
        if files != (exp if disk else []):
            ctx.violation("files %s" % files, case)
            continue
        if htutil.snapshot(ht) != want:
            ctx.violation("saving modifies the transform", case)
        if disk:
            if out is not None:
                ctx.violation("saving to disk returns %r" % (out,), case)
            for t in ("npy", "json"):
                if t not in parts:
                    continue
                new = HoughTransform()
                ok, _ = ctx.guard(case, new.load,
                                  p + ("." + t if ext else ""), t)
                if ok and htutil.snapshot(new) != want:
                    ctx.violation("loaded %s, saved %s"
                                  % (htutil.snapshot(new), want), case)
        else:
            got = {}
            if "npy" in parts and "json" in parts:
                got = dict(npy=out[0], json=out[1])
            elif "npy" in parts:
                got = dict(npy=out)
            elif "json" in parts:
                got = dict(json=out)
            elif out is not None:
                ctx.violation("unknown format returns %r" % (out,), case)
            rows = [want["hough_points"], want["hist"], want["xedges"],
                    want["yedges"]] + [[x] for x in want["limits"]]
            if "npy" in got:
                a = [np.asarray(r, dtype=float).tolist() for r in got["npy"]]
                if a != rows:
                    ctx.violation("in memory npy %s, expected %s" % (a, rows),
                                  case)
            if "json" in got:
                j = got["json"]
                keys = ["hough_points", "hist", "xedges", "yedges"]
                a = [np.asarray(j[k], dtype=float).tolist() for k in keys]
                a += [[float(j[k])] for k in (
                    "min_slope", "max_slope", "min_intercept",
                    "max_intercept")]
                if a != rows:
                    ctx.violation("in memory json %s, expected %s" % (a, rows),
                                  case)
        if ctx.stop:
            return
    ctx.sample(dict(variant=v, saved=want))


def run_fit(ctx):
    """A fit from a loaded transform is the fit from the original."""
    from . import fitlib

    folder = os.path.join(core.scratch(), "b03fit_%d" % os.getpid())
    os.makedirs(folder, exist_ok=True)
    for seed, t in itertools.product((1, 2, 3), ("npy", "json")):
        case = dict(seed=seed, filetype=t)

        def go():
            pb = fitlib.PROBLEMS["quad"]
            c = fitlib.calibrator(pb)
            c.do_hough_transform()
            p = os.path.join(folder, "f")
            c.save_hough_transform(p, t)
            d = fitlib.calibrator(pb)
            d.load_hough_transform(p, t)
            return fitlib.seeded_fit(c, pb, seed), fitlib.seeded_fit(
                d, pb, seed)

        ctx.count("transitions", 4)
        ctx.count("traces_validated_against_impl")
        ok, r = ctx.guard(case, go)
        if ok and r[0] != r[1]:
            ctx.violation("fit %s after loading, %s before" % (r[1], r[0]),
                          case)


FOLDERS = ["", "d", "run.npy.d", "run.json", "a b"]
STEMS = ["t", "npy", "json", "t.npy.old", "t.json.old", "t.v2", ".npy_t",
         "x.npyjson", "n"]


def run_names(item, ctx):
    """Any folder and name, with and without the extension when loading."""
    from rascal.houghtransform import HoughTransform

    root = os.path.join(core.scratch(), "b03n_%d_%d" % (os.getpid(),
                                                        item["variant"]))
    for d, stem, fmt, via, rel in itertools.product(
            FOLDERS, STEMS, ("npy", "json", "npy+json"), ("ht", "cal"),
            (False, True)):
        case = dict(item, folder=d, stem=stem, fileformat=fmt, via=via,
                    relative=rel)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(os.path.join(root, d))
        cwd = os.getcwd()

        def go():
            os.chdir(root)
            base = "" if rel else root
            p = os.path.join(base, d, stem)
            if via == "ht":
                s = htutil.make(item["variant"])
                s.save(p, fmt)
                want = htutil.snapshot(s)
            else:
                s = calibrator(item["variant"])
                s.save_hough_transform(p, fmt)
                want = htutil.snapshot(s.ht)
            parts = fmt.split("+")
            files = sorted(os.listdir(os.path.join(root, d)))
            if files != sorted(stem + "." + t for t in parts):
                raise core.Violation("files %s" % files)
            for t, ext in itertools.product(parts, ("", "." + fmt)):
                if "+" in ext:
                    ext = "." + t
                if via == "ht":
                    n = HoughTransform()
                    n.load(p + ext, t)
                    got = htutil.snapshot(n)
                else:
                    n = calibrator(1 - item["variant"])
                    n.load_hough_transform(p + ext, t)
                    got = htutil.snapshot(n.ht)
                if got != want:
                    raise core.Violation("loaded %s, saved %s" % (got, want))

        ctx.count("transitions", 3)
        ctx.count("traces_validated_against_impl")
        ctx.state(case)
        try:
            ctx.guard(case, go)
        finally:
            os.chdir(cwd)
        if ctx.stop:
            return
    shutil.rmtree(root, ignore_errors=True)
