"""B04: every truncation of a saved file, and other damages, on load."""
import itertools
import json
import os

from . import core, htutil

ID = "B04"
LEVEL = "fault_enumeration"
RULE = (
    "every prefix (byte by byte) of a file saved in each format, each missing "
    "entry, a file of the other format and a missing file, loaded into a "
    "transform and a Calibrator that hold another content. Non-trivial: the "
    "damaged file is not empty."
)
BOUNDS = "all the truncation points of 2 (quick) or 4 transforms"
ASSUMPTIONS = ["damages that replace numbers by other numbers are not "
               "detectable without a checksum and are not in the property"]


def items(tier, seed):
    v = range(2) if tier == "quick" else range(4)
    return [dict(variant=i, fmt=f, target=t, part=p)
            for i, f, t, p in itertools.product(
                v, ("npy", "json"), ("ht", "cal"), range(4))]


def targets(kind):
    from . import b03

    return htutil.make(2) if kind == "ht" else b03.calibrator()


def state(kind, o):
    if kind == "ht":
        return htutil.snapshot(o)
    return [htutil.snapshot(o.ht),
            [list(map(float, p)) for p in o.hough_points],
            [list(map(float, p)) for p in o.hough_lines]]


def attempt(ctx, kind, path, fmt, good, case):
    """The load restores the good content, or fails and changes nothing."""
    o = targets(kind)
    before = state(kind, o)

    def load():
        try:
            if kind == "ht":
                o.load(path, fmt)
            else:
                o.load_hough_transform(path, fmt)
            return True
        except Exception:
            return False

    ok, loaded = ctx.guard(case, load)
    if not ok:
        return
    after = state(kind, o)
    if loaded:
        ctx.count("loaded")
        ht = o if kind == "ht" else o.ht
        if good is None or htutil.snapshot(ht) != good:
            ctx.violation("a damaged file is loaded as %s"
                          % (htutil.snapshot(ht),), case)
    else:
        ctx.count("rejected")
        if after != before:
            ctx.violation("a failed load changes %s to %s" % (before, after),
                          case)


def run(item, ctx):
    v, fmt, kind = item["variant"], item["fmt"], item["target"]
    folder = os.path.join(core.scratch(), "b04_%d" % os.getpid())
    os.makedirs(folder, exist_ok=True)
    ht = htutil.make(v)
    good = htutil.snapshot(ht)
    p = os.path.join(folder, "t")
    ht.save(p, fmt)
    with open(p + "." + fmt, "rb") as f:
        data = f.read()
    q = os.path.join(folder, "damaged." + fmt)
    for n in range(item["part"], len(data) + 1, 4):
        with open(q, "wb") as f:
            f.write(data[:n])
        case = dict(variant=v, fmt=fmt, target=kind, truncated_at=n,
                    size=len(data))
        ctx.count("evaluations")
        if n > 0:
            ctx.key(case)
        attempt(ctx, kind, q, fmt, good, case)
        if ctx.stop:
            return
    ctx.sample(case)
    if item["part"] == 0:
        damages(ctx, item, ht, good, folder, data)


def damages(ctx, item, ht, good, folder, data):
    import numpy as np

    v, fmt, kind = item["variant"], item["fmt"], item["target"]
    case = dict(variant=v, fmt=fmt, target=kind)
    q = os.path.join(folder, "other")

    def go(what, g=None):
        ctx.count("evaluations")
        ctx.key(dict(case, damage=what))
        attempt(ctx, kind, q, fmt, g, dict(case, damage=what))

    for f in os.listdir(folder):
        if f.startswith("other"):
            os.remove(os.path.join(folder, f))
    go("missing file")
    if fmt == "json":
        full = json.loads(data)
        for k in full:
            part = {a: b for a, b in full.items() if a != k}
            with open(q + ".json", "w") as f:
                json.dump(part, f)
            go("no " + k)
        with open(q + ".json", "w") as f:
            json.dump([1, 2], f)
        go("a list")
        # more entries are not a damage
        with open(q + ".json", "w") as f:
            json.dump(dict(full, comment="x"), f)
        go("comment", good)
    else:
        rows = ht.save(fileformat="npy", to_disk=False)
        for n in range(len(rows)):
            a = np.empty(n, dtype=object)
            for i in range(n):
                a[i] = rows[i]
            np.save(q + ".npy", a)
            go("%d rows" % n)
        with open(q + ".npy", "w") as f:
            f.write("{}")
        go("a json file")
    # the type of the file has to be known
    o = targets(kind)
    before = state(kind, o)
    ctx.count("evaluations")
    try:
        if kind == "ht":
            o.load(q, "fits")
        else:
            o.load_hough_transform(q, "fits")
    except ValueError:
        pass
    except Exception as e:
        ctx.violation("unknown type raises %r" % e, case)
    else:
        ctx.violation("unknown type is accepted", case)
    if state(kind, o) != before:
        ctx.violation("a failed load changes the transform", case)
