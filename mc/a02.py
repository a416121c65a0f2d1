"""A02: every history of edits of an atlas agrees with a list of lines."""
import io
import contextlib
import os

from . import core, refs

ID = "A02"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over all the histories of edits of a real Atlas; a "
    "state is the content of the reference list (elements, wavelengths, "
    "intensities and default limits). After each transition all the views of "
    "the real object are compared with the list."
)
BOUNDS = "quick: histories of up to 4 of 19 edits; thorough: up to 6"
ASSUMPTIONS = ["removal at exactly the tolerance is open on neither side: "
               "lines at a distance smaller than the tolerance are removed"]

ROWS = [("He", 4000.0, 50.0), ("He", 4020.0, 100.0), ("Xe", 4015.0, 30.0)]

# name -> (what is called)
OPS = [
    ["add", ["He"]],
    ["add", ["xe", "he"]],
    ["add", "Xe"],
    ["add", ["Kr"]],
    ["user", ["A"], [4000.0], None],
    ["user", ["B", "C"], [4007.0000000123, 4001.0],
     [123456789.25, 1.0]],
    ["user", "D", 4012.0, 7.0],
    ["user", "E", 4020.5, None],
    ["uservac", ["V", "W"], [4010.0, 4015.0], [1, 2]],
    ["remove", 4000.0, 10],
    ["remove", 4007.5, 7.5],
    ["remove", 4012.0, 0.5],
    ["remove", 4500.0, 10],
    ["remove", 4010.0, 100.0],
    ["clear"],
    ["bad", ["X", "Y"], [4000.0], None],
    ["bad", ["X"], [4000.0], [1.0, 2.0]],
    ["badlimit"],
    ["tamper"],
]


def items(tier, seed):
    depth = 4 if tier == "quick" else 6
    return [dict(first=i, depth=depth) for i in range(len(OPS))]


def path():
    p = os.path.join(core.scratch(), "a02_%d.csv" % os.getpid())
    if not os.path.exists(p):
        with open(p, "w") as f:
            for r in ROWS:
                f.write("%s,%s,%s\n" % r)
    return p


def model(state, op):
    """The reference: a list of (element, wavelength, intensity)."""
    if op[0] == "add":
        el = [op[1]] if isinstance(op[1], str) else op[1]
        new = []
        for e in el:
            new += refs.select(ROWS, [e], 3900.0, 4100.0, {}, 0, None, True)
        return state + new
    if op[0] in ("user", "uservac"):
        e, w, i = op[1:]
        if isinstance(e, str):
            e = [e]
        if not isinstance(w, list):
            w = [w]
        if i is None:
            i = [0] * len(w)
        if not isinstance(i, list):
            i = [i]
        if op[0] == "uservac":
            w = [refs.vac2air(x) for x in w]
        return state + list(zip(e, w, i))
    if op[0] == "remove":
        return [s for s in state if not abs(s[1] - op[1]) < op[2]]
    if op[0] == "clear":
        return []
    return state


def apply(a, op):
    if op[0] == "add":
        a.add(op[1], min_atlas_wavelength=3900.0, max_atlas_wavelength=4100.0,
              min_intensity=0, min_distance=0, vacuum=True, linelist=path())
    elif op[0] == "user":
        a.add_user_atlas(op[1], op[2], op[3])
    elif op[0] == "uservac":
        a.add_user_atlas(op[1], op[2], op[3], vacuum=True)
    elif op[0] == "remove":
        a.remove_atlas_lines_range(op[1], op[2])
    elif op[0] == "clear":
        a.clear()
    elif op[0] == "bad":
        try:
            a.add_user_atlas(op[1], op[2], op[3])
        except (AssertionError, ValueError):
            return
        raise core.Violation("lists of different lengths are accepted")
    elif op[0] == "badlimit":
        for kw in (dict(min_atlas_wavelength=float("nan")),
                   dict(max_atlas_wavelength=float("inf"))):
            try:
                a.add(["He"], linelist=path(), **kw)
            except ValueError:
                continue
            raise core.Violation("a limit that is not finite is accepted")
    elif op[0] == "tamper":
        # the lists that are handed out belong to the caller
        for v in (a.get_lines(), a.get_elements(), a.get_intensities()):
            v.append("x")
            v[0] = "y"


def views(a):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        a.list()
    return (len(a), a.get_elements(), a.get_lines(), a.get_intensities(),
            out.getvalue())


def agrees(v, state):
    n, e, w, i, text = v
    if not (n == len(e) == len(w) == len(i) == len(state)):
        return False
    for a, b, c, (x, y, z) in zip(e, w, i, state):
        if str(a) != x or abs(float(b) - y) > 1e-9 or float(c) != z:
            return False
    lines = text.splitlines()
    return len(lines) == len(state) and all(
        ("Element %s at %s with intensity %s" % (a, b, c)) == t
        for a, b, c, t in zip(e, w, i, lines)
    )


def execute(hist):
    from rascal.atlas import Atlas

    a = Atlas()
    other = Atlas()
    other.add_user_atlas(["Z"], [4444.0], [5])
    for op in hist:
        apply(a, op)
    return views(a), views(other)


def run(item, ctx):
    frontier = [([], [])]
    for depth in range(item["depth"]):
        new = []
        for hist, state in frontier:
            for k, op in enumerate(OPS):
                if depth == 0 and k != item["first"]:
                    continue
                h = hist + [op]
                s = model(state, op)
                case = dict(history=h)
                ctx.count("transitions", len(h))
                ctx.count("traces_validated_against_impl")
                ok, v = ctx.guard(case, execute, h)
                if ok and not agrees(v[0], s):
                    ctx.violation("views %s, expected %s" % (v[0], s), case)
                if ok and not agrees(v[1], [("Z", 4444.0, 5)]):
                    ctx.violation("another atlas is modified: %s" % (v[1],),
                                  case)
                if ctx.stop:
                    return
                # the order of the defaults does not matter to the futures
                if ctx.state(s) or depth == 0:
                    if len(s) <= 9:
                        new.append((h, s))
                    else:
                        ctx.count("not_expanded_too_many_lines")
        frontier = new
    if frontier:
        ctx.sample(dict(history=frontier[-1][0], state=frontier[-1][1]))
