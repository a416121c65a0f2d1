"""What a figure shows, whatever the labels and the order of its parts."""
import json

TOL = 1e-6


class Figure:
    """
    points: lists of (x, y) of the markers; curves: lists of (x, y) of the
    lines; segments: lists of (x0, y0, x1, y1); labels: titles of the axes;
    windows: the limits (x0, x1, y0, y1) of the axes. The logarithm of an axis
    is taken, so that all the values are those of the paper.
    """

    def __init__(self):
        self.points, self.curves, self.segments = [], [], []
        self.labels, self.texts, self.windows = [], [], []

    def dots(self):
        """The sets of points, drawn with or without a line."""
        return self.points + self.curves


def from_matplotlib(fig):
    import numpy as np
    from matplotlib.collections import LineCollection, PathCollection

    out = Figure()
    for ax in fig.axes:
        xlog, ylog = ax.get_xscale() == "log", ax.get_yscale() == "log"
        mark = (len(out.points), len(out.curves), len(out.segments))
        for c in ax.collections:
            if isinstance(c, LineCollection):
                out.segments.append([
                    tuple(float(v) for v in np.asarray(s).ravel())
                    for s in c.get_segments() if len(s) == 2])
            elif isinstance(c, PathCollection):
                off = np.ma.filled(np.ma.asarray(c.get_offsets(), float),
                                   np.nan)
                out.points.append([(float(x), float(y)) for x, y in off])
        for ln in ax.lines:
            x, y = ln.get_xdata(), ln.get_ydata()
            pts = [(float(a), float(b)) for a, b in zip(x, y)]
            if ln.get_linestyle() in ("None", "", " "):
                out.points.append(pts)
            else:
                out.curves.append(pts)
                if len(pts) == 2:
                    out.segments.append([pts[0] + pts[1]])
        scale(out, mark, xlog, ylog)
        x, y = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        out.windows.append(tuple([log(v, xlog) for v in x]
                                 + [log(v, ylog) for v in y]))
        out.labels.append((ax.get_xlabel(), ax.get_ylabel()))
        out.texts += [t.get_text() for t in ax.texts]
    return out


def log(v, on=True):
    import math

    if not on:
        return v
    return math.log10(v) if v > 0 else float("nan")


def scale(out, mark, xlog, ylog):
    """Takes the logarithm of what was added since the mark."""
    if not (xlog or ylog):
        return
    for sets, k in ((out.points, 0), (out.curves, 1)):
        for i in range(mark[k], len(sets)):
            sets[i] = [(log(x, xlog), log(y, ylog)) for x, y in sets[i]]
    for i in range(mark[2], len(out.segments)):
        out.segments[i] = [
            (log(a, xlog), log(b, ylog), log(c, xlog), log(d, ylog))
            for a, b, c, d in out.segments[i]]


def from_plotly(js):
    d = json.loads(js)
    out = Figure()
    lay = d["layout"]

    def axis(name):
        # "y3" is "yaxis3"
        name = name or "x"
        return lay.get(name[0] + "axis" + name[1:].replace("1", ""), {})

    def logs(t, x, y):
        return [axis(t.get(k) or w).get("type") == "log"
                for k, w in ((x, "x"), (y, "y"))]

    for t in d["data"]:
        mark = (len(out.points), len(out.curves), len(out.segments))
        pts = list(zip(array(t.get("x")), array(t.get("y"))))
        if t.get("mode") == "markers":
            out.points.append(pts)
        else:
            out.curves.append(pts)
            if len(pts) == 2:
                out.segments.append([pts[0] + pts[1]])
        scale(out, mark, *logs(t, "xaxis", "yaxis"))
    shapes = []
    for s in lay.get("shapes", []):
        xlog, ylog = logs(s, "xref", "yref")
        shapes.append((log(float(s["x0"]), xlog), log(float(s["y0"]), ylog),
                       log(float(s["x1"]), xlog), log(float(s["y1"]), ylog)))
    if shapes:
        out.segments.append(shapes)
    # the range of a logarithmic axis is given by its logarithms
    x = axis("x").get("range")
    for name in ("y", "y2", "y3"):
        y = axis(name).get("range")
        if x and y:
            out.windows.append(tuple(sorted(map(float, x))
                                     + sorted(map(float, y))))

    def title(axis):
        v = d["layout"].get(axis, {}).get("title", {})
        return v.get("text") if isinstance(v, dict) else v

    for y in ("yaxis", "yaxis2", "yaxis3"):
        if y in d["layout"]:
            out.labels.append((title("xaxis"), title(y)))
    return out


def array(v):
    import base64

    import numpy as np

    if isinstance(v, dict) and "bdata" in v:
        a = np.frombuffer(base64.b64decode(v["bdata"]), dtype=v["dtype"])
        return [float(x) for x in a]
    return [float("nan") if x is None else float(x) for x in (v or [])]


def close(a, b):
    return len(a) == len(b) and all(
        abs(p - q) <= TOL * (1 + abs(q)) for p, q in zip(a, b))


def same_set(a, b):
    """Two lists of tuples with the same content."""
    if len(a) != len(b):
        return False
    return all(close(p, q) for p, q in zip(sorted(a), sorted(b)))


def same_curve(a, b):
    if len(a) != len(b):
        return False
    return all(close(p, q) for p, q in zip(a, b)) or all(
        close(p, q) for p, q in zip(a, b[::-1]))


def has(sets, want, same=same_set):
    return any(same(s, want) for s in sets)


def has_level(fig, y, x0=None, x1=None):
    """A horizontal line."""
    for group in fig.segments:
        for s in group:
            if close((s[1], s[3]), (y, y)) and (
                    x0 is None or close(sorted((s[0], s[2])),
                                        sorted((x0, x1)))):
                return True
    return False


def has_marks(fig, xs, seen=False):
    """
    Vertical lines at all of xs, and at nothing else, in one group; `seen`
    asks for lines that cross the inside of the axes.
    """
    want = sorted(float(x) for x in xs)
    for group in fig.segments:
        if not all(close((s[0],), (s[2],)) for s in group):
            continue
        if not close(sorted(s[0] for s in group), want):
            continue
        if not seen or any(all(inside(s, w) for s in group)
                           for w in fig.windows):
            return True
    return False


def inside(s, w):
    """A vertical line that crosses a good part of a window."""
    lo, hi = max(min(s[1], s[3]), w[2]), min(max(s[1], s[3]), w[3])
    return w[0] <= s[0] <= w[1] and hi - lo > 0.05 * (w[3] - w[2])
