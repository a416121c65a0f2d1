"""G04: a figure is saved to the files that are asked for, and only those."""
import io
import itertools
import json
import os
import shutil

from . import core, fitlib, g02

ID = "G04"
LEVEL = "exploration"
RULE = (
    "every plot x library x set and order of the file types x file name "
    "(default, plain, with dots, with a folder) x saved or not x displayed or "
    "not x renderer x JSON; the files written in an empty folder, the images "
    "that plotly is asked for (a stand-in records them), the calls that "
    "display and the value returned are compared with the request. "
    "Non-trivial: at least one file is asked for."
)
BOUNDS = "4 plots, 2 libraries, 14 lists of file types, 4 names"
ASSUMPTIONS = [
    "plotly.io.write_image writes what it is asked for (it needs a browser)",
    "whether a figure is displayed when its JSON is asked for is left open",
    "iframe belongs to plotly only",
]

TYPES = ["png", "jpg", "svg", "pdf", "iframe", "png+svg", "svg+png",
         "pdf+iframe", "iframe+pdf", "jpg+pdf", "svg+iframe+png",
         "jpg+png+svg+pdf+iframe", "iframe+pdf+svg+png+jpg", "pdf+jpg+svg"]
MAGIC = {"png": b"\x89PNG\r\n", "jpg": b"\xff\xd8\xff", "svg": b"<?xml",
         "pdf": b"%PDF"}
DEFAULT = {"plot_fit": "rascal_solution", "plot_arc": "rascal_arc",
           "plot_search_space": "rascal_hough_search_space",
           "lines": "rascal_arc"}
FILES = [None, "figure", "a.b.c", os.path.join("folder", "figure")]


def items(tier, seed):
    its = []
    for plot, lib in itertools.product(
            ["plot_fit", "plot_arc", "plot_search_space"],
            ["matplotlib", "plotly"]):
        for t in range(len(TYPES)):
            its.append(dict(plot=plot, lib=lib, types=t, tier=tier))
    its += [dict(plot="lines", lib="matplotlib", types=t, tier=tier)
            for t in range(len(TYPES))]
    return its


def traces(text):
    """Number of traces of the figure in a web page of plotly."""
    i = text.rindex("Plotly.newPlot(")
    i = text.index("[", i)
    data, _ = json.JSONDecoder().raw_decode(text[i:])
    return len(data)


def run(item, ctx):
    types = TYPES[item["types"]].split("+")
    last = item["types"] in (1, 6, 9)
    for name, save, display, js, renderer in itertools.product(
            FILES, (True, False), (False, True), (False, True),
            ("default", "svg")):
        if js and (display or item["lib"] == "matplotlib"):
            continue
        if renderer != "default" and (not display or item["plot"] == "lines"):
            continue
        # pictures of matplotlib are slow
        if item["lib"] == "matplotlib" and item["tier"] == "quick":
            if display and (name or not last):
                continue
            if save and name and len(types) > 2:
                continue
            if not save and name:
                continue
        case = dict(item, name=name, save=save, display=display, json=js,
                    renderer=renderer)
        ctx.count("evaluations")
        if save:
            ctx.key(case)
        ctx.guard(case, one, item, types, name, save, display, js, renderer)
        if ctx.stop:
            return
    ctx.sample(case)


def one(item, types, name, save, display, js, renderer):
    import matplotlib.pyplot as plt
    import plotly.io as pio

    lib, plot = item["lib"], item["plot"]
    shown, images = [], []

    def write_image(fig, file, format=None, *a, **k):
        images.append((os.path.normpath(str(file)), len(fig.data)))

    stand_ins = [
        (pio, "write_image", write_image),
        (pio, "show", lambda fig, renderer=None, *a, **k: shown.append(
            renderer)),
        (plt, "show", lambda *a, **k: shown.append(None)),
    ]
    folder = os.path.join(core.scratch(), "g04_%d" % os.getpid())
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(os.path.join(folder, "folder"))
    here = os.getcwd()
    kept = [(m, n, getattr(m, n)) for m, n, _ in stand_ins]
    plt.close("all")
    try:
        for m, n, f in stand_ins:
            setattr(m, n, f)
        os.chdir(folder)
        kw = dict(display=display, save_fig=save,
                  fig_type=TYPES[item["types"]])
        if name is not None:
            kw["filename"] = name
        if plot == "lines":
            from rascal.plotting import plot_calibration_lines

            out = plot_calibration_lines(
                ["He"], min_atlas_wavelength=4000.0,
                max_atlas_wavelength=4100.0, min_intensity=1.0, **kw)
        else:
            c = g02.calibrator(fitlib.PROBLEMS["quad_extra"], lib, "all",
                               True)
            out = getattr(c, plot)(return_jsonstring=js, renderer=renderer,
                                   **kw)
        files = {}
        for d, _, fs in os.walk("."):
            for f in fs:
                with open(os.path.join(d, f), "rb") as g:
                    files[os.path.normpath(os.path.join(d, f))] = g.read()
        judge(item, types, name, save, display, js, renderer, out, files,
              shown, images)
    finally:
        for m, n, f in kept:
            setattr(m, n, f)
        os.chdir(here)
        plt.close("all")
        shutil.rmtree(folder, ignore_errors=True)


def judge(item, types, name, save, display, js, renderer, out, files, shown,
          images):
    lib = item["lib"]
    base = os.path.normpath(name or DEFAULT[item["plot"]])
    want = [base + "." + t for t in types] if save else []
    written = sorted(list(files) + [f for f, _ in images])
    if lib == "matplotlib":
        want = [f for f in want if not f.endswith(".iframe")]
    if written != sorted(want):
        raise core.Violation("the files %s are written, expected %s"
                             % (written, sorted(want)))
    if lib == "matplotlib":
        for f, data in files.items():
            t = f.rsplit(".", 1)[1]
            if not data.startswith(MAGIC[t]):
                raise core.Violation("%s is no %s" % (f, t))
            if t == "png":
                b = io.BytesIO()
                out.savefig(b, format="png")
                if b.getvalue() != data:
                    raise core.Violation("%s does not hold the figure" % f)
    else:
        if [f for f in files if not f.endswith(".iframe")]:
            raise core.Violation("no images: %s" % sorted(files))
        n = {t for _, t in images} | {
            traces(d.decode("utf-8")) for d in files.values()}
        if js:
            n.add(len(json.loads(out)["data"]))
        if len(n) > 1 or 0 in n:
            raise core.Violation("the figures that are saved differ: %s" % n)
    if js and not isinstance(out, str):
        raise core.Violation("no JSON is returned")
    rend = [None if lib == "matplotlib" or renderer == "default"
            else renderer]
    if shown != (rend if display else []):
        raise core.Violation("displayed %s, expected %s"
                             % (shown, rend if display else []))
