"""F02: a synthetic spectrum is the inverse of its current model."""
import itertools

from . import core

ID = "F02"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over the histories of setting the model and the "
    "wavelength limits of a SyntheticSpectrum, including refused values; "
    "after each call the pixels of several lists of wavelengths are put back "
    "into the polynomial of the last model, and the lists are compared with "
    "those inside of the last limits. A state is the model and the limits."
)
BOUNDS = "all the histories of 3 (thorough: 4) of 19 calls, degree 1-4"
ASSUMPTIONS = [
    "coefficients are given with the highest order first, and the model is "
    "increasing over the pixels of the wavelengths",
    "a wavelength exactly at a limit is open",
]

MODELS = [
    [1.5, 210.0],
    [1e-3, 0.8, 200.0],
    [2e-3, 1.1, 150.0],
    [1e-6, 1e-4, 0.6, 250.0],
    [-1e-7, 2e-4, 0.9, 300.0],
    [1e-10, 1e-7, 1e-4, 0.7, 180.0],
]
OPS = [["model", i, t] for i in range(len(MODELS)) for t in ("list",)]
OPS += [["model", 1, "array"], ["model", 0, "array"]]
OPS += [["limits", 300.0, 700.0], ["limits", None, 500.0],
        ["limits", 450.0, None], ["limits", None, None],
        ["limits", 100.0, 2000.0],
        ["bad", 900.0, 400.0], ["bad", 500.0, 500.0], ["bad", "a", None],
        ["bad", None, "b"], ["badmodel", None],
        # the caller goes on with the list of the last model
        ["mutate"]]
WAVES = [
    [250.0, 320.0, 455.5, 470.0, 610.25, 890.0, 1100.0],
    [650.0, 330.0, 480.0],
    [350.0],
    [],
    [100.5, 1500.0],
]


def items(tier, seed):
    d = 3 if tier == "quick" else 4
    return [dict(first=i, depth=d, start=s) for i in range(len(OPS))
            for s in (0, 1, 2)]


def run(item, ctx):
    import numpy as np
    from rascal.synthetic import SyntheticSpectrum

    def build(hist):
        lim = [200.0, 1200.0]
        model = None
        m = []
        if item["start"] == 0:
            s = SyntheticSpectrum()
        elif item["start"] == 1:
            m = list(MODELS[1])
            s = SyntheticSpectrum(m)
            model = MODELS[1]
        else:
            lim = [320.5, 900.5]
            m = np.array(MODELS[3])
            s = SyntheticSpectrum(m, 320.5, 900.5)
            model = MODELS[3]
        for n in hist:
            op = OPS[n]
            if op[0] == "model":
                model = MODELS[op[1]]
                m = list(model)
                m = m if op[2] == "list" else np.array(m)
                s.set_model(m)
            elif op[0] == "mutate":
                for k in range(len(m)):
                    m[k] = 7.0 + k
                if isinstance(m, list):
                    m.append(1.0)
            elif op[0] == "limits":
                new = [lim[0] if op[1] is None else op[1],
                       lim[1] if op[2] is None else op[2]]
                try:
                    s.set_wavelength_limit(op[1], op[2])
                except RuntimeError:
                    if new[1] > new[0]:
                        raise
                else:
                    if not new[1] > new[0]:
                        raise core.Violation("limits %s are accepted" % new)
                    lim = new
            else:
                try:
                    if op[0] == "bad":
                        s.set_wavelength_limit(op[1], op[2])
                    else:
                        s.set_model(op[1])
                except (RuntimeError, TypeError):
                    continue
                if op[0] == "bad" and op[1:] == [500.0, 500.0]:
                    raise core.Violation("empty limits are accepted")
                raise core.Violation("%s is accepted" % op)
        return s, model, lim

    def poly(c, x):
        r = 0.0
        for k in c:
            r = r * x + k
        return r

    queue, seen = [[item["first"]]], set()
    while queue:
        hist = queue.pop(0)
        case = dict(start=item["start"], history=[OPS[i] for i in hist])
        ok, r = ctx.guard(case, build, hist)
        ctx.count("transitions")
        if ctx.stop:
            return
        if not ok:
            continue
        s, model, lim = r
        st = [MODELS.index(model) if model else -1, lim]
        ctx.state(st + [item["start"]])
        new = core.digest(st) not in seen
        seen.add(core.digest(st))
        for w in WAVES if model else ():
            if model and len(model) > 2 and not new and w is not WAVES[0]:
                continue
            for t in (list, np.array):
                given = t(w)
                c2 = dict(case, waves=w, type=t.__name__)
                if not w and t is np.array and len(model) > 2:
                    given = np.array([], float)

                def pixels():
                    p, v = s.get_pixels(given)
                    return [float(a) for a in np.atleast_1d(p)], [
                        float(a) for a in np.atleast_1d(v)]

                inside = [a for a in w if lim[0] < a < lim[1]]
                if not inside and len(model) > 2:
                    continue  # nothing to invert
                ctx.count("traces_validated_against_impl")
                ok, r = ctx.guard(c2, pixels)
                if ctx.stop:
                    return
                if not ok:
                    continue
                p, v = r
                if list(map(float, given)) != list(map(float, w)):
                    ctx.violation("the given wavelengths are changed", c2)
                if v != inside or len(p) != len(v):
                    ctx.violation("wavelengths %s and %d pixels, expected %s"
                                  % (v, len(p), inside), c2)
                    continue
                bad = [(a, b) for a, b in zip(p, v)
                       if abs(poly(model, a) - b) > 1e-3]
                if bad and len(model) == 2 and all(
                        abs(model[0] + model[1] * a - b) < 1e-6
                        for a, b in zip(p, v)):
                    ctx.violation("pixels %s" % bad, c2, key="degree-1")
                elif bad:
                    ctx.violation("(pixel, wavelength) %s are not on the "
                                  "model %s" % (bad, model), c2)
                m = np.asarray(s.model(np.array([3.0, 50.0])), float)
                if any(abs(a - poly(model, b)) > 1e-9
                       for a, b in zip(m, (3.0, 50.0))):
                    ctx.violation("the model evaluates to %s" % m, c2)
                if s.degree != len(model) - 1:
                    ctx.violation("degree %s" % s.degree, c2)
        if new and len(hist) < item["depth"]:
            queue += [hist + [i] for i in range(len(OPS))]
    ctx.sample(case)
