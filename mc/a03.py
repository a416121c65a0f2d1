"""A03: air/vacuum conversion over a grid of conditions."""
import itertools

from . import core, refs

ID = "A03"
LEVEL = "exploration"
RULE = (
    "complete grid of wavelength x temperature x pressure x humidity, in each "
    "of the forms scalar / list / array; each point is compared with an "
    "independent implementation of the modified Edlen equation, inverted, and "
    "compared with its neighbours. Non-trivial: the index differs from 1."
)
BOUNDS = "2000-25000 A, 250-320 K, 0-110 kPa, 0-100 % humidity"
ASSUMPTIONS = ["the modified Edlen equation of the NIST toolbox is the "
               "reference; saturation over water at all temperatures"]

WAVE = [2000.0, 2536.517, 3000.0, 3888.65, 4861.35, 5460.74, 5892.9, 6562.8,
        7635.1, 8521.4, 10140.0, 15000.0, 25000.0]
TEMP = [250.0, 263.15, 273.15, 283.15, 288.15, 293.15, 300.0, 320.0]
PRES = [0.0, 30000.0, 60000.0, 80000.0, 101325.0, 110000.0]
HUM = [0.0, 1.0, 25.0, 50.0, 100.0]


def items(tier, seed):
    wave = list(WAVE)
    if tier == "thorough":
        wave = [2000.0 + 57.5 * k for k in range(400)]
    return [dict(T=t, wave=wave) for t in TEMP] + [dict(default=True)]


def index(w, T, P, H):
    return refs.index(w, T, P, H / 100.0 * refs.vapour_pressure(T - 273.15))


def run(item, ctx):
    import numpy as np
    from rascal import util

    if "default" in item:
        return run_default(ctx)
    T, wave = item["T"], item["wave"]
    for P, H in itertools.product(PRES, HUM):
        case = dict(T=T, P=P, H=H)
        prev = None
        for w in wave:
            case = dict(wave=w, T=T, P=P, H=H)
            ctx.count("evaluations")
            n = index(w, T, P, H)
            ok, a = ctx.guard(case, util.vacuum_to_air_wavelength, w, T, P, H)
            ok2, v = ctx.guard(case, util.air_to_vacuum_wavelength, w, T, P, H)
            if not (ok and ok2):
                return
            if abs(float(a) - w / n) > 2e-6 or abs(float(v) - w * n) > 2e-6:
                ctx.violation(
                    "air %r vacuum %r, expected %r %r"
                    % (float(a), float(v), w / n, w * n), case)
            if n != 1.0:
                ctx.key(case)
            # round trip, both ways
            r = util.air_to_vacuum_wavelength(a, T, P, H)
            s = util.vacuum_to_air_wavelength(v, T, P, H)
            if abs(float(r) - w) > 1e-3 or abs(float(s) - w) > 1e-3:
                ctx.violation("round trip %r %r" % (float(r), float(s)), case)
            if P >= 30000 and not (float(a) < w < float(v)):
                ctx.violation("air wavelength is not the shorter one", case)
            if prev is not None and not (prev[0] < float(a)
                                         and prev[1] < float(v)):
                ctx.violation("the order of the wavelengths changes", case)
            prev = (float(a), float(v))
        # lists and arrays are converted one by one, and left unchanged
        for form in (list, np.array, tuple):
            src = form(wave)
            keep = list(src)
            ctx.count("evaluations")
            for f in (util.vacuum_to_air_wavelength,
                      util.air_to_vacuum_wavelength):
                ok, got = ctx.guard(case, f, src, T, P, H)
                if not ok:
                    return
                one = [float(f(w, T, P, H)) for w in wave]
                if len(got) != len(wave) or not np.allclose(
                        got, one, rtol=0, atol=1e-9):
                    ctx.violation("%s is not converted element by element"
                                  % form.__name__, case)
                if list(src) != keep:
                    ctx.violation("the input is modified", case)
        if ctx.stop:
            return
    ctx.sample(dict(T=T, P=101325.0, H=50.0, wave=wave[3],
                    air=wave[3] / index(wave[3], T, 101325.0, 50.0)))


def run_default(ctx):
    """The documented defaults, wherever a conversion is requested."""
    import numpy as np
    from rascal import util
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    for w in WAVE:
        ctx.count("evaluations")
        ctx.key(["default", w])
        for a in (util.vacuum_to_air_wavelength(w),
                  util.vacuum_to_air_wavelength(wavelengths=w)):
            if abs(float(a) - refs.vac2air(w)) > 2e-6:
                ctx.violation("default conditions", dict(wave=w))
        if abs(float(util.air_to_vacuum_wavelength(w)) - refs.air2vac(w)) \
                > 2e-6:
            ctx.violation("default conditions", dict(wave=w))
    for T, P, H in itertools.product((278.15, 293.15), (70000.0, 101325.0),
                                     (0.0, 80.0)):
        case = dict(T=T, P=P, H=H)
        ctx.count("evaluations")
        ctx.key(["user", T, P, H])

        def atlas(vacuum):
            a = Atlas()
            a.add_user_atlas(["X"] * len(WAVE), list(WAVE), None, vacuum,
                             pressure=P, temperature=T, relative_humidity=H)
            c = Calibrator(peaks=[10.0, 20.0])
            c.set_calibrator_properties(num_pix=100)
            c.add_user_atlas(["X"] * len(WAVE), list(WAVE), None, vacuum,
                             pressure=P, temperature=T, relative_humidity=H)
            return a.get_lines(), c.atlas.get_lines()

        for vacuum in (True, False):
            ok, got = ctx.guard(case, atlas, vacuum)
            if not ok:
                return
            exp = [w / index(w, T, P, H) if vacuum else w for w in WAVE]
            for g in got:
                if not np.allclose(g, exp, rtol=0, atol=2e-6):
                    ctx.violation("user lines %s, expected %s" % (g, exp),
                                  case)
