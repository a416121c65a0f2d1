"""Independent reference implementations, deliberately boring."""
import math


def vapour_pressure(t):
    """Saturation vapour pressure of water (Pa), IAPWS, t in Celsius."""
    T = t + 273.15
    w = T - 2.38555575678e-1 / (T - 6.50175348448e2)
    a = w * w + 1.16705214528e3 * w - 7.24213167032e5
    b = -1.70738469401e1 * w * w + 1.20208247025e4 * w - 3.23255503223e6
    c = 1.49151086135e1 * w * w - 4.82326573616e3 * w + 4.05113405421e5
    x = -b + math.sqrt(b * b - 4 * a * c)
    return 1e6 * (2 * c / x) ** 4


def dry_index(wave, temperature, pressure):
    """Refractive index of dry air, modified Edlen; Angstrom, Kelvin, Pa."""
    t = temperature - 273.15
    s = (1e4 / wave) ** 2
    ns = 1e-8 * (8342.54 + 2406147.0 / (130.0 - s) + 15998.0 / (38.9 - s))
    x = (1 + 1e-8 * (0.601 - 0.00972 * t) * pressure) / (1 + 0.003661 * t)
    return 1 + pressure * ns * x / 96095.43


def index(wave, temperature, pressure, partial_pressure):
    s = (1e4 / wave) ** 2
    return (
        dry_index(wave, temperature, pressure)
        - 1e-10
        * (292.75 / temperature)
        * (3.7345 - 0.0401 * s)
        * partial_pressure
    )


def vac2air(w, T=273.15, P=101325.0):
    return w / dry_index(w, T, P)


def air2vac(w, T=273.15, P=101325.0):
    return w * dry_index(w, T, P)


def select(lines, elements, lo, hi, min_int, min_dist, brightest, vacuum,
           T=273.15, P=101325.0, H=0.0):
    """
    lines: (element, vacuum wavelength, intensity) in the order of the file.
    min_int: dict lower-case symbol -> threshold. Returns the list of
    (element, wavelength, intensity), or None if a tie leaves it open.
    """
    want = [e.lower() for e in elements]
    pv = H / 100.0 * vapour_pressure(T - 273.15)
    if not vacuum:
        lo, hi = [x * index(x, T, P, pv) if x > 0 else x for x in (lo, hi)]
    sel, seen = [], set()
    for e, w, i in lines:
        if e.lower() in want and lo <= w <= hi and w not in seen:
            seen.add(w)
            sel.append((e, w, i))
    sel = [s for s in sel if s[2] >= min_int.get(s[0].lower(), 0.0)]
    sel.sort(key=lambda s: s[1])
    if brightest is not None and brightest < len(sel):
        order = sorted(sel, key=lambda s: -s[2])
        if brightest > 0 and order[brightest - 1][2] == order[brightest][2]:
            return None
        keep = order[:brightest]
        sel = [s for s in sel if s in keep]
    out = []
    for k, s in enumerate(sel):
        ok = True
        if k > 0 and s[1] - sel[k - 1][1] < min_dist:
            ok = False
        if k + 1 < len(sel) and sel[k + 1][1] - s[1] < min_dist:
            ok = False
        if ok:
            out.append(s)
    if not vacuum:
        out = [(e, w / index(w, T, P, pv), i) for e, w, i in out]
    return out


def horner(coeff, x):
    """Power series, lowest order first."""
    r = 0.0
    for c in reversed(list(coeff)):
        r = r * x + c
    return r
