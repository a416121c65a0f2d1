"""D11: the families of polynomials describe the same solutions."""
from . import core, fitlib

ID = "D11"
LEVEL = "model_checking"
RULE = (
    "every schedule of the first draws of fit() for each of the families "
    "(power, Legendre, Chebyshev); a first-degree solution is the same "
    "whatever the family, and the coefficients of a higher degree evaluate "
    "to the matched lines in the family that was asked for."
)
BOUNDS = "degrees 1-3, first sample complete, second in part"
ASSUMPTIONS = ["the coefficients are in the basis of the family"]
FAMILIES = ["poly", "legendre", "chebyshev"]
NAMES = ["line", "line_extra", "line_over", "quad", "quad_missing", "cubic"]


def items(tier, seed):
    its = [dict(kind="tree", name=n, tries=t,
                limit=60 if tier == "quick" else 3000)
           for n in NAMES for t in (1, 2)]
    its += [dict(kind="brute", name=n) for n in NAMES]
    its.append(dict(kind="unknown"))
    return its


def value(family):
    import numpy as np

    f = {"poly": np.polynomial.polynomial.polyval,
         "legendre": np.polynomial.legendre.legval,
         "chebyshev": np.polynomial.chebyshev.chebval}[family]
    return lambda coeff, x: float(f(x, coeff))


def judge(r, c, pb, family, deg, case, ctx):
    e = fitlib.sound(r, pb, c, fit_deg=deg, value=value(family))
    if e:
        ctx.violation(e, case)
        return
    if isinstance(r, str):
        return
    v = value(family)
    tol = c.ransac_tolerance
    off = [float(p) for p, w in zip(r[1], r[2])
           if abs(v(list(map(float, r[0])), float(p)) - float(w)) > 2 * tol]
    if off:
        key = None
        power = value("poly")
        if family != "poly" and deg >= 2 and all(
                abs(power(list(map(float, r[0])), float(p)) - float(w))
                < 2 * tol for p, w in zip(r[1], r[2])):
            # the known finding: these are coefficients of the power series
            key = "%s-%d" % (family, deg)
        ctx.violation("the solution does not pass through the matched "
                      "lines at %s" % off, case, key=key)


def refine(c, pb, family, case, ctx):
    """The tools after the fit keep the family."""
    v = value(family)
    good = sorted(pb.truth.items())
    for what in ("match", "refine", "manual", "manual_x0"):
        def go():
            x0 = [float(k) for k in c.fit_coeff]
            if what == "match":
                return c.match_peaks(tolerance=3.0)
            if what == "refine":
                return c.match_peaks(tolerance=3.0, refine=True)
            if what == "manual":
                return c.manual_refit([p for p, _ in good],
                                      [w for _, w in good], degree=len(x0) - 1)
            return c.manual_refit([p for p, _ in good],
                                  [w for _, w in good], x0=x0)

        ctx.count("transitions")
        ok, r = ctx.guard(dict(case, call=what), go)
        if ok:
            k = [float(q) for q in r[0]]
            bad = [(p, v(k, p) - w) for p, w in good
                   if abs(v(k, p) - w) > 0.5]
            if bad or len(k) != len(pb.coeff):
                ctx.violation("%s moves the solution away from the lines: %s"
                              % (what, bad), dict(case, call=what))


def run(item, ctx):
    if item["kind"] == "unknown":
        return run_unknown(ctx)
    pb = fitlib.PROBLEMS[item["name"]]
    deg = len(pb.coeff) - 1
    if item["kind"] == "brute":
        got = []
        for fam in FAMILIES:
            case = dict(item, family=fam)
            ctx.count("transitions", 2)
            ctx.count("traces_validated_against_impl")
            ctx.state(case)

            def go():
                c = fitlib.calibrator(pb)
                return fitlib.fit(c, pb, brute_force=True, fit_type=fam), c

            ok, r = ctx.guard(case, go)
            if ok:
                judge(r[0], r[1], pb, fam, deg, case, ctx)
                got.append(r[0])
                if deg == 1 or fam == "poly":
                    if not fitlib.is_truth(r[0], pb):
                        ctx.violation("the solution is not found", case)
                    else:
                        refine(r[1], pb, fam, case, ctx)
        compare(got, item, deg, pb, ctx)
        return
    stats = {}
    its = [fitlib.runs(pb, (deg + 2) * item["tries"], item["limit"],
                       max_tries=item["tries"], fit_type=f, stats=stats)
           for f in FAMILIES]
    while True:
        got, p0 = [], None
        for fam, it in zip(FAMILIES, its):
            ok, nxt = ctx.guard(dict(item, family=fam), next, it, None)
            if not ok or nxt is None:
                if ok:
                    ctx.count("trees_completed" if stats.get("complete")
                              else "trees_cut")
                return
            picks, r, c, ctl, _ = nxt
            case = dict(item, family=fam, picks=picks)
            ctx.count("transitions", len(ctl.points))
            ctx.count("traces_validated_against_impl")
            ctx.state(case)
            judge(r, c, pb, fam, deg, case, ctx)
            got.append(r)
            if deg == 1:
                p0 = picks if p0 is None else p0
                if picks != p0:
                    ctx.violation("the draws are %s, expected %s"
                                  % (picks, p0), case)
        compare(got, case, deg, pb, ctx)
        if ctx.stop:
            return


def compare(got, case, deg, pb, ctx):
    """The first degree is the same in all the families."""
    if deg != 1 or len(got) != 3:
        return
    import numpy as np

    a = got[0]
    for fam, b in zip(FAMILIES[1:], got[1:]):
        if isinstance(a, str) or isinstance(b, str):
            same = isinstance(a, str) and isinstance(b, str)
        else:
            same = (list(a[1]) == list(b[1]) and list(a[2]) == list(b[2])
                    and np.allclose(a[0], b[0], rtol=1e-9, atol=1e-9))
        if not same:
            ctx.violation("%s gives %s, poly gives %s" % (
                fam, fitlib.plain(b), fitlib.plain(a)), case)


def run_unknown(ctx):
    pb = fitlib.PROBLEMS["line"]
    for name in ("other", "", "Poly", None, "polynomial"):
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
        ctx.state(["unknown", name])

        def go():
            c = fitlib.calibrator(pb)
            try:
                c.fit(fit_type=name, max_tries=1, progress=False, fit_deg=1)
            except ValueError:
                return
            raise core.Violation("the family %r is accepted" % (name,))

        ctx.guard(dict(family=name), go)
