"""C19: the standard deviational ellipse follows the principal axes."""
import z3
from vc.core import I, R, Unsupported
from vc.harness import *
from vc.shims import lib, np_
from vc import sums
from vc.values import lift, num, to_real, zi

C = "pointpats.centrography."
FUN = [C + "ellipse"]
TRUSTED = ["cos(arctan u) = 1/sqrt(1 + u^2), sin(arctan u) = u cos(arctan u) (vc/shims/np_.py)", "numpy sums and averages", "floats are real numbers"]
P, Wf = z3.Function("P", I, I, R), z3.Function("w", I, R)


def moments(E, n, weighted):
    """weighted sums of squares and products of the coordinates about their weighted means, and the sum of the weights"""
    w = (lambda i: Wf(i)) if weighted else (lambda i: z3.RealVal(1))
    N = z3.ToReal(zi(n))
    W = Sum(n, w) if weighted else N
    S = [Sum(n, lambda i: w(i) * P(i, z3.IntVal(c))) for c in (0, 1)]
    out = []
    for nm, c, d in (("xx", 0, 0), ("yy", 1, 1), ("xy", 0, 1)):
        a = z3.Real("moment_" + nm)
        raw = Sum(n, lambda i: w(i) * P(i, z3.IntVal(c)) * P(i, z3.IntVal(d)))
        # a is the sum of w (u - mean u) (v - mean v) = sum of w u v - (sum of w u) (sum of w v) / W
        sums.define_atom(E, raw, a + S[c] * S[d] / W)
        out.append(a)
        if c == d:
            ensure(f"moment {nm} is not negative", Sum(n, lambda i: w(i) * ((P(i, z3.IntVal(c)) - S[c] / W) * (P(i, z3.IntVal(c)) - S[c] / W))) >= 0)
    return out, W


METHODS = [("crimestat", True, True), ("CrimeStat", False, False), ("yuill", True, True), ("yuill", True, False), ("yuill", False, True), ("Yuill", False, False)]


def factor(method, cc, df, n):
    N = z3.ToReal(zi(n))
    if method.lower() == "crimestat":
        return 2 * N / (N - 2)
    return (2 if cc else 1) * (N / (N - 2) if df else 1)


def weights_of(E, n, kind):
    if kind == "none":
        return None
    E.assume(z3.ForAll([z3.Int("wi")], Wf(z3.Int("wi")) >= 0, patterns=[Wf(z3.Int("wi"))]), "weights are not negative (precondition)")
    E.ghost["_nonneg_fun"] = {"w"}
    if kind == "array":
        return SArr((n,), lambda ix: Sc(Wf(ix[0]), "f"), "f", frozen="weights")
    return vseq(n, lambda k: Sc(Wf(k), "f"))


def judge(E, n, M, method, cc, df, major, minor, angle):
    (a, b, p), W = M
    # the definitions of the moments
    f = factor(method, cc, df, n)
    ma, mi = (T(lift(q)) for q in (major, minor))
    big, small = ma * ma / f, mi * mi / f
    # the eigenvalues of the matrix [[a, p], [p, b]] / W are the two numbers with its trace and its determinant
    ensure("the squared semi-axes over the factor add up to the trace of the covariance matrix", big + small == (a + b) / W)
    ensure("their product is its determinant: they are its eigenvalues", big * small == (a * b - p * p) / (W * W))
    ensure("the major axis first", ma >= mi)
    ensure("axes are not negative", mi >= 0)
    c, s = (T(q(lift(angle))) for q in (np_.cos, np_.sin))
    ensure("the rotation is the direction of the major axis (x)", (a * c + p * s) / W == big * c)
    ensure("the rotation is the direction of the major axis (y)", (p * c + b * s) / W == big * s)


def case(E, form, wk, method, cc, df):
    n = sint("n", 3)
    X = sarray("P", (n, 2))
    w = weights_of(E, n, wk)
    if w is not None:
        E.assume(Sum(n, lambda i: Wf(i)) > 0, "the weights do not sum to zero (precondition)")
    M = moments(E, n, w is not None)
    kw = {} if (method, cc, df) == ("crimestat", True, True) else dict(method=method, crimestatCorr=cc, degfreedCorr=df)
    data = {"array": lambda: X, "list": lambda: points_list("P", n)[0], "geoseries": lambda: lib.GeoSeries(X)}[form]()
    r = mod("centrography").ellipse(data, weights=w, **kw)
    if form == "geoseries":
        if not isinstance(r, lib.Ellipse):
            fail("a polygon: the unit circle about the centre stretched along the axes and turned")
        wv = (lambda i: Wf(i)) if w is not None else (lambda i: z3.RealVal(1))
        W = M[1]
        for c, v in enumerate((r.centre.x, r.centre.y)):
            same_number(f"centred in the (weighted) mean centre, coordinate {c}", v, Sum(n, lambda i: wv(i) * P(i, z3.IntVal(c))) / W)
        same_number("unit circle", r.radius, z3.RealVal(1))
        r = (r.xfact, r.yfact, r.turn)
    major, minor, angle = pair("axes and rotation", r, 3)
    judge(E, n, M, method, cc, df, major, minor, angle)


for _m, _cc, _df in METHODS:
    for _wk in ("none", "array"):
        @contract("C19", f"ellipse[{_m}, {_cc}, {_df}, weights {_wk}]", FUN)
        def _(E, m=_m, cc=_cc, df=_df, wk=_wk):
            case(E, "array", wk, m, cc, df)


for _form, _wk in (("list", "none"), ("list", "list"), ("geoseries", "none"), ("geoseries", "array")):
    @contract("C19", f"ellipse[{_form}, weights {_wk}]", FUN)
    def _(E, f=_form, wk=_wk):
        case(E, f, wk, *(METHODS[0] if wk == "none" else METHODS[3]))
