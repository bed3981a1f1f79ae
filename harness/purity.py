"""C20: profiles are pure functions of position and parameters (specs/Pointwise.tla)."""
import copy, warnings
import numpy as np
from common import *
import catalog
from session import flat, same

warnings.filterwarnings("ignore")
PTS = {1: (0.83, 0.29), 2: (-1.37, 0.64), 3: (0.41, -1.18), 4: (2, 1), 5: (-1, 2), 6: (1.93, -0.37), 7: (0, 1)}
TABLE = {"INTERPOL", "INTERPOL_SCALED", "RADIAL_INTERPOL", "SLIT_STARLETS", "SLIT_STARLETS_GEN2"}
SKIP_LENS = {"LOS", "LOS_FLEXION", "LOS_FLEXION_MINIMAL", "LOS_MINIMAL", "NIE_SIMPLE", "PEMD", "SPEMD", "SYNTHESIS", "TABULATED_DEFLECTIONS"}
SKIP_LIGHT = {"SLIT_STARLETS", "SLIT_STARLETS_GEN2"}
NO_POTENTIAL = {"CURVED_ARC_CONST", "CURVED_ARC_SPT", "PSEUDO_DPL", "SERSIC_ELLIPSE_KAPPA", "SPL_CORE", "TNFWC"}
NUMERICAL = {"NFW_ELLIPSE_POTENTIAL", "CNFW_ELLIPSE_POTENTIAL", "TNFW_ELLIPSE_POTENTIAL", "NFW_MC_ELLIPSE_POTENTIAL"}  # hessian by finite differences of 1e-10
SLOW = {"GNFW", "GNFW_ELLIPSE_GAUSS_DEC", "NFW_ELLIPSE_GAUSS_DEC", "BPL", "CORED_DENSITY_ULDM_MST", "SERSIC_ELLIPSE_GAUSS_DEC"}


def lens_obj(n):
    from lenstronomy.LensModel.profile_list_base import lens_class
    kw = dict(catalog.lens_init(n))
    if n == "GreenBoschNFW":
        kw["num_bins"] = 60
    return lens_class(n, profile_kwargs=kw)


def light_obj(n):
    from lenstronomy.LightModel.light_model import LightModel
    return LightModel([n], profile_kwargs_list=[catalog.light_init(n)]).func_list[0]


def make(kind, n):
    return lens_obj(n) if kind == "lens" else light_obj(n)


FRAME = {0: (0, 0), 1: (3, -2)}  # shift of the frame
CENTERS = [("center_x", "center_y"), ("ra_0", "dec_0"), ("com_x", "com_y")]
# not shifted: tables on a fixed grid; a profile seen through a line-of-sight mapping about the origin of the frame
UNSHIFTED = {("lens", "INTERPOL"), ("lens", "INTERPOL_SCALED"), ("light", "SERSIC_ELLIPSE_FLEXION")}


TURN = {0: 0.0, 1: np.pi / 2, 2: 0.7}
SPIN2 = [("e1", "e2"), ("gamma1", "gamma2"), ("e11", "e21"), ("e12", "e22"), ("e13", "e23")]
ANGLES = ["phi", "phi_G", "direction", "psi_ext", "phi_m", "varphi_m"]
# profiles with an orientation that is not (only) given by these parameters
# orientation not expressed by centers, ellipticities or angles alone
UNTURNED = {("lens", n) for n in ("ARC_PERT DIPOLE EPL_MULTIPOLE_M1M3M4 EPL_MULTIPOLE_M1M3M4_ELL EPL_MULTIPOLE_M3M4 EPL_MULTIPOLE_M3M4_ELL "
                                  "ElliSLICE FLEXION FLEXIONFG GAUSSIAN_POTENTIAL HESSIAN INTERPOL INTERPOL_SCALED MULTIPOLE_ELL "
                                  "SHAPELETS_CART SHAPELETS_POLAR SHIFT").split()} | {
    ("light", n) for n in ("LINE_PROFILE SERSIC_ELLIPSE_FLEXION SHAPELETS SHAPELETS_ELLIPSE SHAPELETS_POLAR SHAPELETS_POLAR_EXP").split()}


def turned(kw, a):
    c, s = np.cos(a), np.sin(a)
    for x, y in CENTERS:
        if x in kw:
            kw[x], kw[y] = c * kw[x] - s * kw[y], s * kw[x] + c * kw[y]
    c, s = np.cos(2 * a), np.sin(2 * a)
    for x, y in SPIN2:
        if x in kw:
            kw[x], kw[y] = c * kw[x] - s * kw[y], s * kw[x] + c * kw[y]
    for x in ANGLES:
        if x in kw:
            kw[x] = kw[x] + a
    return kw


def turn_back(q, v, a):
    """the answer in the frame before the turn"""
    c, s = np.cos(a), np.sin(a)
    if q == "derivatives":
        return [c * v[0] + s * v[1], -s * v[0] + c * v[1]]
    if q == "hessian":
        xx, xy, yx, yy = v
        return [c * c * xx + c * s * (xy + yx) + s * s * yy, -c * s * xx + c * c * xy - s * s * yx + c * s * yy,
                -c * s * xx - s * s * xy + c * c * yx + c * s * yy, s * s * xx - c * s * (xy + yx) + c * c * yy]
    return v


def params(kind, n, obj, p, d=0):
    f = catalog.lens_params if kind == "lens" else catalog.light_params
    kw = copy.deepcopy(f(n, obj.param_names, p - 1))
    for a, b in CENTERS:
        if a in kw:
            kw[a], kw[b] = kw[a] + FRAME[d][0], kw[b] + FRAME[d][1]
    return kw


def shifts(kind, n, q, kw):
    """whether the frame of the profile can be shifted"""
    return (kind, n) not in UNSHIFTED and q != "light_3d" and any(a in kw for a, b in CENTERS)


def call(obj, q, x, y, kw):
    if q == "light_3d":
        return [obj.light_3d(np.abs(x), **{k: v for k, v in kw.items() if k not in ("center_x", "center_y")})]
    out = getattr(obj, q)(x, y, **kw)
    return list(out) if isinstance(out, (tuple, list)) else [out]


_REF = {}


def ref(kind, n, q, p, pt):
    k = (kind, n, q, p, pt)
    if k not in _REF:
        o = make(kind, n)
        x, y = PTS[pt]
        v = call(o, q, np.array([float(x)]), np.array([float(y)]), params(kind, n, o, p))
        _REF[k] = [float(np.broadcast_to(np.asarray(a, float), (1,))[0]) for a in v]
    return _REF[k]


def form(f, s, d):
    xs, ys = [PTS[i][0] + FRAME[d][0] for i in s], [PTS[i][1] + FRAME[d][1] for i in s]
    if f == "float":
        return float(xs[0]), float(ys[0])
    if f == "int":
        return np.array([int(v) for v in xs]), np.array([int(v) for v in ys])
    if f == "npfloat":
        return np.float64(xs[0]), np.float64(ys[0])
    return np.array([float(v) for v in xs]), np.array([float(v) for v in ys])


def pure_case(c):
    kind, n, q = c["kind"], c["name"], c["q"]
    objs = {1: make(kind, n), 2: make(kind, n)}
    done = []
    for st in c["hist"]:
        s = st["s"] if isinstance(st["s"], list) else [st["s"]]
        p = st["p"] if n not in TABLE else st["o"]
        o = objs[st["o"]]
        d = st["d"] if shifts(kind, n, q, params(kind, n, o, p)) else 0
        turn = TURN[st["t"]] if d == 0 and q != "light_3d" and (kind, n) not in UNTURNED and st["f"] != "int" else 0.0
        kw = params(kind, n, o, p, d)
        if turn:
            kw = turned(kw, turn)
        keep = flat(copy.deepcopy(kw))
        x, y = form(st["f"], s, d)
        if turn:
            x, y = np.cos(turn) * x - np.sin(turn) * y, np.sin(turn) * x + np.cos(turn) * y
        x0, y0 = copy.deepcopy(x), copy.deepcopy(y)
        got = turn_back(q, call(o, q, x, y, kw), turn)
        done.append("object %d params %d %s %s shift %s turn %.2f" % (st["o"], p, st["f"], [PTS[i] for i in s], FRAME[d], turn))
        want = list(zip(*[ref(kind, n, q, p, i) for i in s]))
        det = dict(profile=n, function=q, calls=done)
        require(len(got) == len(want), "number of quantities does not depend on the form of the positions", got=len(got), want=len(want), **det)
        for g, w in zip(got, want):
            g = np.asarray(g, float)
            # a constant may be answered by a scalar
            require(g.shape in ((len(s),), ()) if st["f"] != "float" else g.size == 1, "one answer per position", shape=str(g.shape), want=len(s), **det)
            g = np.broadcast_to(g.reshape(-1) if g.ndim else g, (len(s),))
            w = np.array(w)
            tol = (1e-3 if q == "hessian" and (n in NUMERICAL or d or turn) else 1e-9 if d == 0 and not turn else 1e-6) * (1 + np.max(np.abs(w), initial=0))
            require(np.allclose(g, w, rtol=1e-7 if d == 0 and not turn else 1e-6, atol=tol, equal_nan=True), "%s of a profile depends on parameters and position only" % q, got=g.tolist(), want=w.tolist(), **det)
        require(same(flat(kw), keep, 0, 0), "parameters handed in are not altered", **det)
        require(np.array_equal(x, x0) and np.array_equal(y, y0), "positions handed in are not altered", **det)


CASES = dict(pure=pure_case)


def main(pid):
    import lenstronomy.LensModel.lens_model, lenstronomy.LightModel.light_model  # noqa
    from lenstronomy.LensModel.profile_list_base import _SUPPORTED_MODELS as L
    from lenstronomy.LightModel.light_model_base import _MODELS_SUPPORTED as G
    ck = Check(pid)
    r, = ck.mc_all([("Pointwise", dict(Points=set(PTS), Integral={4, 5, 7}, Objects={1, 2}, Params={1, 2}, Forms={"float", "array", "int", "one"}, Shifts={0, 1}, Turns={0, 1, 2}, MaxPts=3, Depth=6),
                     dict(invariants=["Functional", "Aligned", "Emit"]), dict(sim=dict(num=4000 if THOROUGH else 900, depth=7, seed=SEED)))])
    hs = behaviours(r.records)
    rng = ck.rng
    cases = []
    from superpos import L3D
    for kind, names in (("lens", [n for n in L if n not in SKIP_LENS]), ("light", [n for n in G if n not in SKIP_LIGHT])):
        for n in names:
            qs = ["function", "derivatives", "hessian"] if kind == "lens" else ["function"] + (["light_3d"] if n in L3D else [])
            for q in qs:
                if q == "function" and kind == "lens" and n in NO_POTENTIAL:
                    continue
                k = 12 if THOROUGH else 5
                if n in SLOW and q == "function":
                    k = 2 if n.startswith("GNFW") else 3
                for h in rng.sample(hs, k):
                    hist = h["hist"] if not (n in SLOW and q == "function") else h["hist"][:3]
                    cases.append(dict(kind=kind, name=n, q=q, hist=hist))
    rng.shuffle(cases)
    ck.run_cases(pure_case, cases, "pure")
    return ck.finish()
