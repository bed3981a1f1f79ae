"""C07: answers of component lists are sums over the selected components, and all lensing quantities derive
from one potential (specs/Superposition.tla)."""
import copy, warnings
import numpy as np
from common import *
import catalog

warnings.filterwarnings("ignore")
X = np.array([0.83, -1.37, 0.41, -0.56, 1.93, 0.15])
Y = np.array([0.29, 0.64, -1.18, -0.91, -0.37, 1.52])
ZL, ZS, ZC = 0.45, 1.4, 2.6
NOT_ORDINARY = {"LOS", "LOS_FLEXION", "LOS_FLEXION_MINIMAL", "LOS_MINIMAL", "NIE_SIMPLE", "PEMD", "SPEMD", "SYNTHESIS",
                "TABULATED_DEFLECTIONS"}
NO_POTENTIAL = {"CURVED_ARC_CONST", "CURVED_ARC_SPT", "PSEUDO_DPL", "SERSIC_ELLIPSE_KAPPA", "SPL_CORE", "TNFWC"}
# profiles that are documented as approximations (interpolations, decompositions): tolerance of the differential relations
LOOSE = {"INTERPOL": 0.3, "INTERPOL_SCALED": 0.3, "RADIAL_INTERPOL": 0.2, "GreenBoschNFW": 0.15, "CNFW": 3e-3, "GNFW_ELLIPSE_GAUSS_DEC": 1e-3,
         "NFW_ELLIPSE_POTENTIAL": 1e-3, "TNFW_ELLIPSE_POTENTIAL": 1e-3, "CNFW_ELLIPSE_POTENTIAL": 1e-3, "NFW_ELLIPSE_GAUSS_DEC": 1e-3, "CHAMELEON": 1e-3}
SLOW = {"GNFW", "GNFW_ELLIPSE_GAUSS_DEC", "NFW_ELLIPSE_GAUSS_DEC", "SERSIC_ELLIPSE_GAUSS_DEC", "BPL", "CORED_DENSITY_ULDM_MST"}  # potentials by integration
_NAMES = None


def lens_names():
    global _NAMES
    if _NAMES is None:
        from lenstronomy.LensModel.profile_list_base import _SUPPORTED_MODELS
        _NAMES = [n for n in _SUPPORTED_MODELS if n not in NOT_ORDINARY]
    return _NAMES


def prof_kw(n):
    return dict(num_bins=60) if n == "GreenBoschNFW" else {}


_PN = {}


def param_names(n):
    if n not in _PN:
        from lenstronomy.LensModel.profile_list_base import lens_class
        kw = dict(catalog.lens_init(n))
        kw.update(prof_kw(n))
        _PN[n] = list(lens_class(n, profile_kwargs=kw).param_names)
    return _PN[n]


def lens_kw(n, which, shift=0):
    p = copy.deepcopy(catalog.lens_params(n, param_names(n), which))
    if shift and "center_x" in p:
        p["center_x"] = p["center_x"] + 0.13 * shift
        p["center_y"] = p["center_y"] - 0.09 * shift
    return p


def lens_model(names, zs=None):
    from lenstronomy.LensModel.lens_model import LensModel
    kw = dict(profile_kwargs_list=[prof_kw(n) for n in names])
    if zs is not None or any(n.startswith("NFW_MC") for n in names):
        kw.update(z_lens=ZL, z_source=zs or ZC, z_source_convention=ZC, lens_redshift_list=[ZL] * len(names))
    return LensModel(list(names), **kw)


def beta_scaling():
    """ratio of reduced deflection at ZS to the one at ZC, from the distances"""
    from astropy.cosmology import default_cosmology
    c = default_cosmology.get()
    f = lambda z: (c.angular_diameter_distance_z1z2(ZL, z) / c.angular_diameter_distance(z)).value
    return f(ZS) / f(ZC)


def quantity(m, q, x, y, kw, **k):
    if q in ("ray_x", "ray_y"):
        return m.ray_shooting(x, y, kw, **k)[q == "ray_y"]
    if q in ("alpha_x", "alpha_y"):
        return m.alpha(x, y, kw, **k)[q == "alpha_y"]
    if q == "potential":
        return m.potential(x, y, kw, **k)
    if q in ("f_xx", "f_xy", "f_yx", "f_yy"):
        return m.hessian(x, y, kw, **k)[["f_xx", "f_xy", "f_yx", "f_yy"].index(q)]
    if q == "kappa":
        return m.kappa(x, y, kw, **k)
    if q in ("gamma1", "gamma2"):
        return m.gamma(x, y, kw, **k)[q == "gamma2"]
    if q == "curl":
        return m.curl(x, y, kw, **k)
    if q == "detinv":
        return 1 / m.magnification(x, y, kw, **k)
    if q == "fermat":
        return m.fermat_potential(x, y, kw, **k)
    if q in ("f_xxx", "f_xxy", "f_xyy", "f_yyy"):
        return m.flexion(x, y, kw, diff=1e-3, **k)[["f_xxx", "f_xxy", "f_xyy", "f_yyy"].index(q)]
    raise MachineryError(q)


def bc(v, x):
    return np.array(np.broadcast_to(np.asarray(v, float), np.shape(x)))


def diff(f, x, y, d, h=2e-3):
    g = (lambda s: f(x + s * h, y)) if d == "dx" else (lambda s: f(x, y + s * h))
    return (45 * (g(1) - g(-1)) - 9 * (g(2) - g(-2)) + (g(3) - g(-3))) / 60 / h


def evaluate(e, m, x, y, kw):
    """value of an expression of the specification, from the answers of the model"""
    if isinstance(e, str):
        if e == "one":
            return np.ones_like(x)
        if e in "xy":
            return x if e == "x" else y
        return bc(quantity(m, e, x, y, kw), x)
    op, args = e[0], e[1:]
    if op in ("dx", "dy"):
        return diff(lambda a, b: evaluate(args[0], m, a, b, kw), x, y, op)
    v = [evaluate(a, m, x, y, kw) for a in args]
    if op == "add":
        return v[0] + v[1]
    if op == "sub":
        return v[0] - v[1]
    if op == "mul":
        return v[0] * v[1]
    if op == "half":
        return v[0] / 2
    raise MachineryError(op)


def uses(e, q):
    return e == q if isinstance(e, str) else any(uses(a, q) for a in e[1:])


def relation_case(c):
    names, q = c["names"], c["q"]
    m = lens_model(names, ZS if c["scaled"] else None)
    kw = [lens_kw(n, c["which"], i) for i, n in enumerate(names)]
    x, y = X + c["jit"][0], Y + c["jit"][1]
    if SLOW & set(names):
        x, y = x[::3], y[::3]
    got = bc(quantity(m, q, x, y, kw), x)
    want = evaluate(c["def"], m, x, y, kw)
    differential = isinstance(c["def"], list) and c["def"][0] in ("dx", "dy")
    tol = 1e-9
    if differential:
        tol = max([1e-4] + [LOOSE.get(n, 0) for n in names])
        if q.startswith("f_") and len(q) == 5:
            tol = max(3e-2, 10 * tol)
    scale = max(np.max(np.abs(want)), np.max(np.abs(got)), 0.05 if differential else 1e-6)
    if differential and q[0] == "f":
        # the error of a derivative of a sampled approximation scales with all its components
        scale = max(scale, np.max(np.abs(np.array([bc(v, x) for v in m.hessian(x, y, kw)]))))
    require(np.all(np.abs(got - want) <= tol * scale), "%s derives from %s" % (q, canon(c["def"])), profiles=names, got=got.tolist(), want=want.tolist())


def to_k(sel):
    """the selection as the user writes it"""
    if sel["kind"] == "none":
        return None
    if sel["kind"] == "int":
        return sel["i"] - 1
    if sel["kind"] == "list":
        return [i - 1 for i in sel["l"]]
    return list(sel["b"])


LINEAR = ["alpha_x", "alpha_y", "potential", "f_xx", "f_xy", "f_yx", "f_yy", "kappa", "gamma1", "gamma2"]


def lens_select_case(c):
    names = c["names"]
    b = beta_scaling() if c["scaled"] else 1.0
    m = lens_model(names, ZS if c["scaled"] else None)
    kw = [lens_kw(n, w, i) for i, (n, w) in enumerate(zip(names, c["which"]))]
    single = [lens_model([n]) for n in names]
    qs = [q for q in LINEAR if not (q == "potential" and (NO_POTENTIAL | {"GNFW", "GNFW_ELLIPSE_GAUSS_DEC"}) & set(names))]
    one = [{q: bc(quantity(s, q, X, Y, [k]), X) for q in qs} for s, k in zip(single, kw)]
    for rec in c["sels"]:
        k = to_k(rec["sel"])
        for q in qs:
            want = b * sum((n * one[i][q] for i, n in enumerate(rec["mult"])), 0 * X)
            got = bc(quantity(m, q, X, Y, copy.deepcopy(kw), k=k), X)
            # sub-selections of other quantities
            require(np.allclose(got, want, rtol=1e-8, atol=1e-10 * (1 + np.max(np.abs(want)))),
                    "%s of the selected components is the sum over them" % q, profiles=names, k=k, scaled=c["scaled"], got=got.tolist(), want=want.tolist())
        # numerical differentials obey the same selection
        wa = b * sum((n * one[i]["alpha_x"] for i, n in enumerate(rec["mult"])), 0 * X)
        if "potential" in qs and k is not None and not any(n in LOOSE or n in ("SHIFT", "DIPOLE", "SHAPELETS_POLAR", "ULDM") for n in names):
            ga = bc(m.alpha(X, Y, kw, k=k, diff=1e-4)[0], X)
            require(np.allclose(ga, wa, rtol=1e-3, atol=1e-4 * (1 + np.max(np.abs(wa)))), "finite-difference deflection of the selected components is the sum over them",
                    profiles=names, k=k, got=ga.tolist(), want=wa.tolist())
        for method in ("square", "cross"):
            gx = bc(m.hessian(X, Y, kw, k=k, diff=1e-5, diff_method=method)[0], X)
            wx = b * sum((n * one[i]["f_xx"] for i, n in enumerate(rec["mult"])), 0 * X)
            if not any(n in LOOSE for n in names) and "DIPOLE" not in names and "SHAPELETS_POLAR" not in names:
                require(np.allclose(gx, wx, rtol=1e-3, atol=1e-3 * (1 + np.max(np.abs(wx)))), "finite-difference hessian of the selected components is the sum over them",
                        profiles=names, k=k, method=method, got=gx.tolist(), want=wx.tolist())


MASS_OK = dict(
    mass_2d=["GAUSSIAN", "GAUSSIAN_ELLIPSE_POTENTIAL", "HERNQUIST", "HERNQUIST_ELLIPSE_POTENTIAL", "HERNQUIST_ELLIPSE_CSE", "NFW", "SIE", "SIS", "SPL_CORE", "SPP"],
    mass_3d=["BPL", "CHAMELEON", "CNFW", "CNFW_ELLIPSE_POTENTIAL", "CORED_DENSITY", "CORED_DENSITY_2", "CORED_DENSITY_EXP", "DOUBLE_CHAMELEON", "EPL", "EPL_Q_PHI",
             "GAUSSIAN", "GAUSSIAN_ELLIPSE_POTENTIAL", "GNFW", "HERNQUIST", "HERNQUIST_ELLIPSE_POTENTIAL", "HERNQUIST_ELLIPSE_CSE", "MULTI_GAUSSIAN",
             "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL", "NFW", "NFW_ELLIPSE_CSE", "NFW_ELLIPSE_POTENTIAL", "NIE", "PJAFFE", "PJAFFE_ELLIPSE_POTENTIAL", "POINT_MASS",
             "PSEUDO_DPL", "SIE", "SIS", "SPEP", "SPL_CORE", "SPP", "TRIPLE_CHAMELEON", "ULDM"],
    density=["CHAMELEON", "CNFW", "CNFW_ELLIPSE_POTENTIAL", "CORED_DENSITY", "CORED_DENSITY_2", "CORED_DENSITY_EXP", "DOUBLE_CHAMELEON", "EPL", "EPL_Q_PHI", "GAUSSIAN",
             "GNFW", "HERNQUIST", "HERNQUIST_ELLIPSE_POTENTIAL", "HERNQUIST_ELLIPSE_CSE", "NFW", "NFW_ELLIPSE_POTENTIAL", "NIE", "PJAFFE", "PSEUDO_DPL", "SIE", "SIS",
             "SPEP", "SPL_CORE", "SPP", "TNFWC", "TRIPLE_CHAMELEON", "ULDM"])


def light_names():
    from lenstronomy.LightModel.light_model_base import _MODELS_SUPPORTED
    return [n for n in _MODELS_SUPPORTED if n not in ("SLIT_STARLETS", "SLIT_STARLETS_GEN2", "ELLIPSOID")]


TOTAL = ["SERSIC", "SERSIC_ELLIPSE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE", "HERNQUIST", "INTERPOL", "MGE_SET"]
L3D = ["DOUBLE_CHAMELEON", "CHAMELEON", "HERNQUIST", "HERNQUIST_ELLIPSE", "PJAFFE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "NIE", "POWER_LAW"]


def light_model(names):
    from lenstronomy.LightModel.light_model import LightModel
    return LightModel(list(names), profile_kwargs_list=[catalog.light_init(n) for n in names])


def light_kw(m, names, which, i0=0):
    out = []
    for i, n in enumerate(names):
        p = copy.deepcopy(catalog.light_params(n, m.func_list[i].param_names, which[i]))
        if "center_x" in p:
            p["center_x"] = p["center_x"] + 0.1 * (i + i0)
        out.append(p)
    return out


def light_select_case(c):
    names = c["names"]
    m = light_model(names)
    kw = light_kw(m, names, c["which"])
    one, flux, dens = [], [], []
    R = np.array([0.3, 0.9, 2.2])
    for i, n in enumerate(names):
        s = light_model([n])
        one.append(s.surface_brightness(X, Y, [copy.deepcopy(kw[i])]))
        flux.append(s.total_flux([copy.deepcopy(kw[i])]) if n in TOTAL else None)
        dens.append(s.light_3d(R, [copy.deepcopy(kw[i])]) if n in L3D else None)
    for rec in c["sels"]:
        k = to_k(rec["sel"])
        chosen = [i for i, v in enumerate(rec["mult"]) if v]
        got = m.surface_brightness(X, Y, copy.deepcopy(kw), k=k)
        want = sum((one[i] for i in chosen), 0 * X)
        require(np.allclose(got, want, rtol=1e-9, atol=1e-12), "surface brightness of the selected components is the sum over them",
                profiles=names, k=k, got=got.tolist(), want=want.tolist())
        if all(flux[i] is not None for i in chosen):
            f = m.total_flux(copy.deepcopy(kw), k=k)
            w = [flux[i][0] for i in chosen]
            require(len(f) == len(w) and np.allclose(np.array(f, float), np.array(w, float), rtol=1e-9), "total flux lists exactly the selected components", profiles=names, k=k, got=str(f), want=str(w))
        if all(dens[i] is not None for i in chosen):
            d = m.light_3d(R, copy.deepcopy(kw), k=k)
            w = sum((dens[i] for i in chosen), 0 * R)
            require(np.allclose(d, w, rtol=1e-9), "3d light of the selected components is the sum over them", profiles=names, k=k, got=d.tolist(), want=w.tolist())


def mass_case(c):
    """3d density, enclosed masses: sums over the selected components, consistent with the deflection"""
    names = c["names"]
    from lenstronomy.LensModel.single_plane import SinglePlane
    m = SinglePlane(list(names))
    kw = [lens_kw(n, w) for n, w in zip(names, c["which"])]
    R = np.array([0.4, 1.1, 2.3])
    for p in kw:
        for e in ("e1", "e2"):
            if e in p:
                p[e] = 0.0
    def one(i, f):
        return bc(getattr(SinglePlane([names[i]]), f)(R, [copy.deepcopy(kw[i])]), R)
    for f in (c["f"],):
        ones = [one(i, f) for i in range(len(names))]
        for rec in c["sels"]:
            k = to_k(rec["sel"])
            got = bc(getattr(m, f)(R, copy.deepcopy(kw), bool_list=k), R)
            want = sum((n * ones[i] for i, n in enumerate(rec["mult"])), 0 * R)
            require(np.allclose(got, want, rtol=1e-8), "%s of the selected components is the sum over them" % f, profiles=names, k=k, got=got.tolist(), want=want.tolist())


# ------------------------------------------------------------------ images

SRC = ["SERSIC_ELLIPSE", "GAUSSIAN", "SHAPELETS"]
LL = ["SERSIC", "GAUSSIAN_ELLIPSE", "UNIFORM"]
PSRC = ["UNLENSED", "LENSED_POSITION", "SOURCE_POSITION"]
KW_L = [dict(theta_E=1.1, center_x=0.02, center_y=-0.03), dict(gamma1=0.05, gamma2=-0.03)]


def kw_ps(i):
    return [dict(ra_image=np.array([0.4, -1.1]), dec_image=np.array([0.7, 0.3]), point_amp=np.array([5.0, 3.0])),
            dict(ra_image=np.array([1.2, -0.8]), dec_image=np.array([0.2, -0.6]), point_amp=np.array([4.0, 6.0])),
            dict(ra_source=0.05, dec_source=0.1, point_amp=np.array([7.0, 2.0, 3.0, 1.0]))][i]


def image_model(src, ll, ps, variant):
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.PointSource.point_source import PointSource
    n = 21
    data = ImageData(image_data=np.zeros((n, n)), ra_at_xy_0=-2.1, dec_at_xy_0=-2.0, transform_pix2angle=np.array([[0.2, 0.01], [-0.01, 0.2]]),
                     background_rms=0.1, exposure_time=100.0)
    if variant["psf"] == "NONE":
        psf = PSF(psf_type="NONE")
    elif variant["psf"] == "GAUSSIAN":
        psf = PSF(psf_type="GAUSSIAN", fwhm=0.5, pixel_size=0.2)
    else:
        g = np.arange(7) - 3
        ker = np.exp(-(g[:, None] ** 2 + (g[None, :] - 0.3) ** 2) / 3.0)
        psf = PSF(psf_type="PIXEL", kernel_point_source=ker / ker.sum())
    z = dict(z_source=1.5, z_source_convention=2.0, z_lens=0.5) if variant["redshifts"] else {}
    lens = LensModel(["SIS", "SHEAR"], **z)
    skw = {}
    if variant["redshifts"]:
        skw["source_redshift_list"] = [[1.5, 2.0, 1.0][i] for i in src]
    if variant["scaling"]:
        skw["deflection_scaling_list"] = [[1, 0.7, 0.4][i] for i in src]
    return ImageModel(data, psf, lens_model_class=lens, source_model_class=LightModel([SRC[i] for i in src], **skw) if src else None,
                      lens_light_model_class=LightModel([LL[i] for i in ll]) if ll else None,
                      point_source_class=PointSource([PSRC[i] for i in ps], lens_model=lens, fixed_magnification_list=[False] * len(ps)) if ps else None,
                      kwargs_numerics=dict(variant["numerics"]))


def kw_img(src, ll, ps):
    ks = [dict(amp=3.0, R_sersic=0.4, n_sersic=1.5, e1=0.1, e2=-0.1, center_x=0.1, center_y=0.05), dict(amp=5.0, sigma=0.2, center_x=-0.1, center_y=0.2),
          dict(amp=np.array([1.0, 2.0, -0.5]), n_max=1, beta=0.3, center_x=0.0, center_y=-0.1)]
    kl = [dict(amp=4.0, R_sersic=0.8, n_sersic=3.0, center_x=0.02, center_y=-0.03), dict(amp=6.0, sigma=0.5, e1=0.1, e2=0.05, center_x=0.3, center_y=-0.2), dict(amp=0.3)]
    return dict(kwargs_lens=copy.deepcopy(KW_L), kwargs_source=[ks[i] for i in src], kwargs_lens_light=[kl[i] for i in ll], kwargs_ps=[kw_ps(i) for i in ps])


_PIECE = {}


def piece(kind, i, variant, unconvolved, de_lensed=False):
    key = canon([kind, i, variant, unconvolved, de_lensed])
    if key not in _PIECE:
        g = ([i], [], []) if kind == "s" else ([], [i], []) if kind == "l" else ([], [], [i])
        m = image_model(*g, variant)
        kw = kw_img(*g)
        if de_lensed:
            _PIECE[key] = m.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], unconvolved=unconvolved, de_lensed=True)
        else:
            _PIECE[key] = m.image(unconvolved=unconvolved, **kw)
    return _PIECE[key]


def image_case(c):
    v, src, ll, ps = c["variant"], c["src"], c["ll"], c["ps"]
    m = image_model(src, ll, ps, v)
    for unconv in (False, True):
        for flags in c["flags"]:
            kw = kw_img(src, ll, ps)
            got = m.image(unconvolved=unconv, source_add=flags["s"], lens_light_add=flags["l"], point_source_add=flags["p"], **kw)
            want = np.zeros_like(got)
            for on, kind, idx in ((flags["s"], "s", src), (flags["l"], "l", ll), (flags["p"], "p", ps)):
                if on:
                    for i in idx:
                        want = want + piece(kind, i, v, unconv)
            require(np.allclose(got, want, rtol=1e-7, atol=1e-9 * max(1, np.abs(want).max())), "the image is the sum of the components that are switched on",
                    flags=flags, src=src, ll=ll, ps=ps, variant=v, unconvolved=unconv, worst=float(np.abs(got - want).max()))
        for rec in c["sels"]:
            k = to_k(rec["sel"])
            kw = kw_img(src, ll, ps)
            if len(src) == len(rec["mult"]) and rec["sel"]["kind"] != "bools":
                for dl in (False, True):
                    got = m.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], unconvolved=unconv, de_lensed=dl, k=k)
                    want = sum((n * piece("s", src[i], v, unconv, dl) for i, n in enumerate(rec["mult"])), np.zeros_like(got))
                    require(np.allclose(got, want, rtol=1e-7, atol=1e-9), "source light of the selected components is the sum over them",
                            k=k, variant=v, de_lensed=dl, unconvolved=unconv, worst=float(np.abs(got - want).max()))
            if len(ll) == len(rec["mult"]):
                got = m.lens_surface_brightness(kw["kwargs_lens_light"], unconvolved=unconv, k=k)
                want = sum((n * piece("l", ll[i], v, unconv) for i, n in enumerate(rec["mult"])), np.zeros_like(got))
                require(np.allclose(got, want, rtol=1e-7, atol=1e-9), "lens light of the selected components is the sum over them",
                        k=k, variant=v, unconvolved=unconv, worst=float(np.abs(got - want).max()))
            if len(ps) == len(rec["mult"]):
                got = m.point_source(kw["kwargs_ps"], kw["kwargs_lens"], unconvolved=unconv, k=k)
                want = sum((n * piece("p", ps[i], v, unconv) for i, n in enumerate(rec["mult"])), np.zeros_like(got))
                require(np.allclose(got, want, rtol=1e-7, atol=1e-9), "point source light of the selected components is the sum over them",
                        k=k, variant=v, unconvolved=unconv, worst=float(np.abs(got - want).max()))


CASES = dict(relation=relation_case, lens_select=lens_select_case, light_select=light_select_case, mass=mass_case, image=image_case)


def main(pid):
    import lenstronomy.LensModel.lens_model, lenstronomy.ImSim.image_model, lenstronomy.PointSource.point_source  # noqa
    ck = Check(pid)
    K = {"none", "int", "list", "bools"}
    inv = dict(invariants=["EachOnce", "Partition", "OrderFree", "Emit", "EmitDefs"])
    r4, r3 = ck.mc_all([("Superposition", dict(N=4, MaxLen=3, Kinds=K), inv), ("Superposition", dict(N=3, MaxLen=3, Kinds=K), inv)])
    defs = [r for r in r4.records if "defs" in r][0]["defs"]
    s4 = [r for r in r4.records if "sel" in r]
    s3 = [r for r in r3.records if "sel" in r]
    rng = ck.rng
    # relations: every profile alone, and random pairs
    rel = []
    for n in lens_names():
        for which in (0, 1):
            jit = [round(rng.uniform(-0.01, 0.01), 4) for _ in range(2)]
            for q, d in defs.items():
                if n in NO_POTENTIAL and (uses(d, "potential") or q == "potential"):
                    continue
                if q.startswith("f_") and len(q) == 5 and (n in LOOSE or which):
                    continue
                rel.append(dict(names=[n], which=which, q=q, jit=jit, scaled=False, **{"def": d}))
    skip = NO_POTENTIAL | {"SHIFT", "DIPOLE", "SHAPELETS_POLAR"} | set(LOOSE) | ({"GNFW"} if not THOROUGH else set())
    pool = [n for n in lens_names() if n not in skip]
    for _ in range(400 if THOROUGH else 40):
        names = rng.sample(pool, 2)
        for q, d in defs.items():
            rel.append(dict(names=names, which=rng.randint(0, 1), q=q, jit=[0.0, 0.0], scaled=rng.random() < 0.5, **{"def": d}))
    rng.shuffle(rel)
    ck.run_cases(relation_case, rel, "relation")
    # selections
    cases = []
    names_all = list(lens_names())
    rng.shuffle(names_all)
    for i in range(300 if THOROUGH else 40):
        names = [names_all[(3 * i + j) % len(names_all)] for j in range(3)]
        names.insert(rng.randint(0, 3), rng.choice(names))
        cases.append(dict(names=names, which=[rng.randint(0, 1) for _ in names], scaled=rng.random() < 0.5, sels=rng.sample(s4, 14)))
    ck.run_cases(lens_select_case, cases, "lens_select")
    cases = []
    ln = light_names()
    rng.shuffle(ln)
    for i in range(300 if THOROUGH else 60):
        names = [ln[(3 * i + j) % len(ln)] for j in range(3)] if i % 3 else rng.sample([TOTAL, L3D][i % 2], 3)
        names.insert(rng.randint(0, 3), rng.choice(names))
        cases.append(dict(names=names, which=[rng.randint(0, 1) for _ in names], sels=rng.sample(s4, 25)))
    ck.run_cases(light_select_case, cases, "light_select")
    ck.run_cases(mass_case, [dict(f=f, names=rng.sample(MASS_OK[f], 4), which=[rng.randint(0, 1) for _ in range(4)], sels=rng.sample(s4, 12)) for f in MASS_OK for _ in range(100 if THOROUGH else 15)], "mass")
    flags = [dict(s=a, l=b, p=d) for a in (True, False) for b in (True, False) for d in (True, False)]
    nums = [dict(supersampling_factor=1), dict(supersampling_factor=2), dict(supersampling_factor=2, supersampling_convolution=True)]
    cases = []
    for i in range(200 if THOROUGH else 24):
        sub = lambda: sorted(rng.sample(range(3), rng.choice([0, 1, 2, 3, 3, 3])))
        src, ll, ps = sub(), sub(), sub()
        for g in (src, ll, ps):
            rng.shuffle(g)
        redshifts = rng.random() < 0.4
        v = dict(psf=rng.choice(["NONE", "GAUSSIAN", "PIXEL"]), redshifts=redshifts, scaling=not redshifts and rng.random() < 0.5, numerics=rng.choice(nums))
        cases.append(dict(variant=v, src=src, ll=ll, ps=ps, flags=flags, sels=rng.sample(s3, 10)))
    ck.run_cases(image_case, cases, "image")
    ck.assumptions += ["differential relations hold to 1e-4 of the size of the quantity (profiles defined by interpolation or decomposition: %s)" % LOOSE,
                       "profiles without potential: %s" % sorted(NO_POTENTIAL), "not ordinary profiles: %s" % sorted(NOT_ORDINARY)]
    return ck.finish()
