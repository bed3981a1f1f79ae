"""C09, C10: amplitudes of light components, in one image and among several bands (specs/LinearBands.tla)."""
import copy, warnings
import os
import numpy as np
from common import *
from session import flat, same
import catalog

warnings.filterwarnings("ignore")
LENS = ["SIE", "SHEAR", "SIS"]
KL = [dict(theta_E=1.0, e1=0.08, e2=-0.05, center_x=0.02, center_y=-0.01), dict(gamma1=0.03, gamma2=-0.02, ra_0=0, dec_0=0),
      dict(theta_E=0.12, center_x=0.7, center_y=-0.5)]
# light profiles with their non-linear parameters
FREE = dict(
    SERSIC=lambda r, s: dict(R_sersic=s, n_sersic=r.uniform(0.8, 1.5)), SERSIC_ELLIPSE=lambda r, s: dict(R_sersic=s, n_sersic=r.uniform(0.8, 1.5), e1=0.1, e2=-0.1),
    SERSIC_ELLIPSE_Q_PHI=lambda r, s: dict(R_sersic=s, n_sersic=1.0, q=0.7, phi=0.4), CORE_SERSIC=lambda r, s: dict(R_sersic=s, Rb=0.1, n_sersic=1.0, gamma=0.1, e1=0.1, e2=0.1),
    GAUSSIAN=lambda r, s: dict(sigma=s), GAUSSIAN_ELLIPSE=lambda r, s: dict(sigma=s, e1=0.2, e2=0.1),
    MULTI_GAUSSIAN=lambda r, s: dict(sigma=np.array([s * 0.6, s * 1.5])), MULTI_GAUSSIAN_ELLIPSE=lambda r, s: dict(sigma=np.array([s * 0.5, s, s * 2]), e1=0.1, e2=0.2),
    SHAPELETS=lambda r, s: dict(n_max=2, beta=s), SHAPELETS_POLAR=lambda r, s: dict(n_max=2, beta=s), SHAPELETS_POLAR_EXP=lambda r, s: dict(n_max=1, beta=s),
    SHAPELETS_ELLIPSE=lambda r, s: dict(n_max=1, beta=s, e1=0.1, e2=0.05), UNIFORM=lambda r, s: {}, HERNQUIST=lambda r, s: dict(Rs=s), HERNQUIST_ELLIPSE=lambda r, s: dict(Rs=s, e1=0.1, e2=0.05),
    PJAFFE=lambda r, s: dict(Ra=0.1, Rs=s), PJAFFE_ELLIPSE=lambda r, s: dict(Ra=0.1, Rs=s, e1=0.1, e2=0.0), NIE=lambda r, s: dict(e1=0.1, e2=0.05, s_scale=s),
    CHAMELEON=lambda r, s: dict(w_c=0.1, w_t=s, e1=0.1, e2=0.05), DOUBLE_CHAMELEON=lambda r, s: dict(ratio=0.5, w_c1=0.1, w_t1=s, e11=0.1, e21=0, w_c2=0.2, w_t2=2 * s, e12=0.1, e22=0.1),
    TRIPLE_CHAMELEON=lambda r, s: dict(ratio12=0.5, ratio13=0.3, w_c1=0.1, w_t1=s, e11=0.1, e21=0, w_c2=0.2, w_t2=2 * s, e12=0.1, e22=0.1, w_c3=0.3, w_t3=3 * s, e13=0, e23=0),
    POWER_LAW=lambda r, s: dict(gamma=2.5, e1=0.1, e2=0.0), ELLIPSOID=lambda r, s: dict(radius=2 * s, e1=0.1, e2=0.1), MGE_SET=lambda r, s: dict(sigma_min=s / 2, sigma_width=2 * s),
    MGE_SET_ELLIPSE=lambda r, s: dict(sigma_min=s / 2, sigma_width=2 * s, e1=0.1, e2=0.1),
    INTERPOL=lambda r, s: dict(image=np.exp(-((np.arange(9)[:, None] - 4) ** 2 + (np.arange(9) - 3) ** 2) / 6.0), phi_G=0.3, scale=s / 2),
)
NUM = dict(MULTI_GAUSSIAN=2, MULTI_GAUSSIAN_ELLIPSE=3, SHAPELETS=6, SHAPELETS_POLAR=6, SHAPELETS_POLAR_EXP=4, SHAPELETS_ELLIPSE=3, MGE_SET=3, MGE_SET_ELLIPSE=3)
INIT = dict(MGE_SET=dict(n_comp=3), MGE_SET_ELLIPSE=dict(n_comp=3))
QUAD = (np.array([0.95, -0.9, 0.15, -0.2]), np.array([0.2, 0.1, 0.95, -0.9]))


def world(seed, n_bands, types=None, ident=False, lens_sel=True, vary=False):
    """components, their parameters, the frame, PSF, mask and numerics of every band"""
    r = np.random.RandomState(seed)
    names = sorted(FREE)
    comps = []
    if types is None:
        types = ([("S", str(r.choice(names))) for _ in range(r.randint(1, 3))] + [("L", str(r.choice(names))) for _ in range(r.randint(1, 4))]
                 + [("P", str(r.choice(["UNLENSED", "LENSED_POSITION", "LENSED_FIX", "SOURCE_FIX"]))) for _ in range(r.randint(0, 3))])
    for i, (g, t) in enumerate(types):
        if g == "P":
            n = 2 if t == "UNLENSED" else 4 if t == "LENSED_POSITION" else 1
            if t == "UNLENSED":
                kw = dict(ra_image=r.uniform(-1, 1, 2), dec_image=r.uniform(-1, 1, 2))
            elif t.startswith("LENSED"):
                kw = dict(ra_image=QUAD[0] + r.uniform(-0.1, 0.1, 4), dec_image=QUAD[1] + r.uniform(-0.1, 0.1, 4))
            else:
                kw = dict(ra_source=r.uniform(-0.3, 0.3), dec_source=r.uniform(-0.3, 0.3))
        else:
            n = NUM.get(t, 1)
            s = r.uniform(0.15, 0.4) * (1 if g == "S" else 2)
            kw = FREE[t](r, s)
            if t != "UNIFORM":
                kw.update(center_x=r.uniform(-0.2, 0.2) + 0.1 * i, center_y=r.uniform(-0.2, 0.2))
        comps.append(dict(name="%s%d" % (g, sum(1 for c in comps if c["g"] == g)), g=g, t=t, n=n, kw=kw))
    by = {g: [c["name"] for c in comps if c["g"] == g] for g in "SLP"}
    bands = []
    for b in range(n_bands):
        n, w = 17 + 2 * r.randint(0, 3), r.choice([0.18, 0.22])
        p = r.uniform(0, 2 * np.pi) if r.rand() < 0.5 else 0
        m = w * np.array([[np.cos(p), -np.sin(p)], [np.sin(p), np.cos(p)]])
        o = -m @ np.array([(n - 1) / 2, (n - 1) / 2]) + r.uniform(-0.1, 0.1, 2)
        g = np.arange(5) - 2
        k = np.exp(-(g[:, None] ** 2 + (g - 0.2) ** 2) / 2 / r.uniform(0.7, 1.1) ** 2)
        psf = [dict(psf_type="NONE"), dict(psf_type="GAUSSIAN", fwhm=r.uniform(0.25, 0.4), truncation=3, pixel_size=w),
               dict(psf_type="PIXEL", kernel_point_source=k), dict(psf_type="PIXEL", kernel_point_source=k, psf_variance_map=0.01 * np.ones((5, 5)) * r.uniform(0.1, 1))][r.randint(4)]
        sel = {}
        for gr in "SLP":
            s = list(by[gr])
            if not ident and not (n_bands == 1):
                s = [c for c in s if r.rand() < 0.7]
                if r.rand() < 0.3:
                    s = s[::-1]
            sel[gr] = s
        ls = [0, 1, 2]
        if lens_sel and n_bands > 1 and r.rand() < 0.5:
            ls = [[0, 1], [0, 2], [0], [2, 0, 1]][r.randint(4)]
        if not any(sel.values()):
            sel = dict(by)
        mk = r.rand(n, n) < 0.85
        bands.append(dict(n=n, m=m, o=o, psf=psf, sel=sel, lens=ls, mask=mk, num=dict(supersampling_factor=int(r.choice([1, 1, 2]))), noise=r.uniform(0.5, 1.5, (n, n)),
                          fs=float(r.choice([1.0, 1.0, 0.7, 1.6]))))
    scal = [float(r.uniform(0.5, 1)) for _ in by["S"]] if r.rand() < 0.3 else None
    ext = None
    if r.rand() < 0.3:
        ext = [("UNIFORM", dict(amp=0.4)), ("GAUSSIAN", dict(amp=0.8, sigma=0.5, center_x=0.1, center_y=-0.2)), ("MGE_SET", dict(amp=np.array([0.3, 0.2, 0.4]), sigma_min=0.3, sigma_width=1.0, center_x=0.2, center_y=0))]
        ext = [ext[k] for k in r.permutation(3)[:r.randint(1, 4)]]
        for b in bands:
            b["ext"] = [int(k) for k in r.permutation(len(ext))[:r.randint(0, len(ext) + 1)]] if n_bands > 1 else list(range(len(ext)))
            b["tau0"] = int(r.randint(3)) if n_bands > 1 else 0
    planes = None
    if n_bands > 1 and r.rand() < 0.35:
        scal = None
        planes = dict(z=[[0.5, 0.5, 0.8], [0.4, 0.9, 0.7], [0.9, 0.3, 0.5]][r.randint(3)], obs=[[2], [0], [0, 2], [2, 0], []][r.randint(5)])
    return dict(comps=comps, by=by, bands=bands, seed=seed, planes=planes, scal=scal, ext=ext, tau0=[float(r.uniform(0.3, 1.5)) for _ in range(3)])


def kwargs_data(b, img, fs=None):
    d = dict(image_data=img, transform_pix2angle=b["m"], ra_at_xy_0=b["o"][0], dec_at_xy_0=b["o"][1], noise_map=b["noise"])
    if b["fs"] != 1.0:
        d["flux_scaling"] = b["fs"]
    return d


def kw_amp(c, a):
    """parameters of a component with amplitudes a"""
    kw = copy.deepcopy(c["kw"])
    if c["g"] == "P":
        if c["n"] == 1:
            kw["source_amp"] = float(a[0])
        else:
            kw["point_amp"] = np.array(a, float)
    else:
        kw["amp"] = np.array(a, float) if c["t"] in NUM else float(a[0])
    return kw


def amps_of(c, kw):
    v = kw["source_amp" if c["n"] == 1 else "point_amp"] if c["g"] == "P" else kw["amp"]
    return np.atleast_1d(np.array(v, float))


def ps_type(t):
    return {"LENSED_FIX": "LENSED_POSITION", "SOURCE_FIX": "SOURCE_POSITION"}.get(t, t)


SOLVER = dict(min_distance=0.05, search_window=5.0, x_center=0.0, y_center=0.0, precision_limit=1e-10, num_iter_max=100)


def lens_of(W, b):
    """lens model of a band, from the lenses it sees"""
    from lenstronomy.LensModel.lens_model import LensModel
    names = [LENS[i] for i in b["lens"]]
    if not W["planes"]:
        return LensModel(names)
    obs = [k for k, i in enumerate(b["lens"]) if i in W["planes"]["obs"]]
    return LensModel(names, lens_redshift_list=[W["planes"]["z"][i] for i in b["lens"]], z_source=1.7, z_source_convention=2.1, multi_plane=True,
                     observed_convention_index=obs if W["planes"]["obs"] else None)


def units(W):
    """image of every amplitude on its own, one component at a time"""
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.ImSim.differential_extinction import DifferentialExtinction
    out = []
    for b in W["bands"]:
        data = ImageData(**dict(kwargs_data(dict(b, fs=1.0), np.zeros((b["n"], b["n"])))))
        lens, kl = lens_of(W, b), [KL[i] for i in b["lens"]]
        d = {}
        for c in W["comps"]:
            if c["name"] not in sum(b["sel"].values(), []):
                continue
            imgs = []
            for k in range(c["n"]):
                e = np.zeros(c["n"])
                e[k] = 1
                kw = [kw_amp(c, e)]
                opt = dict(kwargs_numerics=b["num"])
                if c["g"] == "P":
                    ps = PointSource([ps_type(c["t"])], lens_model=lens, fixed_magnification_list=[c["t"].endswith("FIX")], kwargs_lens_eqn_solver=SOLVER)
                    im = ImageModel(data, PSF(**b["psf"]), lens_model_class=lens, point_source_class=ps, **opt).image(kl, kwargs_ps=kw)
                elif c["g"] == "S":
                    sc = None if W["scal"] is None else [W["scal"][W["by"]["S"].index(c["name"])]]
                    src = LightModel([c["t"]], profile_kwargs_list=[INIT.get(c["t"], {})], deflection_scaling_list=sc)
                    ke = None
                    if W["ext"]:
                        es = [W["ext"][k] for k in b["ext"]]
                        opt["extinction_class"] = DifferentialExtinction([e[0] for e in es], profile_kwargs_list=[INIT.get(e[0], {}) for e in es])
                        ke = dict(kwargs_extinction=[dict(e[1]) for e in es], kwargs_special=dict(tau0_list=[W["tau0"][b["tau0"]]]))
                    im = ImageModel(data, PSF(**b["psf"]), lens_model_class=lens, source_model_class=src, **opt).image(kl, kwargs_source=kw, **(ke or {}))
                else:
                    im = ImageModel(data, PSF(**b["psf"]), lens_light_model_class=LightModel([c["t"]], profile_kwargs_list=[INIT.get(c["t"], {})]), **opt).image(kwargs_lens_light=kw)
                imgs.append(im * b["fs"])
            d[c["name"]] = imgs
        out.append(d)
    return out


def regular(W):
    """no source close to a caustic: finding its images is the subject of C15"""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    for b in W["bands"]:
        lens, kl = lens_of(W, b), [KL[i] for i in b["lens"]]
        for c in W["comps"]:
            if c["t"] == "SOURCE_FIX" and c["name"] in b["sel"]["P"]:
                n = []
                for k in range(6):
                    np.random.seed(k)
                    x, y = LensEquationSolver(lens).image_position_from_source(c["kw"]["ra_source"], c["kw"]["dec_source"], kl, **SOLVER)
                    if len(x) == 0 or np.max(np.abs(lens.magnification(x, y, kl))) > 10:
                        return False
                    for k in kl:
                        if "theta_E" in k and np.min(np.hypot(x - k["center_x"], y - k["center_y"])) < 0.5 * k["theta_E"] + 0.1:  # the deflection is singular there
                            return False
                    n.append(len(x))
                if len(set(n)) > 1:
                    return False
    return True


def order(b):
    return b["sel"]["S"] + b["sel"]["L"] + b["sel"]["P"]


def model_kwargs(W, index=True, band=None):
    c = lambda g: [x for x in W["comps"] if x["g"] == g]
    kw = dict(lens_model_list=list(LENS), source_light_model_list=[x["t"] for x in c("S")], lens_light_model_list=[x["t"] for x in c("L")])
    if any(x["t"] in INIT for x in c("S")):
        kw["source_light_profile_kwargs_list"] = [dict(INIT.get(x["t"], {})) for x in c("S")]
    if any(x["t"] in INIT for x in c("L")):
        kw["lens_light_profile_kwargs_list"] = [dict(INIT.get(x["t"], {})) for x in c("L")]
    if c("P"):
        kw.update(point_source_model_list=[ps_type(x["t"]) for x in c("P")], fixed_magnification_list=[x["t"].endswith("FIX") for x in c("P")], kwargs_lens_eqn_solver=dict(SOLVER))
    if W["scal"] is not None:
        kw["source_deflection_scaling_list"] = list(W["scal"])
    if W["ext"]:
        kw["optical_depth_model_list"] = [e[0] for e in W["ext"]]
        if any(e[0] in INIT for e in W["ext"]):
            kw["optical_depth_profile_kwargs_list"] = [dict(INIT.get(e[0], {})) for e in W["ext"]]
        if len(W["bands"]) > 1:
            kw["index_optical_depth_model_list"] = [list(b["ext"]) for b in W["bands"]]
            kw["tau0_index_list"] = [b["tau0"] for b in W["bands"]]
    if W["planes"]:
        kw.update(lens_redshift_list=list(W["planes"]["z"]), z_source=1.7, z_source_convention=2.1, multi_plane=True)
        if W["planes"]["obs"]:
            kw["observed_convention_index"] = list(W["planes"]["obs"])
    if index:
        ix = lambda g: [[W["by"][g].index(n) for n in b["sel"][g]] for b in W["bands"]]
        kw.update(index_lens_model_list=[list(b["lens"]) for b in W["bands"]], index_source_light_model_list=ix("S"), index_lens_light_model_list=ix("L"))
        if c("P"):
            kw.update(index_point_source_model_list=ix("P"))
    return kw


def user_kwargs(W, kw):
    g = lambda x: [kw_amp(c, kw[c["name"]]) for c in W["comps"] if c["g"] == x]
    out = dict(kwargs_lens=copy.deepcopy(KL), kwargs_source=g("S"), kwargs_lens_light=g("L"), kwargs_ps=g("P"))
    if W["ext"]:
        out.update(kwargs_extinction=[copy.deepcopy(e[1]) for e in W["ext"]], kwargs_special=dict(tau0_list=list(W["tau0"])))
    return out


def four(uk):
    return {k: v for k, v in uk.items() if k not in ("kwargs_extinction", "kwargs_special")}


def make(W, imgs, typ, compute, index):
    from lenstronomy.Util.class_creator import create_im_sim, create_image_model
    mbl = [[kwargs_data(b, im), copy.deepcopy(b["psf"]), dict(b["num"])] for b, im in zip(W["bands"], imgs)]
    masks = [b["mask"].copy() for b in W["bands"]]
    km = model_kwargs(W, index)
    if typ == "image":
        return create_image_model(*mbl[0], km, image_likelihood_mask=masks[0])
    if typ == "vary":
        from lenstronomy.ImSim.MultiBand.joint_linear_vary_background import JointLinear_VaryBG
        return JointLinear_VaryBG(mbl, km, likelihood_mask_list=masks)
    cb = [bool(i + 1 in compute) for i in range(len(mbl))]
    if typ.startswith("single"):
        return create_im_sim(mbl, "single-band", km, image_likelihood_mask_list=masks, band_index=int(typ[6:]) - 1)
    return create_im_sim(mbl, {"multi": "multi-linear", "joint": "joint-linear"}[typ], km, bands_compute=None if all(cb) and len(mbl) % 2 else cb, image_likelihood_mask_list=masks)


def linear_case(c):
    W = world(**c["world"])
    K = 1000 if any(x["t"] == "SOURCE_FIX" for x in W["comps"]) else 1  # positions are solved for, and the lens equation solver is randomised
    if not regular(W):
        return
    U = units(W)
    r = np.random.RandomState(c["seed"])
    typ, comp, nb = c["typ"], c["compute"], len(W["bands"])
    where = dict(type=typ, comps=[(x["name"], x["t"]) for x in W["comps"]], sel=[order(b) for b in W["bands"]], psf=[b["psf"]["psf_type"] for b in W["bands"]])
    one = 0 if typ == "image" else int(typ[6:]) - 1 if typ.startswith("single") else None
    cmap = {x["name"]: x for x in W["comps"]}
    mat = [np.array([u[b["mask"]] for n in order(b) for u in U[i][n]]) for i, b in enumerate(W["bands"])]
    shared = typ in ("joint", "vary")
    used = [one] if one is not None else [i - 1 for i in sorted(comp)]
    # is the problem well posed?
    A = np.concatenate([mat[i] for i in used], axis=1) if shared else None
    if typ == "vary":
        A = np.concatenate([A, np.concatenate([np.array([[1.0 if k == i else 0.0] * mat[i].shape[1] for k in range(nb)]) for i in used], axis=1)])
    for a in ([A] if shared else [mat[i] for i in used]):
        if a.shape[0] > a.shape[1] or a.shape[0] == 0:
            return
        s = np.linalg.svd(a / np.maximum(np.linalg.norm(a, axis=1), 1e-30)[:, None], compute_uv=False)
        n2 = np.linalg.norm(a, axis=1)
        if s[-1] < 1e-3 * s[0] or n2.min() < 1e-5 * n2.max() or n2.min() < 1e-8:
            return
    bg = [float(r.randint(1, 5)) if typ == "vary" else 0.0 for _ in range(nb)]
    spoilt = False

    def images(data):
        out = []
        for i, b in enumerate(W["bands"]):
            im = sum((a * u for n in order(b) for a, u in zip(data[i][n], U[i][n])), np.zeros((b["n"], b["n"]))) + bg[i]
            if spoilt:
                im = np.where(b["mask"], im, r.uniform(-1e3, 1e3, im.shape))
            out.append(im)
        return out

    def split(p):
        """amplitude vector per used band, from what the solver returns"""
        if one is not None:
            return {one: p}
        if shared:
            return {i: p for i in used}
        require(len(p) == nb and all((p[i] is None) == (i not in used) for i in range(nb)), "a solution per computed band", got=str(p)[:200], **where)
        return {i: p[i] for i in used}

    def oracle(o, out, data, inv):
        """weighted least squares with the unit images"""
        mod, err, cov, par = out
        got = split(par)
        lst = lambda x: {one: x} if one is not None else {i: (x[i] if len(x) == nb else x[used.index(i)]) for i in used}
        mods, errs = lst(mod), lst(err)
        Wt = {i: 1 / (W["bands"][i]["noise"] ** 2 + errs[i] * np.ones((W["bands"][i]["n"],) * 2))[W["bands"][i]["mask"]] for i in used}
        groups = [used] if shared else [[i] for i in used]
        logL = 0.0
        marg = 0.0
        for g in groups:
            rows = np.concatenate([mat[i] for i in g], axis=1)
            if typ == "vary":
                rows = np.concatenate([rows, np.concatenate([np.array([[1.0 if k == i else 0.0] * mat[i].shape[1] for k in range(nb)]) for i in g], axis=1)])
            w = np.concatenate([Wt[i] for i in g])
            d = np.concatenate([data[i][W["bands"][i]["mask"]] for i in g])
            M = (rows * w) @ rows.T
            p = np.linalg.solve(M, (rows * w) @ d)
            for i in g:
                require(np.allclose(got[i], p, 1e-5 * K, 1e-5 * K * np.abs(p).max()), "amplitudes are the weighted least squares solution", band=i, got=flat(got[i]), want=p.tolist(), **where)
                m = (mat[i].T @ p[:mat[i].shape[0]]) + (p[mat[i].shape[0] + i] if typ == "vary" else 0)
                acc = 1e-6 * K
                require(np.allclose(mods[i][W["bands"][i]["mask"]], m, acc, acc * np.abs(m).max()), "the model is that of the solution", band=i, dev=float(np.abs(mods[i][W["bands"][i]["mask"]]-m).max()), mx=float(np.abs(m).max()), **where)
                logL += -0.5 * np.sum((data[i][W["bands"][i]["mask"]] - m) ** 2 * Wt[i])
            C = np.linalg.inv(M)
            marg += 0.5 * np.linalg.slogdet(C)[1]
            if inv:
                cc = cov if one is not None or shared else cov[g[0]]
                require(cc is not None and np.allclose(cc, C, 1e-5 * K + 1e-4, 1e-5 * K * np.abs(C).max()), "covariance of the amplitudes", **where)
        return logL, marg

    data = None
    obj = {}

    def fresh(imgs):
        return make(W, imgs, typ, comp, c["index"] or nb > 1)

    hist = c["hist"]
    now = hist[0]["data"] if hist else None
    imgs = None
    o = None
    prev = {n: ([1.5] * len(v) if n in sum((order(b) for b in W["bands"]), []) else v) for n, v in hist[0]["kw"].items()} if hist else None
    for st, h in enumerate(hist):
        where["step"] = (st, h["op"])
        if o is None or h["op"] in ("observe", "spoil"):
            spoilt = h["op"] == "spoil" or (spoilt and h["op"] != "observe")
            imgs = images(h["data"])
            if o is not None and typ == "image" and r.randint(2):
                from lenstronomy.Data.imaging_data import ImageData
                o.update_data(ImageData(**kwargs_data(W["bands"][0], imgs[0])))
            else:
                o = fresh(imgs)
        uk = user_kwargs(W, h["kw"] if h["op"] != "update" and h["op"] != "write" else prev)
        if h["op"] in ("solve", "spoil", "observe"):
            inv = bool(r.randint(2))
            k1 = copy.deepcopy(uk)
            out = o.image_linear_solve(inv_bool=inv, **k1)
            got = split(out[3])
            want = {i: np.array(sum((list(h["data"][i][n]) for n in order(W["bands"][i])), []), float) for i in used}
            for i in used:
                w = np.concatenate([want[i], bg]) if typ == "vary" else want[i]
                require(len(got[i]) == len(w), "one amplitude per basis function", band=i, got=len(got[i]), want=len(w), **where)
                require(np.allclose(got[i], w, 1e-5 * K, 1e-5 * K), "the amplitudes of the data are found", band=i, got=flat(got[i]), want=w.tolist(), **where)
            oracle(o, out, imgs, inv)
            n = o.num_param_linear(**four(uk))
            w = sum(len(want[i]) for i in used) if not shared else len(want[used[0]])
            if typ != "vary":
                require(n == w, "number of amplitudes", got=int(n), want=w, **where)
            nd = sum(int(W["bands"][i]["mask"].sum()) for i in used)
            require(o.num_data_evaluate == nd, "number of data points", got=o.num_data_evaluate, want=nd, **where)
            L, par = o.likelihood_data_given_model(**copy.deepcopy(uk))
            require(abs(L) < 1e-3 * K, "data that are the model have no misfit", got=float(L), **where)
            # with noise
            nimg = [im + r.normal(size=im.shape) * b["noise"] for im, b in zip(imgs, W["bands"])]
            on = fresh(nimg)
            out2 = on.image_linear_solve(inv_bool=True, **copy.deepcopy(uk))
            L0, marg = oracle(on, out2, nimg, True)
            L, par = on.likelihood_data_given_model(**copy.deepcopy(uk))
            require(close(float(L), L0, 1e-5 * K, 1e-4 * K), "likelihood of the best fit", got=float(L), want=L0, **where)
            L, par = on.likelihood_data_given_model(source_marg=True, **copy.deepcopy(uk))
            require(close(float(L), L0 + marg, 1e-5 * K, 1e-3 * K), "likelihood marginalised over the amplitudes", got=float(L), want=L0 + marg, **where)
            if typ in ("image",) and W["by"]["S"] and not any(W["comps"][k]["t"] == "UNIFORM" for k in range(len(W["comps"]))):
                xs, ys = r.uniform(-0.3, 0.3, (2, 5))
                ns = sum(cmap[n]["n"] for n in W["by"]["S"])
                from lenstronomy.LightModel.light_model import LightModel
                F = []
                for n in W["by"]["S"]:
                    for k in range(cmap[n]["n"]):
                        e = np.zeros(cmap[n]["n"])
                        e[k] = 1
                        F.append(LightModel([cmap[n]["t"]], profile_kwargs_list=[INIT.get(cmap[n]["t"], {})]).surface_brightness(xs, ys, [kw_amp(cmap[n], e)]))
                F = np.array(F)
                want_e = np.einsum("ki,kl,li->i", F, out2[2][:ns, :ns], F)
                got_e = on.error_map_source(user_kwargs(W, h["kw"])["kwargs_source"], xs.copy(), ys.copy(), out2[2])
                require(np.allclose(got_e, want_e, 1e-5, 1e-9 * np.abs(want_e).max()), "variance of the source follows from the covariance", got=flat(got_e), want=want_e.tolist(), **where)
        elif h["op"] in ("update", "write"):
            i = h["b"] - 1
            if one is not None and i != one:
                prev = h["kw"]
                continue
            vec = [np.array(v, float) for v in h["sol"]] if h["op"] == "update" else [np.array(h["v"], float)] * nb
            if one is not None:
                res = o.update_linear_kwargs(vec[i], **four(uk))
            else:
                res = o.update_linear_kwargs(vec[i] if shared else vec, model_band=i, **four(uk))
            for g, j in (("S", 1), ("L", 2), ("P", 3)):
                for k, n in enumerate(W["bands"][i]["sel"][g]):
                    got = amps_of(cmap[n], res[j][k])
                    require(np.allclose(got, h["kw"][n], 1e-12, 1e-12), "amplitudes go to their component", comp=n, got=got.tolist(), want=h["kw"][n], **where)
        elif h["op"] == "render":
            i = h["b"] - 1
            if one is not None and i != one:
                prev = h["kw"]
                continue
            from lenstronomy.Util.class_creator import create_im_sim
            b = W["bands"][i]
            if typ == "image":
                ob = o
            else:
                mbl = [[kwargs_data(bb, im), copy.deepcopy(bb["psf"]), dict(bb["num"])] for bb, im in zip(W["bands"], imgs)]
                ob = create_im_sim(mbl, "single-band", model_kwargs(W, c["index"] or nb > 1), image_likelihood_mask_list=[bb["mask"] for bb in W["bands"]], band_index=i)
            keep = copy.deepcopy(uk)
            want = {g: sum((a * u for n in b["sel"][g] for a, u in zip(h["kw"][n], U[i][n])), np.zeros((b["n"], b["n"]))) for g in "SLP"}
            tot = sum(want.values())
            acc = 1e-7 * K
            tol = dict(rtol=acc, atol=acc * max(1e-3, np.abs(tot).max()))
            require(np.allclose(ob.image(**uk), tot, **tol), "the image is linear in the amplitudes", band=i, dev=float(np.abs(ob.image(**uk)-tot).max()), mx=float(np.abs(tot).max()), **where)
            flags = [bool(r.randint(2)) for _ in range(3)]
            require(np.allclose(ob.image(source_add=flags[0], lens_light_add=flags[1], point_source_add=flags[2], **uk), sum(f * want[g] for f, g in zip(flags, "SLP")), **tol),
                    "parts of the image can be left out", flags=flags, band=i, **where)
            require(same(flat(uk), flat(keep), 0, 0), "parameters handed in are not altered", **where)
            Am = ob.linear_response_matrix(**uk)
            require(np.shape(Am) == mat[i].shape and np.allclose(Am, mat[i], 1e-7 * K, 1e-7 * K * np.abs(mat[i]).max()), "response of every amplitude", band=i, got=np.shape(Am), want=mat[i].shape, **where)
            v = np.array(ob.linear_param_from_kwargs(uk["kwargs_source"], uk["kwargs_lens_light"], uk["kwargs_ps"]), float)
            require(np.array_equal(v, np.array(h["v"], float)), "amplitudes are read in the order of the vector", got=v.tolist(), want=h["v"], band=i, **where)
        prev = h["kw"]


CASES = dict(linear=linear_case)


def main(pid):
    import lenstronomy.Util.class_creator, lenstronomy.ImSim.MultiBand.joint_linear_vary_background  # noqa
    ck = Check(pid)
    rng = ck.rng
    T = THOROUGH
    confs = []
    if pid == "C09":
        for g in "SL":
            for t in sorted(FREE):
                if g == "S" and not T and rng.random() < 0.5:
                    continue
                other = [("L" if g == "S" else "S", "GAUSSIAN")]
                ty = sorted([(g, t)] + other, key=lambda x: "SLP".index(x[0])) + ([("P", rng.choice(["UNLENSED", "LENSED_FIX"]))] if rng.random() < 0.4 else [])
                confs.append((dict(n_bands=1, types=ty), "image", [1]))
        for _ in range(200 if T else 30):
            confs.append((dict(n_bands=1), "image", [1]))
    else:
        for _ in range(250 if T else 56):
            n = rng.choice([2, 2, 3])
            typ = rng.choice(["multi", "multi", "joint", "joint", "single", "vary"])
            comp = sorted(rng.sample(range(1, n + 1), rng.randint(1, n))) if typ in ("multi", "joint") else list(range(1, n + 1))
            if typ == "single":
                typ = "single%d" % rng.randint(1, n)
            confs.append((dict(n_bands=n, ident=typ in ("joint", "vary")), typ, comp))
    jobs = []
    ws = []
    for w, typ, comp in confs:
        w = dict(w, seed=rng.randrange(10 ** 6))
        W = world(**w)
        ws.append((w, typ, comp))
        sel = {i + 1: order(b) for i, b in enumerate(W["bands"])}
        nm = [c["name"] for c in W["comps"]]
        d = 8
        jobs.append(("LinearBands", dict(Bands=set(range(1, len(W["bands"]) + 1)), Comps=set(nm), NB=Raw(fn_tla({c["name"]: c["n"] for c in W["comps"]})),
                                         Sel=Raw(fn_tla({k: v for k, v in sel.items()})), Joint=typ in ("joint", "vary"), Compute=set(comp), Depth=d),
                     dict(invariants=["Lengths", "ReadBack", "Shared", "Emit"]), dict(sim=dict(num=4 if T else 2, depth=d + 1, seed=rng.randrange(10 ** 6)))))
    cases = []
    for (w, typ, comp), res in zip(ws, ck.mc_all(jobs, nproc=8)):
        for rec in behaviours(res.records):
            cases.append(dict(world=w, typ=typ, compute=comp, hist=rec["hist"], seed=rng.randrange(10 ** 6), index=rng.random() < 0.5 or pid == "C10"))
    rng.shuffle(cases)
    ck.run_cases(linear_case, cases, "linear")
    ck.assumptions = ["well-posed combinations of components (condition number of the normalised responses below 1000)", "bands whose amplitudes are shared see the same components (as documented)"]
    return ck.finish()
