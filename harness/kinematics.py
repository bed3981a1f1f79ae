"""C23: stellar kinematics (specs/Kinematics.tla): histories of queries on one instance, the Jeans equation against quadrature, the analysis API with selected components."""
import copy, warnings
import numpy as np
from common import *

warnings.filterwarnings("ignore")
COSMO = [dict(d_d=1000., d_s=1500., d_ds=800.), dict(d_d=1300., d_s=1700., d_ds=900.)]
C = 299792458.
ARC = 2 * np.pi / 360 / 3600


# ------------------------------------------------------------ sessions

MASS = {
    "num": [["SPP", "HERNQUIST"], [dict(theta_E=1.2, gamma=2.), dict(sigma0=.3, Rs=1.1)], [dict(theta_E=.9, gamma=2.15), dict(sigma0=.5, Rs=.7)], [dict(theta_E=1.2, gamma=1.9), dict(sigma0=.3, Rs=1.1)]],
    "ana": [None, dict(theta_E=1.2, gamma=2.), dict(theta_E=1.6, gamma=2.), dict(theta_E=1.2, gamma=1.85)],
}
LIGHT = {
    "num": [["HERNQUIST_ELLIPSE", "GAUSSIAN"], [dict(amp=1., Rs=.8, e1=.1, e2=-.05, center_x=.02, center_y=-.1), dict(amp=.5, sigma=.6)],
            [dict(amp=2., Rs=1.5, e1=.1, e2=-.05, center_x=.02, center_y=-.1), dict(amp=.2, sigma=.6)], [dict(amp=1., Rs=.3, e1=0., e2=.2, center_x=0., center_y=0.), dict(amp=.5, sigma=1.4)]],
    "ana": [None, dict(r_eff=1.1), dict(r_eff=2.2), dict(r_eff=.5)],
}
ANI = {
    "OM": [dict(r_ani=1.), dict(r_ani=.4), dict(r_ani=5.)],
    "GOM": [dict(r_ani=1., beta_inf=.6), dict(r_ani=1., beta_inf=-.4), dict(r_ani=3., beta_inf=.6)],
    "const": [dict(beta=.3), dict(beta=-.35), dict(beta=.1)],
    "Colin": [dict(r_ani=1.), dict(r_ani=.4), dict(r_ani=5.)],
    "isotropic": [{}, {}, {}],
    "radial": [{}, {}, {}],
}


def grid_aperture(nx=4, ny=3, d=.5, c=(0., 0.)):
    x, y = np.meshgrid((np.arange(nx) - (nx - 1) / 2) * d + c[0], (np.arange(ny) - (ny - 1) / 2) * d + c[1])
    return dict(aperture_type="IFU_grid", x_grid=x, y_grid=y)


APERTURE = dict(slit=dict(aperture_type="slit", length=1.2, width=.8, center_ra=.1, center_dec=-.05, angle=.3), grid=grid_aperture(),
                shells=dict(aperture_type="IFU_shells", r_bins=np.array([0., .4, 1., 1.7]), center_ra=0., center_dec=0.))
PSFS = [dict(psf_type="GAUSSIAN", fwhm=.6), dict(psf_type="MOFFAT", fwhm=.7, moffat_beta=2.6)]
NUMERICS = dict(interpol_grid_num=70, log_integration=True, max_integrate=60, min_integrate=1e-3)


def session_case(c):
    """the answer of an instance with a history is that of a fresh instance"""
    from lenstronomy.GalKin.galkin import Galkin
    from lenstronomy.GalKin.galkin_shells import GalkinShells
    from lenstronomy.GalKin.galkin_multiobservation import GalkinMultiObservation
    r = np.random.RandomState(c["seed"])
    typ, ani = c["type"], c["ani"]
    solver = "ana" if typ == "ana" else "num"
    three = typ in ("num3d",)
    num = dict(NUMERICS, lum_weight_int_method=not three) if solver == "num" else dict(NUMERICS)
    model = dict(mass_profile_list=MASS["num"][0], light_profile_list=LIGHT["num"][0], anisotropy_model=ani) if solver == "num" else dict(anisotropy_model="OM")
    ap = {"num": "grid", "num3d": "grid", "ana": "grid", "shells": "shells", "slit": "slit", "multi": None}[typ]

    def fresh(i):
        cos = COSMO[i % len(COSMO)]
        if typ == "multi":
            return GalkinMultiObservation(kwargs_model=dict(model), kwargs_aperture_list=[copy.deepcopy(APERTURE["slit"]), dict(aperture_type="shell", r_in=.2, r_out=1.1, center_ra=0., center_dec=0.)],
                                          kwargs_psf_list=[dict(p) for p in PSFS], kwargs_cosmo=dict(cos), kwargs_numerics=dict(num))
        cls = GalkinShells if typ == "shells" else Galkin
        return cls(kwargs_model=dict(model), kwargs_aperture=copy.deepcopy(APERTURE[ap]), kwargs_psf=dict(PSFS[i % 2]), kwargs_cosmo=dict(cos), kwargs_numerics=dict(num), analytic_kinematics=solver == "ana")

    def ask(g, q, m, l, a):
        k = q["kind"]
        np.random.seed(q["seed"])
        if k == "df" and solver == "num" and ani in ("const", "Colin"):
            k = "slit"
        if typ == "multi":
            return g.dispersion_map(m, l, a, num_kin_sampling=12, num_psf_sampling=6)
        if typ == "shells":
            return g.dispersion_map(m, l, a) if k in ("map", "grid") else g.dispersion(m, l, a, sampling_number=8)
        if k == "grid" and typ in ("num", "ana"):
            return g.dispersion_map_grid_convolved(m, l, a, supersampling_factor=2)
        if k == "map" and typ != "slit":
            return g.dispersion_map(m, l, a, num_kin_sampling=15, num_psf_sampling=8)
        if k == "df":
            return g.check_df(np.array([.4, 1.1]) if typ != "ana" else .7, m, l, a)
        if k == "points" and solver == "num":
            n = g.numerics
            n.delete_cache()
            out = list(np.ravel(n.sigma_s2(.9, .6, m, l, a)[0])) + [n.lum_weighted_vel_disp(.8, m, l, a)] + list(np.ravel(n.draw_light(l)))
            out += list(n.lightProfile.draw_light_2d(l, n=3)) + list(n.lightProfile.draw_light_2d_linear(l, n=3)) + list(n.lightProfile.light_3d_interp(np.array([.3, 2.]), l)) + [float(np.ravel(n._mass_3d_interp(.7, m))[0])]
            n.delete_cache()
            return np.array(out, float)
        return g.dispersion(m, l, a, sampling_number=10)

    inst = {}
    own = {x: {p: copy.deepcopy(v[p]) for p in (1, 2, 3)} for x, v in (("m", MASS[solver]), ("l", LIGHT[solver]))}     # the user's own arguments, handed over again and again
    shared = {}
    for step, h in enumerate(c["hist"]):
        q = dict(h, seed=int(r.randint(10 ** 6)))
        i = q["inst"]
        if i not in inst:
            inst[i] = fresh(i)
        m, l, a = copy.deepcopy(MASS[solver][q["m"]]), copy.deepcopy(LIGHT[solver][q["l"]]), dict(ANI[ani][q["a"] - 1])
        if solver == "ana":          # one dictionary, changed between the queries
            shared.update(m)
            m = shared
        m0, l0, a0 = copy.deepcopy(m), copy.deepcopy(l), dict(a)
        got = np.asarray(ask(inst[i], q, m, l, a), float)
        d = dict(query=q, step=step, type=typ, anisotropy=ani)
        require(canon(repr(m)) == canon(repr(m0)) and canon(repr(l)) == canon(repr(l0)) and a == a0, "arguments of a query are left alone", before=[repr(m0)[:300], repr(l0)[:300]], after=[repr(m)[:300], repr(l)[:300]], **d)
        exp = np.asarray(ask(fresh(i), q, copy.deepcopy(MASS[solver][q["m"]]), copy.deepcopy(LIGHT[solver][q["l"]]), dict(ANI[ani][q["a"] - 1])), float)
        require(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-7, atol=1e-9, equal_nan=True), "answer is that of a fresh instance", got=got.ravel()[:5].tolist(), expected=exp.ravel()[:5].tolist(), **d)
        if solver == "num" and step == len(c["hist"]) - 1 and q["kind"] not in ("points", "df"):
            # twice as bright, the same dispersion; ds / dds times k: sqrt(k); dd: nothing
            l2 = copy.deepcopy(l0)
            for k in l2:
                k["amp"] = k["amp"] * 3.
            got = np.asarray(ask(fresh(i), q, copy.deepcopy(m0), l2, dict(a0)), float)
            require(np.allclose(got, exp, rtol=1e-6, equal_nan=True), "dispersion does not depend on the brightness", got=got.ravel()[:5].tolist(), expected=exp.ravel()[:5].tolist(), **d)


# -------------------------------------------------------------- Jeans equation

def panels(a, b, n, k=16):
    x, w = np.polynomial.legendre.leggauss(k)
    e = np.linspace(a, b, n + 1)
    h = np.diff(e) / 2
    return ((e[:-1] + e[1:])[:, None] / 2 + h[:, None] * x).ravel(), (h[:, None] * w).ravel()


def beta(ani, r, a):
    """anisotropy profiles by their definition"""
    if ani == "const":
        return a["beta"] + 0. * r
    if ani == "isotropic":
        return 0. * r
    if ani == "radial":
        return 1. + 0. * r
    if ani == "OM":
        return r ** 2 / (r ** 2 + a["r_ani"] ** 2)
    if ani == "GOM":
        return a["beta_inf"] * r ** 2 / (r ** 2 + a["r_ani"] ** 2)
    if ani == "Colin":
        return .5 * r / (r + a["r_ani"])
    return a["beta_0"] + (a["beta_inf"] - a["beta_0"]) / (1 + (a["r_ani"] / r) ** a["alpha"])


class Jeans:
    """spherical Jeans equation by quadrature; everything in arc seconds, lensing masses"""

    def __init__(self, m3, l3, ani, a, rmax):
        self.u, w = panels(np.log(1e-5), np.log(rmax), 300, 8)
        r = self.r = np.exp(self.u)
        b = beta(ani, r, a)
        lnf = np.concatenate([[0.], np.cumsum((b[1:] + b[:-1]) * np.diff(self.u))])      # d ln f = 2 beta d ln r
        lnf -= lnf[len(r) // 2]
        f = np.exp(np.clip(lnf, -600, 600))
        g = f * l3(r) * m3(r) / r          # x dr / r
        tail = np.concatenate([np.cumsum((g * w)[::-1])[::-1], [0.]])
        # midpoint between the two one-sided sums
        J = (tail[:-1] + tail[1:]) / 2
        self.s2 = J / f / l3(r)
        self.l3, self.ani, self.a, self.rmax = l3, ani, a, rmax

    def sigma_r2(self, r):
        return np.exp(np.interp(np.log(r), self.u, np.log(np.maximum(self.s2, 1e-300))))

    def los(self, R):
        t, w = panels(0., np.arccosh(self.rmax / R * .999), 60)
        r = R * np.cosh(t)
        l = self.l3(r)
        b = beta(self.ani, r, self.a)
        return float(np.sum(w * r * l * self.sigma_r2(r) * (1 - b * R ** 2 / r ** 2)) / np.sum(w * r * l))


def jeans_case(c):
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    from lenstronomy.GalKin.analytic_kinematics import AnalyticKinematics
    from lenstronomy.LensModel.single_plane import SinglePlane
    from lenstronomy.LightModel.light_model import LightModel
    r = np.random.RandomState(c["seed"])
    ani, cos = c["ani"], dict(d_d=float(r.uniform(500, 1600)), d_s=float(r.uniform(1200, 1800)), d_ds=float(r.uniform(500, 1200)))
    u = lambda lo, hi: float(r.uniform(lo, hi))
    pick = {"SPP": lambda: dict(theta_E=u(.7, 1.6), gamma=u(1.8, 2.2)), "HERNQUIST": lambda: dict(sigma0=u(.2, .6), Rs=u(.5, 1.5)), "NFW": lambda: dict(Rs=u(4, 8), alpha_Rs=u(.8, 2.)),
            "GAUSSIAN": lambda: dict(amp=u(1., 4.), sigma=u(.5, 2.)), "SIS": lambda: dict(theta_E=u(.7, 1.6))}
    ml, ll = c["mass"], c["light"]
    km = [pick[n]() for n in ml]
    pl = {"HERNQUIST": lambda: dict(amp=u(.5, 2), Rs=u(.4, 1.5)), "HERNQUIST_ELLIPSE": lambda: dict(amp=u(.5, 2), Rs=u(.4, 1.5), e1=u(-.2, .2), e2=u(-.2, .2)), "PJAFFE": lambda: dict(amp=u(.5, 2), Ra=u(.2, .5), Rs=u(.8, 1.5))}
    kl = [pl[n]() for n in ll]
    a = {"OM": lambda: dict(r_ani=u(.3, 4)), "Colin": lambda: dict(r_ani=u(.3, 4)), "GOM": lambda: dict(r_ani=u(.5, 4), beta_inf=u(-.5, .8)), "const": lambda: dict(beta=u(-.4, .45))}.get(ani, dict)()
    rmax = 400.
    num = NumericKinematics(dict(mass_profile_list=ml, light_profile_list=ll, anisotropy_model=ani), cos, interpol_grid_num=700, max_integrate=rmax, min_integrate=1e-3)
    sp, lm = SinglePlane(ml), LightModel(ll)
    J = Jeans(lambda x: np.asarray(sp.mass_3d(x, km), float), lambda x: np.asarray(lm.light_3d(x, kl), float), ani, a, rmax)
    unit = C ** 2 / (4 * np.pi) * cos["d_s"] / cos["d_ds"] * ARC
    for R in (.2 * u(.8, 1.2), .9 * u(.8, 1.2), 2.5 * u(.8, 1.2)):
        d = dict(anisotropy=ani, kwargs_anisotropy=a, mass=ml, light=ll, R=R, kwargs_mass=km, kwargs_light=kl)
        exp = unit * J.los(R)
        x = num._I_R_sigma2(R, km, kl, a)
        got = float(x[0] / x[1])
        tol = .04 if ani in ("GOM", "radial") else .02
        require(abs(got / exp - 1) < tol, "line-of-sight dispersion solves the Jeans equation", got=got, expected=exp, **d)
        y = num.sigma_s2(R * 1.5, R, km, kl, a)
        require(abs(float(y[0]) / float(y[1]) / exp - 1) < 1.5 * tol, "interpolated line-of-sight dispersion", got=float(y[0]), expected=exp, **d)
        if ani not in ("const", "Colin"):
            got, exp = float(num.sigma_r2(R, km, kl, a)), unit * float(J.sigma_r2(R))
            require(abs(got / exp - 1) < .06, "radial dispersion solves the Jeans equation", got=got, expected=exp, **d)
            g2, b = float(num.sigma_s2_r(1.7 * R, R, km, kl, a)), float(beta(ani, np.array(1.7 * R), a))
            require(abs(g2 / ((1 - b / 1.7 ** 2) * float(num.sigma_r2(1.7 * R, km, kl, a))) - 1) < 1e-6, "projection of the radial dispersion", got=g2, **d)
        require(abs(float(num.beta_r(R, **a)) - float(beta(ani, np.array(R), a))) < 1e-9, "anisotropy profile", **d)
    if ani == "OM":
        te, ga, reff = u(.7, 1.6), u(1.75, 2.25), u(.6, 2.)
        an = AnalyticKinematics(cos, interpol_grid_num=300, max_integrate=200, min_integrate=1e-3)
        s1 = SinglePlane(["SPP"])
        l1 = LightModel(["HERNQUIST"])
        k1 = dict(theta_E=te, gamma=ga)
        J = Jeans(lambda x: np.asarray(s1.mass_3d(x, [k1]), float), lambda x: np.asarray(l1.light_3d(x, [dict(amp=1., Rs=.551 * reff)]), float), "OM", a, 3000.)
        for R in (.3, 1.2):
            got = float(an.sigma_r2(R, dict(k1), dict(r_eff=reff), a))
            require(abs(got / unit / float(J.sigma_r2(R)) - 1) < .01, "analytic radial dispersion solves the Jeans equation", got=got, expected=unit * float(J.sigma_r2(R)), theta_E=te, gamma=ga, r_eff=reff, r_ani=a)
            x = an.I_R_sigma2_and_IR(R, dict(k1), dict(r_eff=reff), a)
            require(abs(float(x[0] / x[1]) / unit / J.los(R) - 1) < .03 + .1, "analytic line-of-sight dispersion solves the Jeans equation", got=float(x[0] / x[1]), expected=unit * J.los(R), theta_E=te, gamma=ga, r_eff=reff, r_ani=a)


def gauss_m3(amps, sigs):
    from scipy.special import erf
    a, s = np.atleast_1d(amps).astype(float), np.atleast_1d(sigs).astype(float)

    def m3(r):
        x = np.asarray(r, float)[..., None] / s
        return np.sum(a * (erf(x / 2 ** .5) - (2 / np.pi) ** .5 * x * np.exp(-x ** 2 / 2)), axis=-1)
    return m3


def gauss_l3(amps, sigs):
    a, s = np.atleast_1d(amps).astype(float), np.atleast_1d(sigs).astype(float)
    return lambda r: np.sum(a / (2 * np.pi * s ** 2) ** 1.5 * np.exp(-(np.asarray(r, float)[..., None] / s) ** 2 / 2), axis=-1)


def jam_case(c):
    """the jampy backend: spherical against quadrature; cylindrical and spherical alignment"""
    from lenstronomy.JAMPy.jam_wrapper import JAMWrapper
    from lenstronomy.GalKin.anisotropy import Anisotropy
    r = np.random.RandomState(c["seed"])
    u = lambda lo, hi: float(r.uniform(lo, hi))
    cos = dict(d_d=u(500, 1600), d_s=u(1200, 1800), d_ds=u(500, 1200))
    ani = c["ani"]
    a = {"OM": lambda: dict(r_ani=u(.5, 4)), "Colin": lambda: dict(r_ani=u(.5, 4)), "GOM": lambda: dict(r_ani=u(.5, 4), beta_inf=u(-.4, .7)), "const": lambda: dict(beta=u(-.3, .4)),
         "logistic": lambda: dict(r_ani=u(.5, 3), beta_0=u(-.3, .2), beta_inf=u(-.2, .6), alpha=u(1., 2.))}.get(ani, dict)()
    ms, ls = np.array([.3, 1.1, 3.2]) * u(.8, 1.3), np.array([.25, .8, 2.1]) * u(.8, 1.2)
    ma, la = np.array([.6, 2.5, 5.]) * u(.7, 1.4), np.array([.5, 1., .8])
    cx, cy = (u(-.4, .4), u(-.4, .4)) if c["shift"] else (0., 0.)
    km, kl = [dict(amp=ma, sigma=ms, center_x=cx, center_y=cy)], [dict(amp=la, sigma=ls, center_x=cx, center_y=cy)]
    bh = 10 ** u(8.5, 9.5) if c["bh"] else 0.
    unit = C ** 2 / (4 * np.pi) * cos["d_s"] / cos["d_ds"] * ARC
    GMS, MPC = 1.32712440018e20, 3.0856775814913673e22
    mb = bh * GMS / (ARC ** 2 * cos["d_d"] * MPC * cos["d_s"] / cos["d_ds"] * C ** 2 / (4 * np.pi))
    ap = grid_aperture(3, 3, .55, (cx + .1, cy - .05))
    w = JAMWrapper(dict(mass_profile_list=["MULTI_GAUSSIAN"], light_profile_list=["MULTI_GAUSSIAN"], anisotropy_model=ani), ap, dict(psf_type="GAUSSIAN", fwhm=.5), cos)
    got = np.asarray(w.dispersion(km, kl, a, convolved=False, black_hole_mass=bh), float)
    g3 = gauss_m3(ma, ms)
    J = Jeans(lambda x: g3(x) + mb, gauss_l3(la, ls), "const" if ani == "radial" else ani, dict(beta=.999) if ani == "radial" else a, 25.)
    R = np.hypot(ap["x_grid"] - cx, ap["y_grid"] - cy)
    exp = np.sqrt(unit * np.array([J.los(x) for x in R.ravel()]).reshape(R.shape)) / 1e3
    d = dict(anisotropy=ani, kwargs_anisotropy=a, black_hole=bh, center=[cx, cy])
    require(got.shape == exp.shape and np.all(np.abs(got / exp - 1) < .02), "jampy dispersion solves the Jeans equation", got=got.ravel().tolist(), expected=exp.ravel().tolist(), **d)
    # alignment: beta(r, theta) and its derivative
    A = Anisotropy(ani)
    rr, th = np.array([.2, .7, 2.2]), np.array([.3, 1., 1.4])
    eq = np.minimum(beta(ani, rr, a), .999)
    f = A.jampy_beta(a, symmetry="axi_cyl")
    b0, _ = f(rr, 0. * rr + np.pi / 2)
    require(np.allclose(b0 * np.ones(3), eq, atol=1e-9), "anisotropy in the equatorial plane", got=b0, expected=eq, **d)
    b1, _ = f(rr, 0. * rr)
    require(np.allclose((1 - b1) * (1 - eq), 1., atol=1e-9), "radial and tangential dispersions change places on the axis", got=b1, expected=1 - 1 / (1 - eq), **d)
    hh = 1e-5
    db = (np.asarray(f(rr, th + hh)[0]) - np.asarray(f(rr, th - hh)[0])) / 2 / hh
    require(np.allclose(f(rr, th)[1], db, rtol=1e-4, atol=1e-5), "derivative of the anisotropy with angle", got=f(rr, th)[1], expected=db, **d)
    g = A.jampy_beta(a, symmetry="axi_sph")
    if callable(g):
        b2, d2 = g(rr, th)
        require(np.allclose(b2, eq, atol=1e-9) and np.all(np.asarray(d2) == 0), "anisotropy with spherical alignment", got=b2, expected=eq, **d)
    else:
        require(np.allclose(g, eq, atol=1e-9), "anisotropy with spherical alignment", got=g, expected=eq, **d)
    if c["axi"]:
        # round limit of the axisymmetric solution, and turning the galaxy with the aperture
        em = [dict(k, e1=0., e2=0.) for k in km]
        el = [dict(k, e1=0., e2=0.) for k in kl]
        mk = lambda sym, q: JAMWrapper(dict(mass_profile_list=["MULTI_GAUSSIAN_ELLIPSE_KAPPA"], light_profile_list=["MULTI_GAUSSIAN_ELLIPSE"], anisotropy_model=ani, symmetry=sym), q, dict(psf_type="GAUSSIAN", fwhm=.5), cos)
        if ani == "isotropic" or (ani == "const" and a["beta"] < .2):
            for kk in em + el:
                kk["e1"] = 1e-3
            g = np.asarray(mk("axi_sph", ap).dispersion(em, el, a, convolved=False, black_hole_mass=bh), float)
            require(np.all(np.abs(g / got - 1) < .1), "round limit of an axisymmetric galaxy", got=g.ravel().tolist(), expected=got.ravel().tolist(), **d)
        if ani not in ("const", "isotropic"):
            return          # the spectral method of jampy does not converge where orbits are radial
        phi, e = u(0, np.pi), u(.05, .15)
        out = []
        for t in (0., u(.3, 1.5)):
            kt = [dict(k, e1=e * np.cos(2 * (phi + t)), e2=e * np.sin(2 * (phi + t))) for k in (km + kl)]
            x, y = ap["x_grid"] - cx, ap["y_grid"] - cy
            q = dict(aperture_type="general_aperture", x_cords=(x * np.cos(t) - y * np.sin(t) + cx).ravel(), y_cords=(x * np.sin(t) + y * np.cos(t) + cy).ravel(), bins=np.arange(x.size), delta_pix=.1)
            out.append(np.asarray(mk("axi_cyl", q).dispersion(kt[:1], kt[1:], a, convolved=False), float))
        require(np.allclose(out[0], out[1], rtol=1e-5), "galaxy and aperture turned together", got=out[1].ravel().tolist(), expected=out[0].ravel().tolist(), **d)


# ------------------------------------------------------------------ API

def api_case(c):
    """KinematicsAPI: selected components, centres, several observations, settings; histories on one instance"""
    from lenstronomy.Analysis.kinematics_api import KinematicsAPI
    r = np.random.RandomState(c["seed"])
    u = lambda lo, hi: float(r.uniform(lo, hi))
    fl = c["flags"]
    jam, multi, ml = c["jam"], bool(fl & 1), bool(fl & 2) and bool(fl & 1)
    lens, light = ["SIE", "SPP", "SHEAR", "HERNQUIST"], ["HERNQUIST", "HERNQUIST_ELLIPSE", "GAUSSIAN"]
    if jam:
        light = ["SERSIC", "HERNQUIST_ELLIPSE", "SERSIC_ELLIPSE"]
    sel = [i + 1 in c["mass"] and n != "SHEAR" for i, n in enumerate(lens)]
    if not any(sel):
        sel[0] = True
    lsel = [i + 1 in c["light"] for i in range(len(light))]
    if not any(lsel):
        lsel[-1] = True
    cen = (u(-.4, .4), u(-.4, .4))
    oth = (u(-.4, .4), u(-.4, .4))
    C0 = lambda on: dict(center_x=(cen if on else oth)[0], center_y=(cen if on else oth)[1])

    def lens_kw(p):
        k = [dict(theta_E=1. + .2 * p, e1=.1, e2=-.05), dict(theta_E=.6 + .1 * p, gamma=2.05), dict(gamma1=.03, gamma2=.02), dict(sigma0=.4 + .1 * p, Rs=.9)]
        return [dict(x, **(C0(s) if n != "SHEAR" else {})) for n, x, s in zip(lens, k, sel)]

    def light_kw(p):
        if jam:
            k = [dict(amp=1., R_sersic=.7 + .2 * p, n_sersic=2.), dict(amp=1.5, Rs=.6 + .2 * p, e1=.05, e2=.02), dict(amp=.8, R_sersic=1.1, n_sersic=1. + .3 * p, e1=.1, e2=0.)]
        else:
            k = [dict(amp=1., Rs=.6 + .2 * p), dict(amp=1.5, Rs=1.1, e1=.05 * p, e2=.02), dict(amp=.8, sigma=.5 + .3 * p)]
        return [dict(x, **C0(s)) for x, s in zip(k, lsel)]
    only = lambda xs, ss: [x for x, s in zip(xs, ss) if s]
    aps = [grid_aperture(3, 3, .6, cen), grid_aperture(2, 3, .5, (cen[0] + .2, cen[1]))]
    psf = [dict(psf_type="GAUSSIAN", fwhm=.6), dict(psf_type="GAUSSIAN", fwhm=.9)]
    mgem, mgel = dict(n_comp=8, n_radial_points=60), dict(n_comp=9, n_radial_points=70)

    def api(ln, li, s, ls, aps=aps, many=multi, **kw):
        return KinematicsAPI(.5, 1.5, dict(lens_model_list=ln, lens_light_model_list=li), aps if many else aps[0], psf if many else psf[0], kw.pop("anisotropy", "OM"), lens_model_kinematics_bool=s, light_model_kinematics_bool=ls,
                             multi_observations=many, multi_light_profile=kw.pop("ml", ml), kinematics_backend="jampy" if jam else "galkin", kwargs_numerics_galkin=dict(NUMERICS), kwargs_mge_light=dict(mgel), kwargs_mge_mass=dict(mgem), **kw)

    A = api(lens, light, sel, lsel)
    setting = "OM"
    for step, h in enumerate(c["hist"]):
        kl = lens_kw(h["m"])
        kk = [light_kw(h["l"]), light_kw(h["l"] % 3 + 1)] if ml else light_kw(h["l"])
        a = [dict(r_ani=1.), dict(r_ani=.5), dict(r_ani=3.)][h["a"] - 1]
        kap = .1 * (h["a"] - 1)
        te, re = 1.1 + .1 * h["m"], .9
        d = dict(step=step, hist=h, selected=only(lens, sel), light=only(light, lsel), multi=multi, several_lights=ml, jampy=jam)
        if h["kind"] == "settings":
            setting = ["OM", "Colin", "OM"][h["a"] - 1]
            if jam:
                A.kinematics_modeling_settings(setting, MGE_light=True, MGE_mass=True, kwargs_mge_light=dict(mgel), kwargs_mge_mass=dict(mgem))
            else:
                A.kinematics_modeling_settings(setting, kwargs_numerics_galkin=dict(NUMERICS), Hernquist_approx=h["m"] == 2)
                if h["m"] == 2:
                    A.velocity_dispersion_map(kl, kk, a, r_eff=re, theta_E=te)
                    A.kinematics_modeling_settings(setting, kwargs_numerics_galkin=dict(NUMERICS), Hernquist_approx=False)
            continue
        k0 = copy.deepcopy([kl, kk])
        got = np.asarray(A.velocity_dispersion_map(kl, kk, a, r_eff=re, theta_E=te, kappa_ext=kap), float)
        require(repr(k0) == repr([kl, kk]), "arguments are left alone", before=repr(k0)[:500], after=repr([kl, kk])[:500], **d)
        li = [only(x, lsel) for x in kk] if ml else only(kk, lsel)
        B = api(only(lens, sel), only(light, lsel), None, None, anisotropy=setting)
        exp = np.asarray(B.velocity_dispersion_map(only(kl, sel), li, a, r_eff=re, theta_E=te), float)
        require(got.shape == exp.shape and np.allclose(got, exp * np.sqrt(1 - kap), rtol=1e-6), "only the selected components count", got=got.ravel()[:6].tolist(), expected=(exp * np.sqrt(1 - kap)).ravel()[:6].tolist(), **d)
        if multi:
            parts = []
            for i in range(2):
                Bi = api(only(lens, sel), only(light, lsel), None, None, aps=[aps[i]], many=False, ml=False, anisotropy=setting)
                Bi._kwargs_psf_kin = [psf[i]]
                parts.append(np.ravel(Bi.velocity_dispersion_map(only(kl, sel), li[i] if ml else li, a, r_eff=re, theta_E=te)))
            require(np.allclose(np.concatenate(parts), exp, rtol=1e-6), "several observations are observed one by one", got=exp.ravel()[:12].tolist(), expected=np.concatenate(parts)[:12].tolist(), **d)
        # moved together
        mv = lambda ks: [dict(k, center_x=k["center_x"] + .7, center_y=k["center_y"] - .3) if "center_x" in k else dict(k) for k in ks]
        ap2 = [dict(q, x_grid=q["x_grid"] + .7, y_grid=q["y_grid"] - .3) for q in aps]
        D = api(lens, light, sel, lsel, aps=ap2, anisotropy=setting)
        mvd = np.asarray(D.velocity_dispersion_map(mv(kl), [mv(x) for x in kk] if ml else mv(kk), a, r_eff=re, theta_E=te), float)
        require(np.allclose(mvd, exp, rtol=2e-3), "galaxy and aperture moved together", got=mvd.ravel()[:6].tolist(), expected=exp.ravel()[:6].tolist(), **d)
        if jam:
            _, p, q = A.jam_model_settings(kl, kk, r_eff=re, theta_E=te)
            q = q[0] if ml else q
            require(len(p[0]["sigma"]) <= 8 and len(q[0]["sigma"]) <= 9, "settings of the multi-Gaussian expansions", n_mass=len(p[0]["sigma"]), n_light=len(q[0]["sigma"]), **d)


CASES = {"session": session_case, "jeans": jeans_case, "jam": jam_case, "api": api_case}


def main(pid):
    import lenstronomy.Analysis.kinematics_api, lenstronomy.GalKin.galkin_multiobservation, lenstronomy.JAMPy.jam_wrapper  # noqa
    ck = Check(pid)
    F = 5 if THOROUGH else 1
    one = dict(Kinds={"slit"}, NM=1, NL=1, NA=1, Insts=1, L=0)
    stat = ["Additive", "Outward", "More", "Parted", "Amplitude"]
    jobs = [("Kinematics", dict(one, N=3, Vals=Raw("{0, 1, 2}") if THOROUGH else Raw("{0, 1}"), Comps=2), dict(spec="Spec", invariants=stat), dict(workers=2)),
            ("Kinematics", dict(N=1, Vals=Raw("{1}"), Comps=1, Kinds={"slit", "slit3d", "map", "map3d", "grid", "df", "points"}, NM=2, NL=2, NA=2, Insts=2 if THOROUGH else 1, L=3 if THOROUGH else 2),
             dict(spec="Spec", invariants=["Own", "Forgotten"]), dict(workers=2))]
    gen = dict(N=1, Vals=Raw("{1}"), NM=3, NL=3, NA=3)
    S = lambda n: dict(sim=dict(num=n * F, depth=8), workers=1)
    jobs += [("Kinematics", dict(gen, Comps=1, Insts=2, Kinds={"slit", "map", "grid", "df", "points"}, L=5), dict(spec="RSpec", invariants=["Emit"]), S(110)),
             ("Kinematics", dict(gen, Comps=4, Insts=1, Kinds={"ask", "settings"}, L=3), dict(spec="SSpec", invariants=["Emit"]), S(60))]
    runs = ck.mc_all(jobs, 4)
    r = ck.rng
    cases = []
    types = ["num", "num3d", "ana", "shells", "slit", "multi"]
    for j, rec in enumerate(runs[2].records):
        t = types[j % len(types)]
        an = "OM" if t == "ana" else r.choice(["OM", "GOM", "isotropic"] if t == "num3d" else ["OM", "GOM", "const", "Colin", "isotropic"])
        cases.append(dict(hist=rec["hist"], type=t, ani=an, seed=r.randrange(10 ** 6)))
    ck.run_cases(session_case, cases, "session", chunk=1)
    cases = []
    for j in range(48 * F):
        cases.append(dict(ani=["OM", "GOM", "const", "Colin", "isotropic", "radial"][j % 6], mass=r.sample(["SPP", "HERNQUIST", "NFW", "GAUSSIAN", "SIS"], r.randrange(1, 3)), light=r.sample(["HERNQUIST", "HERNQUIST_ELLIPSE", "PJAFFE"], r.randrange(1, 3)), seed=r.randrange(10 ** 6)))
    ck.run_cases(jeans_case, cases, "jeans", chunk=1)
    cases = []
    for j in range(56 * F):
        cases.append(dict(ani=["OM", "const", "Colin", "isotropic", "logistic", "GOM", "const"][j % 7], shift=bool(r.randrange(2)), bh=r.randrange(3) == 0, axi=j % 3 == 0, seed=r.randrange(10 ** 6)))
    ck.run_cases(jam_case, cases, "jam", chunk=1)
    cases = [dict(hist=rec["hist"], mass=rec["mass"], light=rec["light"], flags=rec["flags"], jam=j % 3 == 2, seed=r.randrange(10 ** 6)) for j, rec in enumerate(runs[3].records)]
    ck.run_cases(api_case, cases, "api", chunk=1)
    ck.assumptions += ["random draws with the same seed are compared between instances; dispersions against quadrature within 2-4 percent, within 2 percent for jampy"]
    return ck.finish()
