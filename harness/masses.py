"""C22: density, projected density, enclosed mass, deflection and flux of a profile belong together (Mass.tla)."""
import inspect
import numpy as np
from common import *
from catalog import lens_params, light_params, lens_init, light_init

# profiles with a spherical density in the lens normalisation
FULL = ["NFW", "SIS", "SIE", "SPP", "GAUSSIAN", "HERNQUIST", "HERNQUIST_ELLIPSE_POTENTIAL", "SPL_CORE"]      # also mass_2d_lens
DENS = FULL + ["CHAMELEON", "CNFW", "CNFW_ELLIPSE_POTENTIAL", "CORED_DENSITY", "CORED_DENSITY_2", "CORED_DENSITY_EXP", "DOUBLE_CHAMELEON", "EPL",
               "EPL_Q_PHI", "GNFW", "HERNQUIST_ELLIPSE_CSE", "NFW_ELLIPSE_POTENTIAL", "NIE", "PJAFFE", "PSEUDO_DPL", "SPEP", "TNFWC", "TRIPLE_CHAMELEON", "ULDM"]
MASS3 = ["BPL", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL", "GAUSSIAN_ELLIPSE_POTENTIAL", "NFW_ELLIPSE_CSE", "PJAFFE_ELLIPSE_POTENTIAL", "POINT_MASS", "POINT_MASS_LOG_SCALED"]   # mass_3d_lens, no density_lens
PHYS = ["CNFW", "coreBURKERT", "CORED_DENSITY", "CORED_DENSITY_2", "CORED_DENSITY_EXP", "GAUSSIAN", "GAUSSIAN_ELLIPSE_POTENTIAL", "GNFW", "HERNQUIST", "HERNQUIST_ELLIPSE_POTENTIAL",
        "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL", "NFW", "PJAFFE", "PSEUDO_DPL", "SIE", "SIS", "SPL_CORE", "SPP", "TNFW", "TNFWC", "ULDM"]
L3D = ["CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "HERNQUIST", "HERNQUIST_ELLIPSE", "PJAFFE", "PJAFFE_ELLIPSE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE", "NIE", "POWER_LAW"]
FLUX = ["SERSIC", "SERSIC_ELLIPSE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE", "MGE_SET", "MGE_SET_ELLIPSE", "HERNQUIST", "HERNQUIST_ELLIPSE", "PL_SERSIC", "LINE_PROFILE", "INTERPOL"]
ELL = {"e1", "e2", "e11", "e12", "e21", "e22", "e13", "e23", "phi"}
RANGE = {"gamma": (1.65, 2.35), "gamma_in": (.7, 1.5), "gamma_inner": (.7, 1.3), "gamma_outer": (2.6, 3.3), "slope": (3.6, 6.), "a_c": (1., 1.6), "a": (1.6, 2.4), "n_sersic": (.7, 3.), "alpha_c": (1.5, 2.), "log10_theta_E": (-.3, .2)}


def vary(r, kw, round_=True, light=False):
    out = {}
    for k, v in kw.items():
        if k in ELL:
            out[k] = 0. if round_ else v
        elif k == "q":
            out[k] = .999999 if round_ else v
        elif k.startswith("center") or k.startswith("start"):
            out[k] = float(r.uniform(-.3, .3))
        elif k in RANGE:
            out[k] = float(r.uniform(*RANGE[k]))
        elif np.ndim(v) == 0 and k not in ("scale", "phi_G", "angle", "image"):
            out[k] = float(v * r.uniform(.75, 1.33))
        elif k in ("amp", "sigma"):
            out[k] = np.asarray(v) * r.uniform(.75, 1.33)
        else:
            out[k] = v
    return out


# quadrature: Gauss-Legendre in pieces of the logarithmic variable
_X, _W = np.polynomial.legendre.leggauss(24)


def panels(a, b, n):
    e = np.linspace(a, b, n + 1)
    h = (e[1:] - e[:-1]) / 2
    m = (e[1:] + e[:-1]) / 2
    return (m[:, None] + h[:, None] * _X).ravel(), (h[:, None] * _W).ravel()


def project(f, R, T=34., n=30):
    """line-of-sight integral of f(r) at projected radius R: r = R cosh t"""
    t, w = panels(0, T, n)
    r = R * np.cosh(t)
    v = np.asarray(f(r), float) * r
    return 2 * float(np.sum(w * v))


def ball(f, R, lo=1e-7):
    u, w = panels(np.log(lo), np.log(R), 24)
    r = np.exp(u)
    return 4 * np.pi * float(np.sum(w * np.asarray(f(r), float) * r ** 3))


def disc(f, R, lo=1e-7):
    u, w = panels(np.log(lo), np.log(R), 24)
    r = np.exp(u)
    return 2 * np.pi * float(np.sum(w * np.asarray(f(r), float) * r ** 2))


def near(a, b, tol, clause, floor=1e-12, **d):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * np.maximum(np.abs(b), floor)), clause, got=np.ravel(a)[:4].tolist(), expected=np.ravel(b)[:4].tolist(), **d)


class Lens:
    """one component of the lens with one parameter set, on its own instance: the reference"""

    def __init__(s, name, kw):
        from lenstronomy.LensModel.lens_model import LensModel
        s.name, s.kw = name, kw
        i = lens_init(name)
        s.lm = LensModel([name], **(dict(profile_kwargs_list=[i]) if i else {}))
        s.f = s.lm.lens_model.func_list[0]
        s.nc = {k: v for k, v in kw.items() if not k.startswith("center")}
        s.c = kw.get("center_x", 0.), kw.get("center_y", 0.)

    def kappa(s, R):
        return float(np.ravel(s.lm.kappa(s.c[0] + R, s.c[1], [s.kw]))[0])

    def m2(s, R):
        a = s.lm.alpha(s.c[0] + R, s.c[1], [s.kw])
        return float(np.pi * R * np.ravel(a[0])[0])

    def rho(s, r):
        if s.name in MASS3:
            r = np.asarray(r, float)
            return (np.asarray(s.f.mass_3d_lens(r * 1.0003, **s.nc), float) - np.asarray(s.f.mass_3d_lens(r / 1.0003, **s.nc), float)) / (r * 1.0003 - r / 1.0003) / 4 / np.pi / r ** 2
        return np.asarray(s.f.density_lens(r, **s.nc), float)

    def m3(s, r):
        return ball(s.rho, r)


def tol_of(names):
    """relative accuracy: convergence by finite differences in some profiles, two nearly equal components in the chameleons"""
    if any("CHAMELEON" in n or n == "PJAFFE_ELLIPSE_POTENTIAL" for n in names):
        return 5e-3
    if "BPL" in names:
        return 1e-2
    if any("NFW" in n or "ELLIPSE" in n or n in ("ULDM", "SIE", "EPL_Q_PHI") for n in names):
        return 2e-3
    return 3e-4


RADII = [.31, .83, 1.61, 3.3]


def mass_case(c):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.profile_integrals import ProfileIntegrals
    r = np.random.default_rng(c["seed"])
    names = c["names"]
    inits = [lens_init(n) for n in names]
    lm = LensModel(names, **(dict(profile_kwargs_list=inits) if any(inits) else {}))
    ref = [[Lens(n, vary(r, lens_params(n, LensModel([n], **(dict(profile_kwargs_list=[i]) if i else {})).lens_model.func_list[0].param_names, p))) for p in (0, 1)] for n, i in zip(names, inits)]
    sp = lm.lens_model
    rad = [x * float(r.uniform(.9, 1.1)) for x in RADII]
    for step, q in enumerate(c["hist"]):
        K = sorted(k - 1 for k in q["k"] if k <= len(names)) or [0]
        p, what = q["p"] - 1, q["what"]
        kws = [dict(ref[i][p].kw) for i in range(len(names))]
        sel = [i in K for i in range(len(names))]
        sub = [ref[i][p] for i in K]
        R = rad[q["r"] - 1]
        Rs = np.array([R, rad[q["r"] % len(rad)]]) if q["arr"] else R
        tol = tol_of([s.name for s in sub])
        d = dict(query=what, names=[s.name for s in sub], radius=Rs, step=step, kwargs=[s.kw for s in sub], conv=q["conv"])
        each = (lambda g: np.array([g(x) for x in Rs])) if q["arr"] else (lambda g: g(R))
        if any(s.name == "TNFWC" for s in sub) and what == "m3":
            Rs, each = R, (lambda g: g(R))
            q = dict(q, arr=False)
        point = any(s.name.startswith("POINT_MASS") for s in sub)
        if q["conv"] == "phys":
            n, s = names[K[-1]], ref[K[-1]][p]
            if n not in PHYS:
                continue
            f = sp.func_list[K[-1]]
            g = s.f
            d["names"], d["kwargs"] = [n], [s.kw]
            sig = [a for a in inspect.signature(f.density).parameters if a not in ("r", "R")]
            kp = {a: s.nc.get(a, c["rho0"]) for a in sig}
            dens = lambda x: np.asarray(g.density(x, **kp), float)
            unit = 1.
            if n == 'TNFWC':          # numbers only
                Rs, each = R, (lambda h: h(R))
                q = dict(q, arr=False)
            near(each(lambda x: float(f.density(x, **kp))) if not q["arr"] else f.density(Rs, **kp), each(lambda x: float(dens(x))), 1e-9, "density in the physical normalisation", **d)
            if hasattr(f, "density_2d"):
                near(each(lambda x: project(dens, x)), np.asarray(f.density_2d(Rs, Rs * 0., **kp), float), tol, "density projects to the projected density", **d)
                if n in ("SIS", "SPP", "NFW", "GAUSSIAN", "HERNQUIST", "PJAFFE", "CORED_DENSITY", "TNFW", "TNFWC", "CNFW", "PSEUDO_DPL"):     # a position, not only a radius
                    near(f.density_2d(.6 * R + .2, .8 * R - .1, **kp, **({} if "center_x" not in inspect.signature(f.density_2d).parameters else dict(center_x=.2, center_y=-.1))),
                         f.density_2d(R, 0., **kp), 1e-7, "projected density depends on the distance from the centre", **d)
            if hasattr(f, "mass_3d"):
                near(np.asarray(f.mass_3d(Rs, **kp), float) - np.asarray(f.mass_3d(.05 * R, **kp), float), each(lambda x: ball(dens, x, .05 * R)), tol, "density integrates to the mass in a ball", **d)
            if hasattr(f, "mass_2d") and hasattr(f, "density_2d"):
                s2 = lambda x: np.asarray(g.density_2d(x, x * 0., **kp), float)
                near(np.asarray(f.mass_2d(Rs, **kp), float) - np.asarray(f.mass_2d(.05 * R, **kp), float), each(lambda x: disc(s2, x, .05 * R)), tol, "projected density integrates to the mass in a cylinder", **d)
            if hasattr(f, "mass_tot") and hasattr(f, "mass_3d"):
                near(f.mass_tot(**kp), f.mass_3d(1e7, **kp), 1e-4, "total mass", **d)
            if s.name in DENS:                       # both normalisations describe one mass distribution
                unit = s.rho(1.) / dens(1.)
                near(unit * dens(R), s.rho(R), 1e-6, "one ratio between the normalisations", **d)
            if hasattr(f, "density_2d") and not n.startswith("MULTI"):
                u = s.kappa(1.) / float(np.ravel(f.density_2d(1., 0., **kp))[0])
                near(u * float(np.ravel(f.density_2d(R, 0., **kp))[0]), s.kappa(R), tol, "projected density is the convergence, up to the normalisation", floor=.01 * abs(s.kappa(1.)), **d)
                if s.name in DENS:
                    near(u, unit, tol, "density and convergence have the same normalisation", **d)
                if hasattr(f, "mass_2d"):
                    near(u * float(f.mass_2d(R, **kp)), s.m2(R), tol, "mass in a cylinder deflects", **d)
            continue
        if any(s.name not in DENS and s.name not in MASS3 for s in sub):
            continue
        if what == "rho":
            if any(s.name in MASS3 for s in sub):
                continue
            near(sp.density(Rs, kws, bool_list=sel), sum(s.rho(Rs) for s in sub), 1e-9, "density adds up over the components", **d)
        elif what == "sigma":
            if point:
                continue
            if any(s.name in MASS3 for s in sub):
                rho = None
            else:
                rho = lambda x: np.asarray(sp.density(x, kws, bool_list=sel), float)
            near(each(lambda x: project(rho, x) if rho else sum(project(s.rho, x, *((9., 12) if s.name in MASS3 else ())) for s in sub)), each(lambda x: sum(s.kappa(x) for s in sub)), tol, "density projects to the convergence", floor=1e-3 * abs(sum(s.kappa(1.) for s in sub)), **d)
            if len(K) == 1 and sub[0].name in FULL and sub[0].name not in ("SIS", "SIE", "SPP", "EPL", "SPL_CORE") and c["slow"]:
                near(ProfileIntegrals(sp.func_list[K[0]]).density_2d(R, dict(kws[K[0]]), lens_param=True), sub[0].kappa(R), .05, "numerical projection", **d)
        elif what == "m3":
            if point:
                near(sp.mass_3d(Rs, kws, bool_list=sel) * (np.ones(2) if q["arr"] else 1.), each(lambda x: sum(s.m2(x) if s.name.startswith("POINT") else s.m3(x) for s in sub)), max(tol, 1e-3), "mass in a ball adds up", **d)
                continue
            lo = .04 * R
            near(np.asarray(sp.mass_3d(Rs, kws, bool_list=sel), float) - np.asarray(sp.mass_3d(lo, kws, bool_list=sel), float), each(lambda x: sum(ball(s.rho, x, lo) for s in sub)), max(tol, 1e-3), "mass in a ball is the integral of the density", **d)
            m2 = each(lambda x: sum(s.m2(x) for s in sub))
            require(np.all(np.asarray(sp.mass_3d(Rs, kws, bool_list=sel), float) <= m2 * (1 + 2 * tol)), "ball lies within the cylinder", ball=sp.mass_3d(Rs, kws, bool_list=sel), cylinder=m2, **d)
        elif what == "m2":
            # cylinder: the deflection, and the integral of the convergence
            k0 = each(lambda x: sum(s.m2(x) for s in sub))
            if not point and not any(s.name == "BPL" for s in sub):
                lo = .04 * R
                kap = lambda x: sum(np.array([s.kappa(y) for y in x]) for s in sub)
                near(each(lambda x: sum(s.m2(x) - s.m2(lo) for s in sub)), each(lambda x: disc8(kap, x, lo)), max(tol, 1e-3), "deflection is the mass in the cylinder", **d)
            if all(s.name in FULL for s in sub):
                near(sp.mass_2d(Rs, kws, bool_list=sel), k0, tol, "mass in a cylinder is that of the deflection", **d)


def disc8(f, R, lo):
    u, w = panels(np.log(lo), np.log(R), 3)
    r = np.exp(u)
    return 2 * np.pi * float(np.sum(w * np.asarray(f(r), float) * r ** 2))


# ------------------------------------------------------------------ light

def polar_flux(lm, kw, c, n=72):
    t = np.arange(n) * 2 * np.pi / n
    u, w = panels(np.log(1e-6), np.log(3e5), 40)
    R, T = np.meshgrid(np.exp(u), t, indexing="ij")
    s = np.asarray(lm.surface_brightness((c[0] + R * np.cos(T)).ravel(), (c[1] + R * np.sin(T)).ravel(), [kw]), float).reshape(R.shape)
    return float(np.sum(w[:, None] * s * R ** 2) * 2 * np.pi / n)


def light_case(c):
    from lenstronomy.LightModel.light_model import LightModel
    r = np.random.default_rng(c["seed"])
    names = c["names"]
    inits = [light_init(n) for n in names]
    lm = LightModel(names, **(dict(profile_kwargs_list=inits) if any(inits) else {}))
    one = [LightModel([n], **(dict(profile_kwargs_list=[i]) if i else {})) for n, i in zip(names, inits)]
    kw = [[vary(r, light_params(n, o.func_list[0].param_names, p), round_=c["round"], light=True) for n, o in zip(names, one)] for p in (0, 1)]
    rad = [x * float(r.uniform(.9, 1.1)) for x in RADII]
    flux = {}
    for step, q in enumerate(c["hist"]):
        K = sorted(k - 1 for k in q["k"] if k <= len(names)) or [0]
        p, what = q["p"] - 1, q["what"]
        kws = [dict(k) for k in kw[p]]
        R = rad[q["r"] - 1]
        Rs = np.array([R, rad[q["r"] % len(rad)]]) if q["arr"] else R
        sel = [i in K for i in range(len(names))]
        d = dict(query=what, names=[names[i] for i in K], radius=Rs, step=step, kwargs=[kws[i] for i in K])
        if what in ("rho", "sigma"):
            if not c["round"] or any(names[i] not in L3D for i in K):
                continue
            l3 = lambda x: np.asarray(lm.light_3d(x, kws, k=sel), float)
            near(l3(Rs), sum(np.asarray(one[i].light_3d(Rs, [kw[p][i]]), float) for i in K), 1e-9, "light density adds up over the components", **d)
            sb = sum(float(np.ravel(one[i].surface_brightness(kw[p][i].get("center_x", 0.) + R, kw[p][i].get("center_y", 0.), [kw[p][i]]))[0]) for i in K)
            near(project(l3, R), sb, 2e-3, "light density projects to the surface brightness", **d)
        else:
            if any(n not in FLUX for n in names):
                continue
            got = lm.total_flux(kws, k=sel)
            require(len(got) == len(K), "one flux per selected component", got=got, **d)
            for i, g in zip(K, got):
                key = (p, i)
                if key not in flux:
                    kk = kw[p][i]
                    if names[i] in ("LINE_PROFILE", "INTERPOL"):
                        n, h = 700, .012
                        if names[i] == "INTERPOL":
                            n, h = 700, float(kk["scale"]) * max(np.shape(kk["image"])) * 1.5 / 700
                            cx, cy = kk["center_x"], kk["center_y"]
                        else:
                            cx, cy = kk["start_x"], kk["start_y"]
                            h = 4 * float(kk["length"] + kk["width"]) / n
                        g1 = (np.arange(n) - (n - 1) / 2) * h
                        x, y = np.meshgrid(g1 + cx, g1 + cy)
                        flux[key] = float(np.sum(one[i].surface_brightness(x.ravel(), y.ravel(), [kk])) * h * h), .02
                    else:
                        flux[key] = polar_flux(one[i], kk, (kk.get("center_x", 0.), kk.get("center_y", 0.))), (.01 if names[i] == "PL_SERSIC" else 1e-3)
                near(float(np.sum(g)), flux[key][0], flux[key][1], "total flux is the integral of the surface brightness", component=names[i], **d)
            if q["arr"]:
                nf = lm.total_flux(kws, norm=True, k=sel)
                for i, g, m in zip(K, got, nf):
                    a = kws[i]["amp"] if "amp" in kws[i] else 1.
                    near(float(np.sum(m)) * float(np.sum(a)), float(np.sum(g)), 1e-6, "flux is proportional to the amplitude", component=names[i], **d)


# ------------------------------------------------------------------ analysis

def analysis_case(c):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.Analysis.light_profile import LightProfileAnalysis
    r = np.random.default_rng(c["seed"])
    names = c["names"]
    light = c["light"]
    M = LightModel if light else LensModel
    lm = M(names)
    pn = lm.func_list if light else lm.lens_model.func_list
    kw = []
    for p in (0, 1):
        ctr = r.uniform(-.6, .6, 2)
        k = [vary(r, (light_params if light else lens_params)(n, f.param_names, p)) for n, f in zip(names, pn)]
        for x in k:
            x.update(center_x=float(ctr[0]), center_y=float(ctr[1]))
            if "theta_E" in x:
                x["theta_E"] = float(r.uniform(.7, 1.3))
        kw.append(k)
    an = (LightProfileAnalysis if light else LensProfileAnalysis)(lm)
    one = [M([n]) for n in names]
    rad = [x * float(r.uniform(.9, 1.1)) for x in (.4, .8, 1.2, 1.7)]
    for step, q in enumerate(c["hist"]):
        K = sorted(k - 1 for k in q["k"] if k <= len(names)) or [0]
        p, what = q["p"] - 1, q["what"]
        kws = [dict(k) for k in kw[p]]
        cx, cy = kws[0]["center_x"], kws[0]["center_y"]
        cen = {} if q["arr"] else dict(center_x=cx, center_y=cy)
        R = rad[q["r"] - 1]
        sel = None if len(K) == len(names) else [i in K for i in range(len(names))]
        d = dict(query=what, names=[names[i] for i in K], radius=R, step=step, kwargs=[kws[i] for i in K], selection=sel)
        # another centre than that of the profiles, also the origin
        ox, oy = [(0., cy + .7), (cx - .7, 0.), (cx + .5, cy - .6), (0., cy - .8)][step % 4]
        ph = np.arange(400) * np.pi / 200

        def ring(f, rr):
            return float(np.mean(sum(np.asarray(f(one[i])(ox + rr * np.cos(ph), oy + rr * np.sin(ph), [kws[i]]), float) for i in K)))
        if light:
            sb = lambda x: sum(np.asarray(one[i].surface_brightness(cx + np.asarray(x, float), cy + 0. * np.asarray(x, float), [kws[i]]), float) for i in K)
            if what == "sigma":
                near(an.radial_light_profile([R, 2 * R], kws, model_bool_list=sel, **cen), sb([R, 2 * R]), 1e-6, "radial profile is the azimuthal average about the centre", **d)
                rr = [.15, .25]
                near(an.radial_light_profile(rr, kws, model_bool_list=sel, center_x=ox, center_y=oy), [ring(lambda m: m.surface_brightness, k) for k in rr], 5e-2,
                     "radial profile is the azimuthal average about the centre given", center=(ox, oy), **d)
            elif what == "half":
                n, h = 161, .08
                got = an.half_light_radius(kws, grid_spacing=h, grid_num=n, model_bool_list=sel, **cen)
                # within the square grid
                g = (np.arange(n) - (n - 1) / 2) * h
                x, y = np.meshgrid(g, g)
                f = sum(np.asarray(one[i].surface_brightness(cx + x.ravel(), cy + y.ravel(), [kws[i]]), float) for i in K)
                rr = np.hypot(x.ravel(), y.ravel())
                o = np.argsort(rr)
                exp = rr[o][np.searchsorted(np.cumsum(f[o]), .5 * f.sum())]
                require(abs(got - exp) <= 1.5 * h, "half of the light lies within the half-light radius", got=got, expected=exp, **d)
            elif what == "mean":
                fl, rh = an.flux_components(kws, grid_num=201, grid_spacing=.06)
                require(len(fl) == len(names), "one flux per component", **d)
                g = (np.arange(201) - 100) * .06
                x, y = np.meshgrid(g, g)
                for i in range(len(names)):
                    f = np.asarray(one[i].surface_brightness(cx + x.ravel(), cy + y.ravel(), [kws[i]]), float)
                    near(fl[i], f.sum() * .06 ** 2, 1e-4, "flux of a component", component=names[i], **d)
            elif what == "einstein":
                e1, e2 = float(r.uniform(-.2, .2)), float(r.uniform(-.2, .2))
                kk = dict(amp=1.3, sigma=.5, e1=e1, e2=e2, center_x=cx, center_y=cy)
                a2 = LightProfileAnalysis(LightModel(["GAUSSIAN_ELLIPSE"]))
                g = a2.ellipticity([kk], grid_spacing=.06, grid_num=121, **cen)
                require(np.allclose(g, (e1, e2), atol=5e-3), "moments give the ellipticity", got=g, expected=(e1, e2), **d)
            continue
        kap = lambda x: sum(np.asarray(one[i].kappa(cx + np.asarray(x, float), cy + 0. * np.asarray(x, float), [kws[i]]), float) for i in K)
        alp = lambda x: sum(np.asarray(one[i].alpha(cx + np.asarray(x, float), cy + 0. * np.asarray(x, float), [kws[i]])[0], float) for i in K)
        if what == "sigma":
            near(an.radial_lens_profile([R, 2 * R], kws, model_bool_list=sel, **cen), kap([R, 2 * R]), 2e-3, "radial profile is the azimuthal average about the centre", **d)
            rr = [.15, .25]
            near(an.radial_lens_profile(rr, kws, model_bool_list=sel, center_x=ox, center_y=oy, num_azimuthal_points=100), [ring(lambda m: m.kappa, k) for k in rr], 2e-2,
                 "radial profile is the azimuthal average about the centre given", center=(ox, oy), **d)
        elif what == "mean":
            got = an.mass_fraction_within_radius(kws, cx, cy, R, num_pix=100)
            require(len(got) == len(names), "one mean convergence per component", **d)
            for i in range(len(names)):
                a = float(np.ravel(one[i].alpha(cx + R, cy, [kws[i]])[0])[0])
                near(got[i], a / R, .06, "mean convergence within a radius is the deflection over the radius", component=names[i], **d)
        elif what == "einstein":
            full = lambda x: sum(np.asarray(one[i].alpha(cx + x, cy, [kws[i]])[0], float) for i in range(len(names)))
            from scipy.optimize import brentq
            if float(full(.05)) / .05 < 1.5 or float(full(6.)) / 6. > .9:
                continue
            tE = brentq(lambda x: float(full(x)) / x - 1, .05, 6.)
            near(an.effective_einstein_radius(kws, r_min=1e-3, r_max=2e1, num_points=60), tE, .02, "Einstein radius: mean convergence one", **d)
            sub = lambda x: float(alp(x))
            if sub(.1) / .1 > 1.5 and sub(4.) / 4. < .9:
                tE = brentq(lambda x: sub(x) / x - 1, .1, 4.)
                got = an.effective_einstein_radius_grid(kws, model_bool_list=sel, grid_num=160, grid_spacing=.06, **cen)
                require(abs(got - tE) < .08 + .03 * tE, "Einstein radius on a grid: mean convergence one", got=got, expected=tE, **d)
        elif what in ("slope", "xi") and any(abs(k.get("Rs", 1e9) / R - 1) < .03 for k in kws):
            continue          # series of the NFW and Hernquist functions at the scale radius
        elif what == "slope":
            dr = .01
            a0, a1, k0, k1 = float(alp(R)), float(alp(R + dr)), float(kap(R)), float(kap(R + dr))
            near(an.profile_slope(kws, R, model_list_bool=sel, **cen), 2 - np.log(a1 / a0) / np.log((R + dr) / R), 1e-3, "slope from the deflection", **d)
            near(an.profile_slope(kws, R, model_list_bool=sel, alpha_differentials=False, **cen), 1 - np.log(k1 / k0) / np.log((R + dr) / R), 2e-2, "slope from the convergence", **d)
        elif what == "xi":
            h = 1e-3
            ap = lambda x: (float(alp(x + h)) - float(alp(x - h))) / 2 / h          # d alpha / dr
            if abs(1 - ap(R)) < .25 or abs(1 - float(alp(R)) / R) < .02:
                continue
            app = (float(alp(R + h)) - 2 * float(alp(R)) + float(alp(R - h))) / h / h
            # radial stretch 1/(1 - alpha'): its logarithmic derivative
            got = an.mst_invariant_differential(kws, R, model_list_bool=sel, **cen)
            exp = app / (1 - ap(R))
            require(abs(got - exp) <= .1 * abs(exp) + .1, "radial stretch differential about the centre", got=got, expected=exp, **d)


CASES = {"mass": mass_case, "light": light_case, "analysis": analysis_case}
ROUND = ["SIS", "SPP", "NFW", "HERNQUIST", "GAUSSIAN", "CORED_DENSITY", "SIE", "EPL", "NIE"]
ROUNDL = ["SERSIC", "SERSIC_ELLIPSE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "HERNQUIST", "CORE_SERSIC"]


def main(pid):
    import lenstronomy.LensModel.lens_model, lenstronomy.LightModel.light_model, lenstronomy.Analysis.lens_profile, lenstronomy.Analysis.light_profile, lenstronomy.LensModel.profile_integrals  # noqa
    from lenstronomy.LensModel.lens_model import LensModel
    ck = Check(pid)
    F = 6 if THOROUGH else 1
    inv = ["Ways", "Nested", "Closed", "Grows", "Adds", "Half"]
    base = dict(N=2, Comps=2, Params=1, Kinds={"rho"}, Conv={"lens"}, Radii=1, L=0)
    jobs = [("Mass", dict(base, Dens=Raw("{0, 1}"), N=2) if THOROUGH else dict(base, Dens=Raw("{0, 1, 3}"), N=1), dict(spec="Spec", invariants=inv), dict(workers=2)),
            ("Mass", dict(base, Dens=Raw("{0, 1, 3}"), N=2, Comps=1) if THOROUGH else dict(base, Dens=Raw("{0, 1}"), N=2, Comps=1), dict(spec="Spec", invariants=inv), dict(workers=2)),
            ("Mass", dict(base, Dens=Raw("{1, 2}"), N=1, Comps=2, Params=2, Kinds={"rho", "sigma", "m3", "m2"}, Conv={"lens", "phys"}, Radii=2, L=2 if THOROUGH else 1), dict(spec="Spec", invariants=["Functional"]), dict(workers=2))]
    gen = dict(N=1, Dens=Raw("{1}"), Params=2, Radii=4)
    S = lambda n: dict(sim=dict(num=n * F, depth=8), workers=1)
    jobs += [("Mass", dict(gen, Comps=3, Kinds={"rho", "sigma", "m3", "m2"}, Conv={"lens", "phys"}, L=6), dict(spec="RSpec", invariants=["Emit"]), S(600)),
             ("Mass", dict(gen, Comps=3, Kinds={"rho", "sigma", "total"}, Conv={"lens"}, L=4), dict(spec="RSpec", invariants=["Emit"]), S(70)),
             ("Mass", dict(gen, Comps=2, Kinds={"sigma", "mean", "einstein", "half", "slope", "xi"}, Conv={"lens"}, L=4), dict(spec="RSpec", invariants=["Emit"]), S(400))]
    runs = ck.mc_all(jobs, 6)
    cases = []
    r = ck.rng
    pool = DENS + MASS3 + ["TNFW", "coreBURKERT"]
    for j, rec in enumerate(runs[3].records):
        n = [pool[j % len(pool)]] + [r.choice(pool) for _ in range(r.randrange(0, 3))]
        cases.append(dict(hist=rec["hist"], names=n, seed=r.randrange(10 ** 6), rho0=round(r.uniform(.2, .8), 3), slow=j % 8 == 0))
    ck.run_cases(mass_case, cases, "mass", chunk=4)
    cases = []
    for j, rec in enumerate(runs[4].records):
        if j % 2:
            n = [L3D[(j // 2) % len(L3D)]] + [r.choice(L3D) for _ in range(r.randrange(0, 3))]
        else:
            n = [FLUX[(j // 2) % len(FLUX)]] + [r.choice(FLUX[:-2]) for _ in range(r.randrange(0, 3))]
        cases.append(dict(hist=rec["hist"], names=n, seed=r.randrange(10 ** 6), round=bool(j % 2)))
    ck.run_cases(light_case, cases, "light", chunk=4)
    cases = []
    for j, rec in enumerate(runs[5].records):
        P = ROUNDL if j % 3 == 2 else ROUND
        cases.append(dict(hist=rec["hist"], names=[P[(j // 3) % len(P)]] + [r.choice(P) for _ in range(r.randrange(0, 2))], seed=r.randrange(10 ** 6), light=j % 3 == 2))
    ck.run_cases(analysis_case, cases, "analysis", chunk=4)
    ck.assumptions += ["round profiles; radii between 0.3 and 3.6 arc seconds; relative accuracy 3e-4 to 5e-3 (integrals), 2-6 % for quantities measured on a grid"]
    return ck.finish()
