"""C06: sessions with a LensModel (specs/Session.tla): source redshift and cosmology changes, static and
dynamic mode, questions in any order."""
import copy, warnings
import numpy as np
from common import *
from session import *
import catalog

warnings.filterwarnings("ignore")
X = np.array([0.83, -1.37, 0.41, -0.56, 1.93, 0.05])
Y = np.array([0.29, 0.64, -1.18, -0.91, -0.37, 1.52])
ZS = {1: 3.0, 2: 1.3, 3: 2.1}
ZL = 0.45


def cosmo(v):
    from astropy.cosmology import FlatLambdaCDM
    return FlatLambdaCDM(H0=70.0 if v == 1 else 55.0, Om0=0.3 if v == 1 else 0.45, Ob0=0.05)


class Lens(Target):
    """single plane, reduced deflections defined for z_source_convention"""
    names = ["EPL", "SHEAR", "EPL", "NIE", "INTERPOL"]
    slots = {"zs": [1, 2, 3], "cosmo": [1, 2]}
    queries = ["ray_shooting", "alpha", "hessian", "kappa", "gamma", "magnification", "potential", "fermat", "fermat_src",
               "arrival_time", "flexion", "k_int", "k_list", "ddt_scaling", "images", "finite_mag", "scalar"]
    multi = False
    kw = {}
    rtol, atol = 1e-7, 1e-9

    def params(self, a):
        out = []
        for i, n in enumerate(self.names):
            from lenstronomy.LensModel.profile_list_base import lens_class
            names = _param_names(n)
            # tables are constant over the life of a model; everything else differs between the arguments
            table = n in ("INTERPOL", "INTERPOL_SCALED", "RADIAL_INTERPOL")
            p = dict(catalog.lens_params(n, names, i % 2 if table else (i + a) % 2))
            if "scale_factor" in p:
                p["scale_factor"] += 0.1 * a
            if i > 0 and "center_x" in p:
                p["center_x"] += 0.11 * i
                p["center_y"] -= 0.07 * i
            if "theta_E" in p:
                p["theta_E"] = 0.5 * p["theta_E"]
            if "logM" in p:
                p["logM"] = p["logM"] - 0.2 * a
            out.append(p)
        return out

    def build(self, cur):
        from lenstronomy.LensModel.lens_model import LensModel
        return LensModel(list(self.names), z_lens=ZL, z_source=ZS[cur.get("zs", 1)], z_source_convention=ZS[1],
                         cosmo=cosmo(cur.get("cosmo", 1)), **copy.deepcopy(self.kw))

    def set(self, obj, name, value, cur):
        if name == "zs":
            obj.change_source_redshift(ZS[value])
        else:
            obj.update_cosmology(cosmo(value))

    def ask(self, obj, q, a, kw=None):
        kw = self.params(a) if kw is None else kw
        keep = flat(kw)
        x, y = X.copy(), Y.copy()
        out = self.answer(obj, q, x, y, kw)
        require(same(flat(kw), keep, 0, 0), "lens parameters handed in are not altered", question=q)
        require(np.array_equal(x, X) and np.array_equal(y, Y), "coordinates handed in are not altered", question=q)
        return out

    def answer(self, o, q, x, y, kw):
        if q == "ray_shooting":
            return o.ray_shooting(x, y, kw)
        if q == "alpha":
            return o.alpha(x, y, kw)
        if q == "hessian":
            return o.hessian(x, y, kw)
        if q == "kappa":
            return o.kappa(x, y, kw)
        if q == "gamma":
            return o.gamma(x, y, kw)
        if q == "magnification":
            return 1 / o.magnification(x, y, kw)
        if q == "potential":
            return o.potential(x, y, kw)
        if q == "fermat":
            return o.fermat_potential(x, y, kw)
        if q == "fermat_src":
            return o.fermat_potential(x, y, kw, x_source=0.1, y_source=-0.2)
        if q == "arrival_time":
            return o.arrival_time(x, y, kw)
        if q == "flexion":
            return o.flexion(x, y, kw, diff=0.01)
        if q == "k_int":
            return [o.alpha(x, y, kw, k=0), o.kappa(x, y, kw, k=len(self.names) - 1), o.hessian(x, y, kw, k=2)]
        if q == "k_list":
            return [o.ray_shooting(x, y, kw, k=[0, 2]), o.potential(x, y, kw, k=[True, False, True] + [False] * (len(self.names) - 3))]
        if q == "ddt_scaling":
            return o.ddt_scaling
        if q == "scalar":
            return o.alpha(float(x[1]), float(y[1]), kw)
        if q == "images":
            from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
            s = LensEquationSolver(o)
            bx, by = s.image_position_from_source(0.12, -0.05, kw, min_distance=0.1, search_window=5, precision_limit=1e-10)
            # the residuals are zero: the images solve the equation of the current model
            rx, ry = o.ray_shooting(bx, by, kw)
            require(np.max(np.hypot(rx - 0.12, ry + 0.05), initial=0) < 1e-6, "images map to the source", residual=flat([rx, ry]))
            return sorted([round(float(u), 5), round(float(v), 5)] for u, v in zip(bx, by))
        if q == "images_analytical":
            from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
            bx, by = LensEquationSolver(o).image_position_from_source(0.12, -0.05, kw, solver="analytical")
            return [bx, by]
        if q == "findings":
            from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
            bx, by = LensEquationSolver(o).findBrightImage(0.12, -0.05, kw, numImages=2, min_distance=0.1, search_window=5, precision_limit=1e-10)
            return [bx, by]
        if q == "finite_mag":
            from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
            return LensModelExtensions(o).magnification_finite(x[:2], y[:2], kw, source_sigma=0.003, window_size=0.1, grid_number=10)
        if q == "partial":
            return o.lens_model.ray_shooting_partial(0 * x, 0 * y, x, y, z_start=0, z_stop=0.6, kwargs_lens=kw)
        raise MachineryError(q)


_PN = {}


def _param_names(n):
    if n not in _PN:
        from lenstronomy.LensModel.profile_list_base import lens_class
        _PN[n] = list(lens_class(n, profile_kwargs=dict(catalog.lens_init(n))).param_names)
    return _PN[n]


class Frozen(Lens):
    """static and dynamic mode; two copies of the profile under test, with a sibling of another kind"""
    slots = {}
    freeze = True
    queries = ["ray_shooting", "alpha", "hessian", "kappa", "potential", "k_int", "fermat", "flexion"]

    def do_freeze(self, obj, a):
        kw = self.params(a)
        keep = flat(kw)
        out = obj.set_static(kw)
        require(same(flat(kw), keep, 0, 0), "lens parameters handed in are not altered", question="set_static")
        return out

    def thaw(self, obj):
        obj.set_dynamic()

    def ask_frozen(self, obj, q, a, token):
        return self.ask(obj, q, a, kw=copy.deepcopy(token))


def _frozen(n):
    names = [n, "SIS", n] if n != "NFW_MC" else [n, "SIS", n]
    d = dict(names=names)
    if n.startswith("NFW_MC"):
        d["kw"] = dict(lens_redshift_list=[ZL, ZL, ZL])
    if n == "GreenBoschNFW":
        d["kw"] = dict(profile_kwargs_list=[dict(num_bins=20), {}, dict(num_bins=20)])
        d["queries"] = ["alpha", "hessian", "potential"]
    if n == "SYNTHESIS":
        prof = dict(target_lens_model="SIS", component_lens_model="CSE",
                    kwargs_list=[dict(a=0.6 * s, s=0.5 * s, e1=0, e2=0, center_x=0, center_y=0) for s in (0.3, 1.0, 3.0)],
                    lin_fit_hyperparams=dict(lower_log_bound=-2, upper_log_bound=1, num_r_evals=40, sigma=0.01))
        d["kw"] = dict(profile_kwargs_list=[prof, {}, prof])
        d["params"] = lambda self, a: [dict(theta_E=0.6 + 0.2 * a, center_x=0.1, center_y=0.05 * a), dict(theta_E=0.5, center_x=-0.4, center_y=0.3),
                                       dict(theta_E=0.9 - 0.2 * a, center_x=-0.2, center_y=0.1)]
        d["queries"] = [q for q in Frozen.queries if q != "flexion"]
    return type("Frozen_" + n, (Frozen,), d)()


class MultiLens(Lens):
    names = ["EPL", "SHEAR", "SIS", "NIE", "POINT_MASS"]
    multi = True
    zl = [0.45, 0.45, 0.2, 0.9, 1.7]
    observed = None
    interp = False
    queries = ["ray_shooting", "alpha", "hessian", "kappa", "magnification", "fermat", "arrival_time", "ddt_scaling", "images",
               "finite_mag", "partial", "scalar"]
    rtol, atol = 2e-6, 1e-8

    def build(self, cur):
        from lenstronomy.LensModel.lens_model import LensModel
        return LensModel(list(self.names), z_lens=ZL, z_source=ZS[cur.get("zs", 1)], z_source_convention=ZS[1], lens_redshift_list=list(self.zl),
                         cosmo=cosmo(cur.get("cosmo", 1)), multi_plane=True, observed_convention_index=self.observed,
                         cosmo_interp=self.interp, z_interp_stop=3.5 if self.interp else None, num_z_interp=200)


class MultiObserved(MultiLens):
    observed = [4, 3]
    interp = True


class MultiFrozen(MultiLens, Frozen):
    slots = {"zs": [1, 2], "cosmo": [1, 2]}
    queries = ["ray_shooting", "alpha", "kappa", "arrival_time", "partial"]
    observed = [3]
    while_frozen = ["zs"]


class LOS(Lens):
    names = ["LOS", "EPL", "SIS"]
    slots = {"cosmo": [1, 2]}
    queries = ["ray_shooting", "alpha", "hessian", "kappa", "magnification", "potential", "fermat", "arrival_time", "flexion", "images"]

    def params(self, a):
        return [dict(kappa_od=0.02 * a, gamma1_od=0.01, gamma2_od=-0.02, omega_od=0.01 * a, kappa_os=0.01, gamma1_os=-0.02 * a, gamma2_os=0.015,
                     omega_os=0.005, kappa_ds=-0.01, gamma1_ds=0.02, gamma2_ds=0.01 * a, omega_ds=-0.01),
                dict(theta_E=0.9 + 0.1 * a, gamma=2.05, e1=0.05 * a, e2=-0.04, center_x=0.02, center_y=0.03),
                dict(theta_E=0.2, center_x=0.9, center_y=-0.7 * a)]


class LOSFrozen(LOS, Frozen):
    slots = {}
    queries = ["ray_shooting", "alpha", "hessian", "potential", "fermat"]


class NFWMC(Lens):
    """parameters with a physical meaning: two halos in different planes share nothing"""
    names = ["NFW_MC", "SHEAR", "NFW_MC"]
    kw = dict(lens_redshift_list=[ZL, ZL, ZL])
    queries = ["ray_shooting", "alpha", "hessian", "kappa", "potential", "k_int", "arrival_time"]


TARGETS = {"single": Lens(), "multi": MultiLens(), "multi_observed": MultiObserved(), "multi_frozen": MultiFrozen(), "los": LOS(),
           "los_frozen": LOSFrozen(), "nfw_mc": NFWMC()}
STATIC = ["CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "EPL", "NIE", "NIE_POTENTIAL", "BPL", "NFW_MC", "SYNTHESIS", "INTERPOL", "INTERPOL_SCALED",
          "SIE", "PJAFFE", "CTNFW_GAUSS_DEC", "NFW_ELLIPSE_GAUSS_DEC", "GreenBoschNFW", "RADIAL_INTERPOL", "NFW_MC_ELLIPSE_POTENTIAL"]
for _n in STATIC:
    TARGETS["static_" + _n] = _frozen(_n)


def case(c):
    session_case(TARGETS, c)


CASES = {"session": case}


def main(pid):
    import lenstronomy.LensModel.lens_model  # noqa
    ck = Check(pid)
    plan = {}
    for n in TARGETS:
        if n.startswith("static_"):
            plan[n] = (3, (15, 300 if THOROUGH else 5))
        else:
            plan[n] = (3, (20, 600 if THOROUGH else 12))
    run_sessions(ck, TARGETS, case, plan, deep_limit=4000 if THOROUGH else 60)
    ck.assumptions += ["image positions of the lens equation solver are compared rounded to 1e-5 arcsec, with the random seed fixed",
                       "while a model is static, only the parameters it was frozen with are passed (documented)"]
    ck.extra["targets"] = sorted(TARGETS)
    return ck.finish()
