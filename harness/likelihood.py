"""C14: the likelihood is the sum of its declared terms, whatever was evaluated before
(specs/Likelihood.tla, specs/Session.tla)."""
import copy, io, contextlib, warnings
import numpy as np
from common import *
from session import *

warnings.filterwarnings("ignore")
N = 13


def band(seed, psf="GAUSSIAN", exp=100.0):
    r = np.random.RandomState(seed)
    d = r.normal(0.3, 0.3, (N, N))
    return [dict(image_data=d, background_rms=0.3, exposure_time=exp, ra_at_xy_0=-1.5, dec_at_xy_0=-1.5, transform_pix2angle=np.eye(2) * 0.25),
            dict(psf_type=psf, fwhm=0.4, truncation=3) if psf == "GAUSSIAN" else dict(psf_type="NONE"), dict(supersampling_factor=1)]


class Lk(Target):
    """Likelihood of a parameter vector"""
    args = [1, 2, 3]
    queries = ["logL", "kwargs", "num", "verbose"]
    linear = True
    rtol, atol = 1e-7, 1e-7

    model = dict(lens_model_list=["SIE", "SHEAR"], source_light_model_list=["SERSIC"], lens_light_model_list=["GAUSSIAN"],
                 point_source_model_list=["SOURCE_POSITION"], fixed_magnification_list=[True], z_lens=0.5, z_source=1.5,
                 kwargs_lens_eqn_solver=dict(min_distance=0.1, search_window=4.0))
    data = dict(time_delays_measured=[-10.0, 5.0, 3.0], time_delays_uncertainties=[5.0, 4.0, 6.0], flux_ratios=[1.1, 0.4, 0.7], flux_ratio_errors=[0.3, 0.2, 0.2],
                ra_image_list=[np.array([1.0, -0.9, 0.3, -0.2])], dec_image_list=[np.array([0.2, -0.1, 0.9, -0.8])])
    bands = [(1, "GAUSSIAN")]
    multi_band_type = "multi-linear"
    settings = dict(time_delay_likelihood=True, flux_ratio_likelihood=True, image_position_likelihood=True, source_position_likelihood=False)
    constraints = dict(Ddt_sampling=True)
    special_values = [dict(D_dt=3000.0), dict(D_dt=4000.0), dict(D_dt=3000.0)]
    special_limits = (dict(D_dt=0.0), dict(D_dt=10000.0))

    def values(self, a):
        return dict(kwargs_lens=[dict(theta_E=[1.0, 1.05, 0.97][a - 1], e1=0.1, e2=0.02 * a, center_x=0.0, center_y=0.01), dict(gamma1=0.03, gamma2=0.02 * a, ra_0=0, dec_0=0)],
                    kwargs_source=[dict(amp=2.0 * a, R_sersic=0.3, n_sersic=1.0, center_x=0.03 * a, center_y=0.04)],
                    kwargs_lens_light=[dict(amp=3.0, sigma=0.3 + 0.02 * a, center_x=0, center_y=0)],
                    kwargs_ps=self.points(a), kwargs_special=copy.deepcopy(self.special_values[a - 1]))

    def points(self, a):
        return [dict(ra_source=0.03 * a, dec_source=0.04, source_amp=1.0 + a)]

    def build(self, cur):
        from lenstronomy.Sampling.likelihood import Likelihood
        from lenstronomy.Sampling.parameters import Param
        model = copy.deepcopy(self.model)
        kw1 = self.values(1)
        kw = dict(kwargs_fixed_lens=[{}, dict(ra_0=0, dec_0=0)], kwargs_fixed_source=[dict(n_sersic=1.0)], kwargs_fixed_lens_light=[dict(center_x=0, center_y=0)],
                  kwargs_fixed_ps=[{} for _ in kw1["kwargs_ps"]], kwargs_fixed_special={}, kwargs_lower_special=self.special_limits[0], kwargs_upper_special=self.special_limits[1])
        param = Param(model, linear_solver=self.linear, kwargs_lens_init=kw1["kwargs_lens"], **kw, **copy.deepcopy(self.constraints))
        bands = [band(*b) for b in self.bands]
        o = Likelihood(dict(copy.deepcopy(self.data), multi_band_list=bands, multi_band_type=self.multi_band_type), model, param, **self.extra(), **copy.deepcopy(self.settings))
        o._vp = param
        return o

    def extra(self):
        return {}

    def vector(self, o, a):
        return o._vp.kwargs2args(**self.values(a))

    def ask(self, o, q, a):
        v = self.vector(o, a)
        keep = v.copy()
        if q == "logL":
            out = o.logL(v)
        elif q == "kwargs":
            out = o.log_likelihood(o._vp.args2kwargs(v))
        elif q == "verbose":
            with contextlib.redirect_stdout(io.StringIO()):
                out = o.logL(v, verbose=True)
        elif q == "num":
            out = [o.num_data, o.effective_num_data_points(**o._vp.args2kwargs(v))]
        require(np.array_equal(v, keep), "the vector handed in is not altered")
        return out


class LkVeto(Lk):
    """a custom term that rejects the second model"""

    def extra(self):
        def custom(kwargs_lens=None, **kw):
            return -np.inf if kwargs_lens[0]["theta_E"] > 1.02 else -3.0
        return dict(custom_logL_addition=custom)


class LkLensed(Lk):
    """image positions are sampled, additional images searched"""
    model = dict(Lk.model, point_source_model_list=["LENSED_POSITION"], fixed_magnification_list=[False])
    settings = dict(Lk.settings, source_position_likelihood=True, force_no_add_image=True, restrict_image_number=True, max_num_images=4, astrometric_likelihood=True)
    constraints = dict(Ddt_sampling=True, num_point_source_list=[4], point_source_offset=True)
    special_values = [dict(D_dt=3000.0 + 100 * i, delta_x_image=np.array([0.01, 0, 0, 0.01 * i]), delta_y_image=np.array([0.0, 0.01, 0, 0])) for i in range(3)]
    special_limits = (dict(D_dt=0.0, delta_x_image=-np.ones(4), delta_y_image=-np.ones(4)), dict(D_dt=10000.0, delta_x_image=np.ones(4), delta_y_image=np.ones(4)))

    def points(self, a):
        return [dict(ra_image=np.array([1.0, -0.9, 0.3, -0.2]), dec_image=np.array([0.2 + 0.02 * a, -0.1, 0.9, -0.8]), point_amp=np.ones(4))]


class LkRedshift(Lk):
    """redshifts of lenses and sources are sampled"""
    model = dict(Lk.model, lens_redshift_list=[0.5, 0.7], multi_plane=True, source_redshift_list=[1.5], z_source_convention=3.0)
    constraints = dict(Ddt_sampling=True, lens_redshift_sampling_indexes=[0, -1], source_redshift_sampling_indexes=[1])
    special_values = [dict(D_dt=3000.0, z_sampling=[0.5, 1.5]), dict(D_dt=3000.0, z_sampling=[0.4, 1.5]), dict(D_dt=3500.0, z_sampling=[0.5, 1.2])]
    special_limits = (dict(D_dt=0.0, z_sampling=[0.1, 0.9]), dict(D_dt=10000.0, z_sampling=[0.8, 3.0]))


class LkCosmo(Lk):
    """cosmological parameters are sampled in a multi-plane model"""
    model = dict(Lk.model, lens_redshift_list=[0.5, 0.7], multi_plane=True, source_redshift_list=[1.5], z_source_convention=3.0, z_lens=None, cosmology_sampling=True, cosmology_model="FlatLambdaCDM")
    constraints = dict()
    special_values = [dict(H0=70.0, Om0=0.3), dict(H0=60.0, Om0=0.5), dict(H0=75.0, Om0=0.1)]
    special_limits = (dict(H0=10.0, Om0=0.05), dict(H0=150.0, Om0=1.0))


class LkCosmoSolver(LkCosmo):
    """image positions constrain the lens model under the sampled cosmology"""
    model = dict(LkCosmo.model, point_source_model_list=["LENSED_POSITION"], fixed_magnification_list=[False])
    constraints = dict(num_point_source_list=[4], solver_type="PROFILE_SHEAR")
    settings = dict(image_position_likelihood=True, source_position_likelihood=True)

    def values(self, a):
        v = super().values(a)
        v["kwargs_lens"][0]["theta_E"] = 1.5
        return v

    def points(self, a):
        return [dict(ra_image=np.array([0.312, 0.53, 1.209, -1.125]), dec_image=np.array([1.23 + 0.01 * a, -1.09, -0.143, -0.16]), point_amp=np.ones(4))]


class LkRedshiftSolver(LkCosmoSolver):
    model = dict(LkRedshift.model, point_source_model_list=["LENSED_POSITION"], fixed_magnification_list=[False])
    constraints = dict(LkRedshift.constraints, **LkCosmoSolver.constraints)
    special_values, special_limits = LkRedshift.special_values, LkRedshift.special_limits


class LkCosmoSingle(Lk):
    model = dict(Lk.model, cosmology_sampling=True, cosmology_model="FlatLambdaCDM")
    constraints = dict()
    special_values, special_limits = LkCosmo.special_values, LkCosmo.special_limits


class LkJoint(Lk):
    bands = [(1, "GAUSSIAN"), (2, "NONE")]
    multi_band_type = "joint-linear"


class LkMulti(Lk):
    bands = [(1, "GAUSSIAN"), (2, "NONE")]


class LkFixedLinear(Lk):
    linear = False


TARGETS = {c.__name__: c() for c in (Lk, LkVeto, LkLensed, LkRedshift, LkCosmo, LkCosmoSingle, LkCosmoSolver, LkRedshiftSolver, LkJoint, LkMulti, LkFixedLinear)}


def lk_session_case(c):
    return session_case(TARGETS, c)


# ---------------------------------------------------------------- composition

PRIORS = ["lens", "source", "lens_light", "ps", "special", "extinction", "lens_kde", "source_kde", "lens_light_kde", "special_kde", "extinction_kde", "lens_twice"]
NUM = {"quad": [4], "pair": [4, 2], "source": [4]}
BANDS = {"quad": [1, 2], "pair": [1], "source": [1]}  # amplitudes are solved for with two bands
MODEL = {
    "pair": dict(lens_model_list=["SIE", "SHEAR"], source_light_model_list=["SERSIC"], lens_light_model_list=["GAUSSIAN"], optical_depth_model_list=["UNIFORM"], tau0_index_list=[1, 0],
                 point_source_model_list=["LENSED_POSITION", "LENSED_POSITION"], point_source_redshift_list=[1.5, 2.0], z_lens=0.5, z_source=1.5, z_source_convention=1.5),
    "quad": dict(lens_model_list=["SIE", "SHEAR"], source_light_model_list=["SERSIC"], lens_light_model_list=["GAUSSIAN"], optical_depth_model_list=["UNIFORM"], tau0_index_list=[1, 0],
                 lens_redshift_list=[0.5, 0.8], multi_plane=True, point_source_model_list=["LENSED_POSITION"], z_lens=0.5, z_source=1.5, z_source_convention=1.5),
    "source": dict(lens_model_list=["SIE", "SHEAR"], source_light_model_list=["SERSIC"], lens_light_model_list=["GAUSSIAN"], optical_depth_model_list=["UNIFORM"], tau0_index_list=[1, 0],
                   point_source_model_list=["SOURCE_POSITION"], z_lens=0.5, z_source=1.5, z_source_convention=1.5, kwargs_lens_eqn_solver=dict(min_distance=0.1, search_window=4.0)),
}


def model_values(conf, rng):
    u = lambda a, b: float(rng.uniform(a, b))
    v = dict(kwargs_lens=[dict(theta_E=u(0.95, 1.05), e1=u(0.08, 0.14), e2=u(-0.05, 0.05), center_x=u(-0.02, 0.02), center_y=u(-0.02, 0.02)), dict(gamma1=u(-0.04, 0.04), gamma2=u(-0.04, 0.04), ra_0=0.0, dec_0=0.0)],
             kwargs_source=[dict(amp=u(1, 3), R_sersic=u(0.2, 0.5), n_sersic=u(0.8, 3), center_x=u(-0.05, 0.05), center_y=u(-0.05, 0.05))],
             kwargs_lens_light=[dict(amp=u(1, 4), sigma=u(0.2, 0.5), center_x=u(-0.05, 0.05), center_y=u(-0.05, 0.05))],
             kwargs_special=dict(D_dt=u(2000, 4000), tau0_list=[u(0.1, 0.4), u(0.5, 0.9)], delta_x_image=rng.normal(0, 0.01, 4), delta_y_image=rng.normal(0, 0.01, 4)),
             kwargs_extinction=[dict(amp=u(0.3, 0.8))])
    im = np.array([[0.22, 0.93], [0.38, -0.78], [0.87, -0.1], [-0.81, -0.11]]) + rng.normal(0, 0.02, (4, 2))
    ps = [dict(ra_image=im[:, 0], dec_image=im[:, 1], point_amp=rng.uniform(1, 3, 4))]
    if conf == "pair":
        two = np.array([[1.3, 0.1], [-0.6, -0.05]])
        if rng.randint(2):      # two images of a source that has more
            two = np.array([[0.98, -0.11], [-0.95, -0.13]])
        ps.append(dict(ra_image=two[:, 0] + u(-0.05, 0.05), dec_image=two[:, 1] + u(-0.05, 0.05), point_amp=rng.uniform(1, 3, 2)))
    if conf == "source":
        ps = [dict(ra_source=u(-0.02, 0.02), dec_source=u(-0.02, 0.02), point_amp=rng.uniform(1, 3, 4))]
    v["kwargs_ps"] = ps
    return v


def limits(v, sign):
    """limits around a model"""
    def lim(d):
        return {k: (np.array(x, float) + sign * (0.2 + 0.5 * np.abs(np.array(x, float)))) if not np.isscalar(x) else float(x) + sign * (0.2 + 0.5 * abs(float(x))) for k, x in d.items()}
    return {k: ([lim(d) for d in x] if isinstance(x, list) else lim(x)) for k, x in v.items()}


def plain_model(conf, z=None):
    """lens model of one point source, built from nothing"""
    from lenstronomy.LensModel.lens_model import LensModel
    m = MODEL[conf]
    kw = dict(z_source=z or 1.5, z_source_convention=1.5)
    if m.get("multi_plane"):
        return LensModel(m["lens_model_list"], multi_plane=True, lens_redshift_list=m["lens_redshift_list"], z_lens=0.5, **kw)
    return LensModel(m["lens_model_list"], z_lens=0.5, **kw)


def gaussian_penalty(d, cov):
    d, cov = np.array(d, float), np.array(cov, float)
    return -0.5 * float(d @ np.linalg.solve(cov, d)) if cov.ndim == 2 else -0.5 * float(np.sum((d / cov) ** 2))


def best_fit(image, v, d, use):
    """weighted least squares over all amplitudes"""
    zero = copy.deepcopy(v)
    slots = []
    for kind in ("kwargs_source", "kwargs_lens_light", "kwargs_ps"):
        for j, kw in enumerate(zero[kind]):
            key = "point_amp" if kind == "kwargs_ps" else "amp"
            n = len(v["kwargs_ps"][j]["ra_image"]) if kind == "kwargs_ps" else None
            kw[key] = np.zeros(n) if n else 0.0
            slots += [(kind, j, key, q) for q in range(n)] if n else [(kind, j, key, None)]
    resp = []
    for kind, j, key, q in slots:
        w = copy.deepcopy(zero)
        if q is None:
            w[kind][j][key] = 1.0
        else:
            w[kind][j][key][q] = 1.0
        resp.append(image(w))
    var = d["background_rms"] ** 2 + np.maximum(d["image_data"], 0) / d["exposure_time"]
    A = np.array([r[use] for r in resp]).T / np.sqrt(var[use])[:, None]
    if np.linalg.matrix_rank(A, tol=1e-4) < A.shape[1]:
        return None  # not constrained by the data
    amp = np.linalg.lstsq(A, d["image_data"][use] / np.sqrt(var[use]), rcond=None)[0]
    return np.tensordot(amp, np.array(resp), axes=1)


def composition_case(case):
    from lenstronomy.Sampling.likelihood import Likelihood
    from lenstronomy.Sampling.parameters import Param
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.ImSim.differential_extinction import DifferentialExtinction
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.PointSource.point_source import PointSource
    from astropy.cosmology import default_cosmology
    conf, c, seed = case["conf"], case["c"], case["seed"]
    rng = np.random.RandomState(seed)
    v = model_values(conf, rng)
    num = NUM[conf]
    S = range(len(num))
    # data
    bands = [band(11 + seed % 5, "GAUSSIAN"), band(21 + seed % 3, "NONE", exp=50.0)][:len(BANDS[conf])]
    linear = len(bands) > 1
    masks = [rng.randint(0, 3, (N, N)) > 0 for _ in bands]
    cov = lambda n, s: (lambda A: A @ A.T * s ** 2 / n + np.eye(n) * s ** 2)(rng.normal(size=(n, n)))
    delays = [rng.normal(0, 30, n - 1) for n in num]
    derr = [cov(n - 1, 5.0) if c["delaycov"] else rng.uniform(3, 8, n - 1) for n in num]
    flux = [rng.uniform(0.3, 2, n - 1) for n in num]
    ferr = [cov(n - 1, 0.3) if c["fluxcov"] else rng.uniform(0.1, 0.4, n - 1) for n in num]
    lens = [plain_model(conf, z) for z in (MODEL[conf].get("point_source_redshift_list") or [1.5])]
    cosmo = default_cosmology.get()
    # image positions of the model
    np.random.seed(42)
    if conf == "source":
        pos = [tuple(np.array(x) for x in PointSource(["SOURCE_POSITION"], lens_model=plain_model(conf), kwargs_lens_eqn_solver=MODEL[conf]["kwargs_lens_eqn_solver"]).image_position(v["kwargs_ps"], v["kwargs_lens"]))]
        pos = [(pos[0][0][0], pos[0][1][0])]
        if len(pos[0][0]) == 0 or np.max(np.abs(lens[0].magnification(pos[0][0], pos[0][1], v["kwargs_lens"]))) > 15:
            return  # close to a caustic the images are not well determined
    else:
        pos = [(p["ra_image"], p["dec_image"]) for p in v["kwargs_ps"]]
    obs = [(x[: n] + 0.01 * rng.normal(size=len(x[: n])), y[: n] + 0.01 * rng.normal(size=len(x[: n]))) for (x, y), n in zip(pos, num)]
    n_im = [len(x) for x, y in pos]
    for p in v["kwargs_ps"]:
        p["point_amp"] = np.ones(len(p["point_amp"])) if conf != "source" else np.ones(n_im[0])
    if conf == "source":
        for key in ("delta_x_image", "delta_y_image"):
            v["kwargs_special"][key] = np.resize(v["kwargs_special"][key], n_im[0])
    settings = dict(image_likelihood=c["image"], check_bounds=c["checked"], astrometric_likelihood=c["astro"], image_position_likelihood=c["imgpos"], image_position_uncertainty=0.013,
                    source_position_sigma=0.02, force_no_add_image=c["noadd"], time_delay_likelihood=c["delay"], flux_ratio_likelihood=c["flux"])
    if c["srcpos"] != "default":
        settings["source_position_likelihood"] = c["srcpos"] == "on"
    tol = [None, 0.05, 0.0001][c["tolerance"]]
    if tol:
        settings["source_position_tolerance"] = tol
    if c["restrict"]:
        settings.update(restrict_image_number=True, max_num_images=c["restrict"])
    if sorted(c["bands"]) != BANDS[conf] or seed % 2:
        settings["bands_compute"] = [b in c["bands"] for b in BANDS[conf]]
    if c["masks"]:
        settings["image_likelihood_mask_list"] = [masks[b - 1] if b in c["masks"] else None for b in BANDS[conf]]
    full = all(sorted(c["delaymask"][s]) == list(range(1, num[s])) for s in S)
    if not full or seed % 3:
        settings["time_delay_measurement_bool_list"] = [[i in c["delaymask"][s] for i in range(1, num[s])] for s in S]
    if sorted(c["fluxon"]) != [s + 1 for s in S] or seed % 2:
        settings["kwargs_flux_compute"] = dict(flux_ratio_measurement_bool=[s + 1 in c["fluxon"] for s in S])
    samples = rng.normal(0.5, 0.4, 300)
    pri = {"lens": ("prior_lens", [[0, "theta_E", 1.1, 0.05]]), "source": ("prior_source", [[0, "R_sersic", 0.3, 0.1]]), "lens_light": ("prior_lens_light", [[0, "sigma", 0.25, 0.1], [0, "center_x", 0.0, 0.02]]),
           "ps": ("prior_ps", [[0, "ra_image" if conf != "source" else "ra_source", 0.1, 0.3]]), "special": ("prior_special", [["D_dt", 3000.0, 500.0]]), "extinction": ("prior_extinction", [[0, "amp", 0.5, 0.1]]),
           "lens_kde": ("prior_lens_kde", [[0, "e1", samples]]), "source_kde": ("prior_source_kde", [[0, "n_sersic", samples * 3]]), "lens_light_kde": ("prior_lens_light_kde", [[0, "sigma", samples]]),
           "special_kde": ("prior_special_kde", [["D_dt", 3000 + 1000 * samples]]), "extinction_kde": ("prior_extinction_kde", [[0, "amp", samples]]),
           "lens_twice": ("prior_lens", [[1, "gamma1", 0.0, 0.05], [0, "center_y", 0.0, 0.01]])}
    for p in c["priors"]:
        settings[pri[p][0]] = settings.get(pri[p][0], []) + pri[p][1]
    custom = {"none": None, "value": lambda **kw: -0.25 * kw["kwargs_lens"][0]["theta_E"] - kw["kwargs_special"]["D_dt"] / 1000, "veto": lambda **kw: -np.inf if seed % 2 else -1e18}[c["custom"]]
    if custom:
        settings["custom_logL_addition"] = custom
    data = dict(multi_band_list=bands, multi_band_type="multi-linear", ra_image_list=[o[0] for o in obs], dec_image_list=[o[1] for o in obs],
                time_delays_measured=delays if len(num) > 1 else delays[0], time_delays_uncertainties=derr if len(num) > 1 else derr[0],
                flux_ratios=flux if len(num) > 1 else flux[0], flux_ratio_errors=ferr if len(num) > 1 else ferr[0])
    keep = flat(copy.deepcopy([data, {k: x for k, x in settings.items() if k != "custom_logL_addition"}]))
    lo, hi = limits(v, -1), limits(v, +1)
    kinds = ("lens", "source", "lens_light", "ps", "special", "extinction")
    model = copy.deepcopy(MODEL[conf])
    param = Param(model, linear_solver=linear, num_point_source_list=n_im, Ddt_sampling=True, num_tau0=2, point_source_offset=True, kwargs_fixed_extinction=[{}], kwargs_fixed_lens=[{}, dict(ra_0=0.0, dec_0=0.0)],
                  **{"kwargs_lower_" + k: lo["kwargs_" + k] for k in kinds}, **{"kwargs_upper_" + k: hi["kwargs_" + k] for k in kinds})
    if c["undefined"] and not linear:
        v["kwargs_lens_light"][0]["amp"] = np.nan
    o = Likelihood(data, model, param, **settings)
    vec = param.kwargs2args(**v)
    ll, ul = param.param_limits()
    if not c["inside"]:
        i = rng.randint(len(vec))
        vec[i] = ll[i] - 1e-3 if rng.randint(2) else ul[i] + 1e-3
        v = param.args2kwargs(vec)
        if not c["checked"]:
            return  # the model outside the limits is not predicted
    # terms
    kl = v["kwargs_lens"]
    terms = []
    for t in case["terms"]:
        kind, s, i = t["t"], t["s"], t["i"]
        k = int(s) - 1 if s in "1234" and s else 0
        if kind == "limits":
            val = -1e18
        elif kind == "custom":
            val = float(custom(**v))
        elif kind == "image":
            d = bands[k][0]
            im = ImageModel(ImageData(**copy.deepcopy(d)), PSF(**bands[k][1]), lens_model_class=plain_model(conf), source_model_class=LightModel(["SERSIC"]), lens_light_model_class=LightModel(["GAUSSIAN"]),
                            point_source_class=PointSource(MODEL[conf]["point_source_model_list"], lens_model=plain_model(conf), redshift_list=MODEL[conf].get("point_source_redshift_list"), kwargs_lens_eqn_solver=MODEL[conf].get("kwargs_lens_eqn_solver")),
                            extinction_class=DifferentialExtinction(["UNIFORM"], tau0_index=1 - k), kwargs_numerics=bands[k][2])
            np.random.seed(42)
            if conf == "source":
                x, y = im.PointSource.image_position(v["kwargs_ps"], kl)
                if len(x[0]) != n_im[0] or np.max(np.abs(x[0] - pos[0][0])) > 1e-5:
                    return  # the search window of the image finds other images: positions are not predicted
            np.random.seed(42)
            image = lambda w: im.image(kl, w["kwargs_source"], w["kwargs_lens_light"], w["kwargs_ps"], kwargs_extinction=v["kwargs_extinction"], kwargs_special=v["kwargs_special"])
            use = masks[k] if i else np.ones((N, N), bool)
            m = image(v) if not linear else best_fit(image, v, d, use)
            if m is None:
                return
            chi2 = (d["image_data"] - m) ** 2 / (d["background_rms"] ** 2 + np.maximum(m, 0) / d["exposure_time"])
            val = -0.5 * float(np.sum(chi2[masks[k]] if i else chi2))
            if np.isnan(val):
                val = -1e15
        elif kind == "delay":
            z = (MODEL[conf].get("point_source_redshift_list") or [1.5])[k]
            ratio = (cosmo.angular_diameter_distance(z) / cosmo.angular_diameter_distance_z1z2(0.5, z) / cosmo.angular_diameter_distance(1.5) * cosmo.angular_diameter_distance_z1z2(0.5, 1.5)).value
            fermat = lens[k].fermat_potential(pos[k][0], pos[k][1], kl)
            days = np.array(fermat) * v["kwargs_special"]["D_dt"] * ratio * 3.085677581491367e22 / 299792458.0 / 86400 * (np.pi / 180 / 3600) ** 2
            if len(days) != num[k]:
                val = -1e15
            else:
                on = np.array(sorted(c["delaymask"][k])) - 1
                r = (days[1:] - days[0] - delays[k])[on]
                val = gaussian_penalty(r, derr[k][on][:, on] if derr[k].ndim == 2 else derr[k][on])
        elif kind == "flux":
            mu = np.abs(lens[k].magnification(pos[k][0], pos[k][1], kl))
            if len(mu) != num[k]:
                val = -1e15
            else:
                q = mu[1:] / mu[0]
                val = gaussian_penalty(np.log(q) - np.log(flux[k]), ferr[k]) if c["fluxcov"] else gaussian_penalty(q - flux[k], ferr[k])
        elif kind == "astro":
            val = gaussian_penalty(np.append(v["kwargs_special"]["delta_x_image"], v["kwargs_special"]["delta_y_image"]), np.full(8, 0.013)) if conf != "source" else 0.0
        elif kind == "imgpos":
            n = min(n_im[k], len(obs[k][0]))
            val = gaussian_penalty(np.append(pos[k][0][:n] - obs[k][0][:n], pos[k][1][:n] - obs[k][1][:n]), np.full(2 * n, 0.013))
        elif kind in ("srcpos", "tolerance"):
            if conf == "source":
                continue
            bx, by = lens[k].ray_shooting(pos[k][0], pos[k][1], kl)
            w = 1.0
            r = np.array([np.mean(bx) - bx[i - 1], np.mean(by) - by[i - 1]])
            if kind == "tolerance":
                val = -1000.0 if r @ r > tol ** 2 else 0.0
            else:
                fxx, fxy, fyx, fyy = [float(h) for h in lens[k].hessian(pos[k][0][i - 1], pos[k][1][i - 1], kl)]
                A = np.array([[1 - fxx, -fxy], [-fyx, 1 - fyy]])
                val = -0.5 * float(np.sum(np.linalg.solve(A, r) ** 2)) / 0.02 ** 2
        elif kind == "additional":
            more = False
            for q in S:
                if "ra_image" in v["kwargs_ps"][q]:
                    np.random.seed(42)
                    from lenstronomy.PointSource.point_source import PointSource as P1
                    x, _ = P1(["LENSED_POSITION"], lens_model=lens[q], redshift_list=[(MODEL[conf].get("point_source_redshift_list") or [None])[q]]).image_position([v["kwargs_ps"][q]], kl, additional_images=True)
                    more = more or len(x[0]) > num[q]
            val = -1e5 if more else 0.0
        elif kind == "number":
            val = -1e5 if n_im[0] > i else 0.0
        elif kind == "prior":
            val = 0.0
            for e in pri[s][1]:
                x = v["kwargs_" + s.split("_kde")[0].replace("lens_twice", "lens")]
                if isinstance(x, list):
                    x = x[e[0]]
                    e = e[1:]
                if s.endswith("kde"):
                    from scipy import stats
                    val += float(np.log(stats.gaussian_kde(e[1])(x[e[0]])[0]))
                else:
                    val += gaussian_penalty(np.atleast_1d(np.array(x[e[0]]) - e[1]), np.full(np.size(x[e[0]]), e[2]))
        terms.append((kind + s, val))
    want = float(sum(x for _, x in terms))
    np.random.seed(42)
    got = float(o.logL(vec))
    tol_ = (1e-4 if conf == "source" else 1e-6) * max([1.0] + [abs(x) for _, x in terms if np.isfinite(x)])
    same_ = got == want if not np.isfinite(want) else abs(got - want) <= tol_
    require(same_, "log likelihood is the sum of the terms switched on", conf=conf, switches={k: x for k, x in c.items() if x not in (False, [], 0)}, got=got, want=want, terms=[(a, x) for a, x in terms])
    if c["inside"]:
        np.random.seed(42)
        require(float(o.logL(vec)) == got or not np.isfinite(got) or abs(float(o.logL(vec)) - got) <= tol_, "evaluating twice gives the same likelihood", conf=conf)
        require(float(o(vec)) == float(o.likelihood(vec)) or not np.isfinite(got) or conf == "source", "call and likelihood agree")
    pixels = sum(int(np.sum(masks[b - 1])) if b in c["masks"] else N * N for b in c["bands"]) if c["image"] else 0
    other = case["other"]
    if conf == "source" and c["imgpos"]:
        other += 2 * (len(obs[0][0]) - num[0])
    require(o.num_data == pixels + other, "number of data counts what is evaluated", conf=conf, got=int(o.num_data), want=pixels + other, switches={k: x for k, x in c.items() if x not in (False, [], 0)})
    require(same(flat([data, {k: x for k, x in settings.items() if k != "custom_logL_addition"}]), keep, 0, 0), "data and settings handed in are not altered")


CASES = dict(session=lk_session_case, composition=composition_case)


def main(pid):
    import lenstronomy.Sampling.likelihood, lenstronomy.Workflow.fitting_sequence, lenstronomy.LightModel.Profiles.sersic, lenstronomy.ImSim.MultiBand.multi_linear  # noqa
    import lenstronomy.ImSim.differential_extinction, scipy.stats  # noqa
    ck = Check(pid)
    k = 4 if THOROUGH else 1
    jobs = []
    depth = 10
    for conf in NUM:
        jobs.append(("Likelihood", dict(Bands=set(BANDS[conf]), Images=NUM[conf], Priors=set(PRIORS), Depth=depth), dict(invariants=["Limits", "Veto", "Bare", "BandsOnce", "Emit"]),
                     dict(sim=dict(num=20 * k, depth=depth + 1, seed=SEED))))
    cases = []
    for conf, r in zip(NUM, ck.mc_all(jobs, nproc=3)):
        seen = set()
        for rec in r.records:
            key = canon(rec["c"])
            if key not in seen:
                seen.add(key)
                cases.append(dict(conf=conf, c=rec["c"], terms=rec["terms"], other=rec["other"], seed=ck.rng.randrange(10 ** 6)))
    ck.rng.shuffle(cases)
    ck.run_cases(composition_case, cases if THOROUGH else cases[:320], "composition")
    plan = {n: (3, (8, 6 * k)) for n in TARGETS}
    run_sessions(ck, TARGETS, lk_session_case, plan, deep_limit=400 if THOROUGH else 16)
    return ck.finish()
