"""C11: data, PSF and image models answer from their current settings (specs/Session.tla, PixelGrid.tla,
PixelNoise.tla)."""
import copy, warnings
import numpy as np
from common import *
from session import *

warnings.filterwarnings("ignore")
N = 11


def frame_grid(h, cls, pix):
    m, o = np.array(h["m"], float).reshape(2, 2) * pix, np.array(h["org"], float) * pix
    from lenstronomy.Data.pixel_grid import PixelGrid
    from lenstronomy.Data.imaging_data import ImageData
    if cls == "image":
        return ImageData(image_data=np.zeros((N, N)), transform_pix2angle=m, ra_at_xy_0=o[0], dec_at_xy_0=o[1])
    return PixelGrid(nx=N, ny=N, transform_pix2angle=m, ra_at_xy_0=o[0], dec_at_xy_0=o[1])


def check_frame(g, v, pix, cls, hist):
    m, zero = np.array(v["m"], float).reshape(2, 2) * pix, np.array(v["zero"], float) * pix
    kw = dict(history=hist, frame=cls)
    eq = lambda a, b: np.allclose(np.array(a, float), np.array(b, float), rtol=1e-9, atol=1e-9)
    require(eq(g.transform_pix2angle, m), "transformation matrix follows the offsets", got=flat(g.transform_pix2angle), want=m.tolist(), **kw)
    require(eq(np.dot(g.transform_angle2pix, m), np.eye(2)), "inverse matrix belongs to the current frame", **kw)
    require(eq(g.radec_at_xy_0, zero), "origin follows the offsets", got=flat(g.radec_at_xy_0), want=zero.tolist(), **kw)
    require(eq(g.xy_at_radec_0, np.array(v["xy0det"], float) / v["det"]), "pixel of the coordinate origin belongs to the current frame",
            got=flat(g.xy_at_radec_0), **kw)
    i, j = np.meshgrid(np.arange(N), np.arange(N))
    ra, dec = zero[0] + m[0, 0] * i + m[0, 1] * j, zero[1] + m[1, 0] * i + m[1, 1] * j
    x, y = g.pixel_coordinates
    require(eq(x, ra) and eq(y, dec), "pixel coordinates belong to the current frame", got=flat(x)[0][:3], want=ra.tolist()[0][:3], **kw)
    require(eq(g.map_pix2coord(2.0, 1.0), np.array(v["probe"], float) * pix), "a pixel maps to its coordinate", got=flat(g.map_pix2coord(2.0, 1.0)), **kw)
    gi, gj = g.map_coord2pix(ra.flatten(), dec.flatten())
    require(eq(gi, i.flatten()) and eq(gj, j.flatten()), "a coordinate maps back to its pixel", **kw)
    s = g.map_coord2pix(*[float(c) * pix for c in v["probe"]])
    require(eq(s, (2, 1)), "a single coordinate maps back to its pixel", got=flat(s), **kw)
    require(eq(g.center, (ra.mean(), dec.mean())), "center of the frame is the mean of its pixels", got=flat(g.center), **kw)
    w = abs(v["det"]) ** 0.5 * pix
    require(eq(g.pixel_width, w) and eq(g.pixel_area, w * w) and eq(g.width, (N * w, N * w)), "pixel area is invariant", got=flat([g.pixel_width, g.pixel_area, g.width]), **kw)


def frame_case(c):
    h, pix, cls = c["hist"], c["pix"], c["cls"]
    g = frame_grid(h[0], cls, pix)
    twin = frame_grid(h[0], cls, pix)
    done = []
    check_frame(g, h[0]["view"], pix, cls, done)
    num = lambda s, f: None if s == 99 else f(s)
    for st in h[1:]:
        if st["op"] == "offsets":
            kw = dict(ra_shift=num(st["ra"], lambda v: v * pix), dec_shift=num(st["dec"], lambda v: v * pix), phi_rot=num(st["rot"], lambda q: q * np.pi / 2))
            done.append(str(kw))
            if c["drop"]:
                kw = {k: v for k, v in kw.items() if v is not None}
            up = g.update_coordinate_grid(**kw)
            require(bool(up) == st["changed"] or (st["changed"] is False), "a change of the frame is reported", history=done, got=str(up))
        else:
            v = [float(a) for a in st["v"]]
            done.append("%s %s" % (st["op"], v))
            if st["op"] == "shift":
                g.shift_coordinate_system(v[0] * pix, v[1] * pix)
            else:
                g.shift_coordinate_system(v[0], v[1], pixel_unit=True)
        check_frame(g, st["view"], pix, cls, done)
    check_frame(twin, h[0]["view"], pix, cls, ["another object", done])


def noise_case(c):
    """an image assembled from pixels of the specification"""
    from lenstronomy.Data.imaging_data import ImageData
    px = c["pixels"]
    n = int(len(px) ** 0.5)
    arr = lambda f: np.array([float(f(p)) for p in px]).reshape(n, n)
    fr = lambda k: arr(lambda p: p[k][0] / p[k][1])
    d, m, e, b, nm, x, mask = [arr(lambda p, k=k: p["px"][k]) for k in "dmebnxk"]
    kw = dict(image_data=d, transform_pix2angle=np.eye(2) * 0.1)
    if c["noise_map"]:
        kw["noise_map"] = nm
        if c["extra_kw"]:
            kw.update(exposure_time=e, background_rms=1.0)
    else:
        kw.update(exposure_time=float(e[0, 0]) if c["scalar_e"] else e, background_rms=float(b[0, 0]) if c["scalar_b"] else b)
    keep = copy.deepcopy(kw)
    o = ImageData(**kw)
    for rep in (0, 1):
        require(np.allclose(o.C_D, fr("vd"), rtol=1e-10), "covariance of the data", got=flat(o.C_D), want=fr("vd").tolist())
        require(np.allclose(o.C_D_model(m), fr("vm"), rtol=1e-10), "covariance of the model", got=flat(o.C_D_model(m)), want=fr("vm").tolist())
        got, want = o.log_likelihood(m, mask, additional_error_map=x), -0.5 * fr("chi2").sum()
        require(close(float(got), float(want), 1e-9, 1e-9), "log likelihood is minus half the chi2 of the unmasked pixels", got=float(got), want=float(want))
        require(np.array_equal(o.data, d), "the data are the data")
        if not c["noise_map"]:
            require(np.array_equal(o.background_rms, kw["background_rms"]) and np.array_equal(o.exposure_map, kw["exposure_time"]), "noise properties are those given")
    require(same(flat(kw), flat(keep), 0, 0), "data handed in are not altered", before=str(flat(keep))[:300], after=str(flat(kw))[:300])


# ------------------------------------------------------------------ sessions

def kern(n, s, dx=0.0, fac=1):
    g = np.arange(n) - (n - 1) / 2
    k = np.exp(-((g[:, None] / fac) ** 2 + ((g[None, :] - dx) / fac) ** 2) / 2 / s ** 2)
    return k


def psf_kwargs(v):
    return {1: dict(psf_type="PIXEL", kernel_point_source=kern(7, 1.2, 0.2) * 3, psf_variance_map=0.01 * kern(7, 1.0)),
            2: dict(psf_type="GAUSSIAN", fwhm=0.35, truncation=4),
            3: dict(psf_type="PIXEL", kernel_point_source=kern(15, 1.1, 0.4, 3), point_source_supersampling_factor=3),
            4: dict(psf_type="NONE"),
            5: dict(psf_type="PIXEL", kernel_point_source=kern(9, 0.9, -0.3), kernel_point_source_normalisation=False)}[v]


class Psf(Target):
    version = 1
    slots = {"pix": [1, 2, 3]}
    queries = ["kernel", "pixel", "ss1", "ss2", "ss3", "ss3_nocache", "fwhm", "variance", "factor"]
    args = [1]

    def build(self, cur):
        from lenstronomy.Data.psf import PSF
        kw = psf_kwargs(self.version)
        keep = copy.deepcopy(kw)
        p = PSF(pixel_size={1: 0.1, 2: 0.05, 3: 0.13}[cur.get("pix", 1)], **kw)
        require(same(flat(kw), flat(keep), 0, 0), "PSF kernels handed in are not altered")
        return p

    def set(self, obj, name, value, cur):
        obj.set_pixel_size({1: 0.1, 2: 0.05, 3: 0.13}[value])

    def ask(self, o, q, a):
        if q == "kernel":
            k = o.kernel_point_source
        elif q == "pixel":
            k = o.kernel_pixel
        elif q.startswith("ss"):
            k = o.kernel_point_source_supersampled(int(q[2]), updata_cache=not q.endswith("nocache"))
        elif q == "fwhm":
            return o.fwhm if self.version != 4 else 0
        elif q == "variance":
            return o.psf_variance_map
        else:
            return o.point_source_supersampling_factor
        k = np.array(k)
        require(k.ndim == 2 and k.shape[0] == k.shape[1] and k.shape[0] % 2 == 1, "kernels are square with odd axes", shape=list(k.shape))
        if self.version != 5:
            require(abs(k.sum() - 1) < 1e-6, "normalized kernels sum to one", question=q, got=float(k.sum()))
        else:
            require(abs(k.sum() - kern(9, 0.9, -0.3).sum()) < 1e-6 * k.sum(), "kernels keep the sum of the input", question=q, got=float(k.sum()))
        return k


class Psf2(Psf):
    version = 2


class Psf3(Psf):
    version = 3


class Psf4(Psf):
    version = 4


class Psf5(Psf):
    version = 5


class Data(Target):
    """ImageData with data updates and offsets"""
    slots = {"data": [1, 2, 3], "ra": [1, 2], "rot": [1, 2]}
    queries = ["C_D", "C_D_model", "logL", "data", "coords", "pix"]
    kind = "poisson"

    def data(self, v):
        r = np.random.RandomState(v)
        return r.normal(1.0, 2.0, (N, N))

    def build(self, cur):
        from lenstronomy.Data.imaging_data import ImageData
        r = np.random.RandomState(9)
        kw = dict(background_rms=0.5, exposure_time=r.uniform(1, 3, (N, N))) if self.kind != "map" else dict(noise_map=r.uniform(0.5, 1, (N, N)))
        if self.kind == "boost":
            kw["gradient_boost_factor"] = 0.7
        d = ImageData(image_data=self.data(cur.get("data", 1)), transform_pix2angle=np.array([[0.1, 0.01], [-0.02, 0.11]]), ra_at_xy_0=-0.4, dec_at_xy_0=0.3, **kw)
        if cur.get("ra", 1) == 2 or cur.get("rot", 1) == 2:
            d.update_coordinate_grid(ra_shift=[0, 0.21][cur["ra"] - 1], phi_rot=[0, 0.4][cur["rot"] - 1])
        return d

    def set(self, obj, name, value, cur):
        if name == "data":
            obj.update_data(self.data(value))
        elif name == "ra":
            obj.update_coordinate_grid(ra_shift=[0, 0.21][value - 1])
        else:
            obj.update_coordinate_grid(phi_rot=[0, 0.4][value - 1])

    def ask(self, o, q, a):
        m = np.random.RandomState(20 + a).normal(1.0, 1.0, (N, N))
        keep = m.copy()
        mask = np.random.RandomState(30 + a).randint(0, 2, (N, N))
        if q == "C_D":
            out = o.C_D
        elif q == "C_D_model":
            out = o.C_D_model(m)
        elif q == "logL":
            out = o.log_likelihood(m, mask, additional_error_map=0.1 * a)
        elif q == "data":
            out = o.data
        elif q == "coords":
            out = [o.pixel_coordinates, o.center, o.width]
        else:
            out = [o.map_coord2pix(np.array([0.1, 0.2]), np.array([0.0, -0.2])), o.map_pix2coord(1.0 * a, 2.0)]
        require(np.array_equal(m, keep), "the model handed in is not altered", question=q)
        return out


class DataMap(Data):
    kind = "map"


class DataBoost(Data):
    kind = "boost"


class Image(Target):
    """ImageModel with data and PSF updates; every call states the offsets of its frame"""
    slots = {"psf": [1, 2, 3, 4], "data": [1, 2, 3]}
    queries = ["image", "source", "lens_light", "points", "logL", "error", "unconvolved", "residuals", "variance", "response"]
    args = [1, 2, 3]
    numerics = dict(supersampling_factor=1)
    offsets = False
    linear = False
    rtol, atol = 1e-8, 1e-10

    def data(self, v):
        from lenstronomy.Data.imaging_data import ImageData
        r = np.random.RandomState(v)
        kw = {1: dict(ra_at_xy_0=-1.0, dec_at_xy_0=-1.0), 2: dict(ra_at_xy_0=-1.05, dec_at_xy_0=-0.9, flux_scaling=1.7),
              3: dict(ra_at_xy_0=-1.0, dec_at_xy_0=-1.0, phi_rot=0.3)}[v]
        pix = 0.2 if v != 2 else 0.18
        return ImageData(image_data=r.normal(0.5, 0.3, (N, N)), background_rms=0.2 * v, exposure_time=20.0, transform_pix2angle=np.array([[pix, 0.0], [0.01, pix]]), **kw)

    def psf(self, v):
        from lenstronomy.Data.psf import PSF
        return PSF(**psf_kwargs(v))

    def build(self, cur):
        from lenstronomy.ImSim.image_model import ImageModel
        from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
        from lenstronomy.LensModel.lens_model import LensModel
        from lenstronomy.LightModel.light_model import LightModel
        from lenstronomy.PointSource.point_source import PointSource
        lens = LensModel(["SIS", "SHEAR"])
        mask = np.random.RandomState(3).randint(0, 4, (N, N)) > 0
        cls = ImageLinearFit if self.linear else ImageModel
        return cls(self.data(cur.get("data", 1)), self.psf(cur.get("psf", 1)), lens_model_class=lens, source_model_class=LightModel(["SERSIC", "GAUSSIAN"]),
                   lens_light_model_class=LightModel(["GAUSSIAN_ELLIPSE"]), point_source_class=PointSource(["LENSED_POSITION", "UNLENSED"]),
                   kwargs_numerics=copy.deepcopy(self.numerics), likelihood_mask=mask)

    def set(self, obj, name, value, cur):
        if name == "psf":
            obj.update_psf(self.psf(value))
        else:
            obj.update_data(self.data(value))

    def kw(self, a):
        sp = None
        if self.offsets:
            sp = dict(kwargs_offsets=[dict(ra_shift=[0.0, 0.13, -0.07][a - 1], dec_shift=[0.0, 0.0, 0.11][a - 1], phi_rot=[0.0, 0.2, 0.0][a - 1])])
        return dict(kwargs_lens=[dict(theta_E=0.5 + 0.1 * a, center_x=0.01, center_y=0.02), dict(gamma1=0.03 * a, gamma2=-0.02)],
                    kwargs_source=[dict(amp=2.0 * a, R_sersic=0.3, n_sersic=1.5, center_x=0.05 * a, center_y=0.1), dict(amp=1.0, sigma=0.2, center_x=-0.1, center_y=0.05 * a)],
                    kwargs_lens_light=[dict(amp=3.0, sigma=0.3, e1=0.1, e2=0.05 * a, center_x=0.02, center_y=-0.02)],
                    kwargs_ps=[dict(ra_image=np.array([0.4, -0.5]), dec_image=np.array([0.1 * a, -0.2]), point_amp=np.array([2.0, 1.0 + a])),
                               dict(ra_image=np.array([-0.3]), dec_image=np.array([0.5 - 0.1 * a]), point_amp=np.array([1.5]))],
                    kwargs_special=sp)

    def ask(self, o, q, a):
        kw = self.kw(a)
        keep = flat(copy.deepcopy(kw))
        kl, ks, kll, kp, sp = [kw[k] for k in ("kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", "kwargs_special")]
        if q == "image":
            out = o.image(**kw)
        elif q == "unconvolved":
            out = o.image(unconvolved=True, **kw)
        elif q == "source":
            out = o.source_surface_brightness(ks, kl, kwargs_special=sp)
        elif q == "lens_light":
            out = o.image(source_add=False, point_source_add=False, **kw)
        elif q == "points":
            out = o.point_source(kp, kl, kwargs_special=sp) if not self.offsets else o.image(source_add=False, lens_light_add=False, **kw)
        elif q == "logL":
            out = o.likelihood_data_given_model(**kw)
        elif q == "error":
            if self.offsets:
                o.image(**kw)
            out = list(o.error_response(kl, kp, sp))
        elif q == "residuals":
            im = o.image(**kw)
            out = [o.reduced_residuals(im), o.reduced_chi2(im), o.num_data_evaluate]
        elif q == "variance":
            out = o.variance_map(**kw)
        elif q == "response":
            out = [o.data_response, o.array_masked2image(o.data_response)]
        elif q == "solve":
            out = list(o.image_linear_solve(**kw))[:3:2]
        elif q == "linear_response":
            out = o.linear_response_matrix(**kw)
        elif q == "num_param":
            out = o.num_param_linear(**{k: v for k, v in kw.items() if k != "kwargs_special"})
        if not (self.linear and q in ("solve", "logL")):  # the linear solution is written into the parameters
            require(same(flat(kw), keep, 0, 0), "model parameters handed in are not altered", question=q)
        return out


class ImageSuper(Image):
    numerics = dict(supersampling_factor=2, supersampling_convolution=True)


class ImageOffsets(Image):
    offsets = True
    slots = {"psf": [1, 2, 4]}
    numerics = dict(supersampling_factor=2)


class ImageAdaptive(Image):
    slots = {"psf": [1, 3], "data": [1, 2, 3]}
    numerics = dict(supersampling_factor=3, compute_mode="adaptive", supersampled_indexes=np.random.RandomState(5).randint(0, 2, (N, N)) > 0,
                    supersampling_convolution=True, supersampling_kernel_size=5)


class Linear(Image):
    linear = True
    queries = ["image", "logL", "solve", "linear_response", "num_param", "error", "response", "residuals"]


class LinearOffsets(Linear):
    offsets = True
    slots = {"psf": [1, 2, 4]}


TARGETS = {c.__name__: c() for c in (Psf, Psf2, Psf3, Psf4, Psf5, Data, DataMap, DataBoost, Image, ImageSuper, ImageOffsets, ImageAdaptive, Linear, LinearOffsets)}


def data_session_case(c):
    return session_case(TARGETS, c)


CASES = dict(frame=frame_case, noise=noise_case, session=data_session_case)


def main(pid):
    import lenstronomy.ImSim.image_linear_solve, lenstronomy.Data.imaging_data, lenstronomy.LightModel.light_model, lenstronomy.PointSource.point_source  # noqa
    import lenstronomy.LightModel.Profiles.sersic, lenstronomy.LensModel.lens_model  # noqa
    ck = Check(pid)
    rng = ck.rng
    mats = Raw("{<<1, 0, 0, 1>>, <<-1, 0, 0, 1>>, <<2, 1, 0, 1>>, <<0, 3, -1, 1>>}")
    org = Raw("{<<0, 0>>, <<3, -2>>}")
    g = dict(Matrices=mats, Origins=org, Shifts=Raw("{-1, 0, 2}"))
    inv = dict(invariants=["Inverse", "Area", "Reference", "Emit"])
    deep = 7
    one, sim, nz = ck.mc_all([
        ("PixelGrid", dict(g, Depth=1), inv, {}),
        ("PixelGrid", dict(g, Depth=deep), inv, dict(sim=dict(num=3000 if THOROUGH else 250, depth=deep + 1, seed=SEED))),
        ("PixelNoise", dict(Values=Raw("{-2, 0, 1, 4}"), Models=Raw("{-1, 0, 2, 5}"), Exposures=Raw("{1, 2, 5}"), Backgrounds=Raw("{1, 3}"), NoiseMaps=Raw("{0, 1, 2}"),
                            Extras=Raw("{0, 1, 3}")), dict(invariants=["Positive", "Monotone", "Negative", "Emit"]), {})])
    cases = []
    for i, rec in enumerate(one.records + behaviours(sim.records)):
        cases.append(dict(hist=rec["hist"], pix=[0.05, 0.13, 1.0][i % 3], cls=["grid", "image"][i % 2], drop=i % 4 > 1))
    rng.shuffle(cases)
    ck.run_cases(frame_case, cases, "frame")
    cases = []
    poisson = [r for r in nz.records if r["px"]["n"] == 0]
    maps = [r for r in nz.records if r["px"]["n"] != 0]
    for i in range(2000 if THOROUGH else 150):
        c = dict(noise_map=i % 3 == 0, extra_kw=i % 2 == 0, scalar_e=i % 4 == 1, scalar_b=i % 5 < 2)
        pool = maps if c["noise_map"] else poisson
        if not c["noise_map"]:
            e, b = rng.choice([1, 2, 5]), rng.choice([1, 3])
            pool = [r for r in pool if (r["px"]["e"] == e or not c["scalar_e"]) and (r["px"]["b"] == b or not c["scalar_b"])]
        c["pixels"] = [rng.choice(pool) for _ in range(36)]
        cases.append(c)
    ck.run_cases(noise_case, cases, "noise")
    k = 4 if THOROUGH else 1
    plan = {n: (3, (12, 40 * k)) for n in ("Psf", "Psf2", "Psf3", "Psf4", "Psf5", "Data", "DataMap", "DataBoost")}
    plan.update({n: (2, (10, 25 * k)) for n in ("Image", "ImageSuper", "ImageOffsets", "ImageAdaptive", "Linear", "LinearOffsets")})
    run_sessions(ck, TARGETS, data_session_case, plan, deep_limit=2000 if THOROUGH else 120)
    ck.assumptions += ["square images", "where frames are offset, every call states all three offsets"]
    return ck.finish()
