"""C12: where surface brightness is evaluated and how it makes up the image (specs/SuperGrid.tla replayed into Numerics)."""
import copy, warnings
import numpy as np
from common import *
from session import flat

warnings.filterwarnings("ignore")


def frame(r, kind):
    """a pixel frame: axis-aligned, turned, sheared or mirrored"""
    w = r.uniform(0.05, 0.5)
    if kind == "plain":
        m = np.eye(2)
    elif kind == "mirror":
        m = np.array([[-1.0, 0], [0, 1]])
    else:
        p = r.uniform(0, 2 * np.pi)
        m = np.array([[np.cos(p), -np.sin(p)], [np.sin(p), np.cos(p)]])
        if kind == "shear":
            m = m @ np.array([[1, r.uniform(-0.5, 0.5)], [0, r.choice([-1, 1]) * r.uniform(0.6, 1.6)]])
    return w * m, r.uniform(-3, 3, 2)


def mask(nx, ny, pix):
    a = np.zeros((ny, nx), bool)
    for i, j in pix:
        a[j, i] = True
    return a


def grid_case(c):
    from lenstronomy.Data.pixel_grid import PixelGrid
    from lenstronomy.Data.psf import PSF
    from lenstronomy.ImSim.Numerics.numerics import Numerics
    from lenstronomy.ImSim.Numerics.numerics_subframe import NumericsSubFrame
    nx, ny, f, ad = c["nx"], c["ny"], c["f"], c["ad"]
    r = np.random.RandomState(c["seed"])
    m, o = frame(r, c["kind"])
    grid = PixelGrid(nx=nx, ny=ny, transform_pix2angle=m, ra_at_xy_0=o[0], dec_at_xy_0=o[1])
    area = abs(np.linalg.det(m))
    ev, ss = mask(nx, ny, c["ev"]), mask(nx, ny, c["ss"])
    psf = PSF(psf_type="NONE")
    if c["conv"]:
        k = np.zeros((3, 3))
        k[1, 1] = 1
        psf = PSF(psf_type="PIXEL", kernel_point_source=k)
    kw = dict(supersampling_factor=f, compute_mode="adaptive" if ad else "regular")
    if not (c["all_none"] and ev.all()):
        kw["flux_evaluate_indexes"] = ev
    if ad and not (c["all_none"] and not ss.any()):
        kw["supersampled_indexes"] = ss
    keep = copy.deepcopy({k: v for k, v in kw.items()})
    where = dict(frame=c["kind"], sub=c["sub"], nx=nx, ny=ny, f=f, adaptive=ad)
    num = (NumericsSubFrame if c["sub"] else Numerics)(grid, psf, **kw)
    want = {tuple(e["q"]): e["v"] for e in c["val"]}
    inv = np.linalg.inv(m)
    for k in c["order"]:
        x, y = num.coordinates_evaluate
        require(len(x) == len(y) == len(want), "every sample is evaluated once and nothing else", got=len(x), want=len(want), **where)
        p = inv @ np.array([np.asarray(x) - o[0], np.asarray(y) - o[1]]) * 2 * f
        q = np.rint(p)
        require(np.max(np.abs(p - q)) < 1e-6, "samples are where the specification puts them", off=float(np.max(np.abs(p - q))), **where)
        q = [(int(a), int(b)) for a, b in q.T]
        require(len(set(q)) == len(q) and set(q) == set(want), "every sample is evaluated once and nothing else", extra=sorted(set(q) - set(want))[:5], missing=sorted(set(want) - set(q))[:5], **where)
        flux = np.array([float(want[a][k - 1]) for a in q])
        keepf = flux.copy()
        img = num.re_size_convolve(flux, unconvolved=c["unconv"])
        require(np.array_equal(flux, keepf), "the evaluated values are not altered", **where)
        require(np.shape(img) == (ny, nx), "image has the shape of the data", got=np.shape(img), **where)
        exp = np.zeros((ny, nx))
        for e in c["px"]:
            exp[e["p"][1], e["p"][0]] = e["img"][k - 1] / f ** 2 * area
        require(np.allclose(img, exp, 1e-9, 1e-9 * area), "a pixel is the mean of its samples times its area", got=(img / area).tolist(), want=(exp / area).tolist(), **where)
        if not c["conv"] and not c["sub"]:
            low, high = num.grid_class.flux_array2image_low_high(flux, high_res_return=True)
            require(np.allclose(low, exp / area, 1e-9, 1e-9), "low resolution image", **where)
            if high is not None and f > 1:
                eh = np.zeros((ny * f, nx * f))
                for e in c["px"]:
                    if len(e["pts"]) == f * f:
                        for a, b in e["pts"]:
                            eh[(b - 1 + f) // 2, (a - 1 + f) // 2] = want[(a, b)][k - 1]
                require(np.shape(high) == eh.shape and np.allclose(high, eh, 1e-9, 1e-9), "high resolution image", **where)
    for k, v in keep.items():
        require(np.array_equal(kw[k], v), "masks handed in are not altered", which=k, **where)


def model_case(c):
    """the same through an image model: pixels are means of the surface brightness at their samples"""
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.ImSim.image_model import ImageModel
    nx, ny, f, ad = c["nx"], c["ny"], c["f"], c["ad"]
    r = np.random.RandomState(c["seed"])
    m, o = frame(r, c["kind"])
    data = ImageData(image_data=np.zeros((ny, nx)), transform_pix2angle=m, ra_at_xy_0=o[0], dec_at_xy_0=o[1])
    ev, ss = mask(nx, ny, c["ev"]), mask(nx, ny, c["ss"])
    kwn = dict(supersampling_factor=f, compute_mode="adaptive" if ad else "regular", flux_evaluate_indexes=ev)
    if ad:
        kwn["supersampled_indexes"] = ss
    cx, cy = m @ np.array([(nx - 1) / 2, (ny - 1) / 2]) + o
    w = np.sqrt(abs(np.linalg.det(m)))
    kll = [dict(amp=3.0, sigma=1.5 * w, center_x=cx + w, center_y=cy)]
    ks = [dict(amp=2.0, sigma=1.0 * w, center_x=cx, center_y=cy - 0.3 * w)]
    kl = [dict(theta_E=1.2 * w, center_x=cx + 0.01 * w, center_y=cy + 0.02 * w)]
    ll, src, lens = LightModel(["GAUSSIAN"]), LightModel(["GAUSSIAN"]), LensModel(["SIS"])
    im = ImageModel(data, PSF(psf_type="NONE"), lens_model_class=lens, source_model_class=src, lens_light_model_class=ll, kwargs_numerics=kwn)
    area = abs(np.linalg.det(m))

    def mean(fun):
        out = np.zeros((ny, nx))
        for e in c["px"]:
            if e["pts"]:
                q = np.array(e["pts"], float).T / (2 * f)
                x, y = m @ q + o[:, None]
                out[e["p"][1], e["p"][0]] = np.mean(fun(x, y)) * area
        return out

    g = lambda x, y, k: k["amp"] / (2 * np.pi * k["sigma"] ** 2) * np.exp(-((x - k["center_x"]) ** 2 + (y - k["center_y"]) ** 2) / 2 / k["sigma"] ** 2)

    def lensed(x, y):
        dx, dy = x - kl[0]["center_x"], y - kl[0]["center_y"]
        rr = np.hypot(dx, dy)
        return g(x - kl[0]["theta_E"] * dx / rr, y - kl[0]["theta_E"] * dy / rr, ks[0])

    L, S, U = mean(lambda x, y: g(x, y, kll[0])), mean(lensed), mean(lambda x, y: g(x, y, ks[0]))
    where = dict(frame=c["kind"], nx=nx, ny=ny, f=f, adaptive=ad)
    for rep in range(2):
        for got, want, what in ((im.lens_surface_brightness(kll), L, "lens light"), (im.source_surface_brightness(ks, kl), S, "lensed source"),
                                (im.source_surface_brightness(ks, kl, de_lensed=True), U, "unlensed source"),
                                (im.image(kl, ks, kll) if nx == ny else L, L + S if nx == ny else L, "image")):
            require(np.allclose(got, want, 1e-7, 1e-9 * max(1, np.max(want))), "surface brightness of the image is the mean over the samples times the area", which=what,
                    got=np.asarray(got).tolist(), want=want.tolist(), **where)


CASES = dict(grid=grid_case, model=model_case)


def main(pid):
    import lenstronomy.ImSim.image_model, lenstronomy.ImSim.Numerics.numerics_subframe  # noqa
    ck = Check(pid)
    inv = ["Partition", "Enough", "Balanced", "Dark", "Emit"]
    jobs, meta = [], []
    small = [(2, 2, 1), (2, 2, 2), (2, 2, 3), (3, 2, 2), (2, 3, 3)] if THOROUGH else [(2, 2, 2), (2, 2, 3), (2, 3, 2)]
    for nx, ny, f in small:
        for ad in (False, True):
            if ad and nx * ny > 4 and not THOROUGH:
                continue
            jobs.append(("SuperGrid", dict(NX=nx, NY=ny, F=f, Adaptive=ad, Random=False, Evals=2), dict(invariants=inv), {}))
            meta.append((nx, ny, f, ad))
    big = [(4, 4, 2), (5, 3, 3), (3, 5, 4), (6, 5, 2), (4, 6, 3), (5, 5, 5), (7, 7, 1), (6, 6, 4)]
    for nx, ny, f in big if THOROUGH else big[:6]:
        for ad in (False, True):
            for i in range(12 if THOROUGH else 2):
                jobs.append(("SuperGrid", dict(NX=nx, NY=ny, F=f, Adaptive=ad, Random=True, Evals=2), dict(invariants=inv), dict(sim=dict(num=8, depth=4, seed=SEED + 31 * i))))
                meta.append((nx, ny, f, ad))
    cases, models = [], []
    for (nx, ny, f, ad), r in zip(meta, ck.mc_all(jobs, nproc=8)):
        seen = set()
        for rec in r.records:
            key = canon([rec["ev"], rec["ss"] if ad else 0])
            if key in seen:
                continue
            seen.add(key)
            for sub in (False, True):
                c = dict(nx=nx, ny=ny, f=f, ad=ad, sub=sub, kind=ck.rng.choice(["plain", "mirror", "turn", "shear"]), seed=ck.rng.randrange(10 ** 6),
                         conv=ck.rng.random() < 0.3, all_none=ck.rng.random() < 0.5, order=ck.rng.choice([[1], [1, 2], [2, 1, 2]]), **{k: rec[k] for k in ("ev", "ss", "px", "val")})
                c["unconv"] = ck.rng.random() < 0.5
                cases.append(c)
            models.append(dict(c, sub=True))
    ck.rng.shuffle(cases)
    ck.rng.shuffle(models)
    ck.run_cases(grid_case, cases[:20000 if THOROUGH else 2500], "grid")
    ck.run_cases(model_case, models[:3000 if THOROUGH else 250], "model")
    ck.assumptions = ["images composed of several components are square (as documented)", "at least one pixel is evaluated"]
    return ck.finish()
