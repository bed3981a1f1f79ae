"""C13: blurring and point source rendering (specs/Convolution.tla replayed into Numerics and the convolution classes)."""
import copy, warnings
import numpy as np
from common import *
from session import flat
from super_grid import frame, mask

warnings.filterwarnings("ignore")


def kernel(c):
    k = np.zeros((2 * c["r"] + 1,) * 2)
    for e in c["kern"]:
        k[e["k"][1] + c["r"], e["k"][0] + c["r"]] = e["v"]
    return k


def image(c, scale):
    a = np.zeros((c["ny"], c["nx"]))
    for e in c["img"]:
        a[e["k"][1], e["k"][0]] = e["v"] / scale
    return a


def blur_case(c):
    from lenstronomy.ImSim.Numerics.convolution import PixelKernelConvolution, SubgridKernelConvolution
    from lenstronomy.ImSim.Numerics.adaptive_numerics import AdaptiveConvolution
    from lenstronomy.ImSim.Numerics.numerics import Numerics
    from lenstronomy.ImSim.Numerics.numerics_subframe import NumericsSubFrame
    from lenstronomy.Data.pixel_grid import PixelGrid
    from lenstronomy.Data.psf import PSF
    from lenstronomy.Util import kernel_util, image_util
    nx, ny, f, mode, size, cut = c["nx"], c["ny"], c["f"], c["mode"], c["size"], c["cut"]
    r = np.random.RandomState(c["seed"])
    K, want = kernel(c), image(c, 4.0 * f * f)
    H = np.zeros((ny * f, nx * f))
    for l in c["lit"]:
        H[l["s"][1], l["s"][0]] += l["h"]
    low = H.reshape(ny, f, nx, f).mean(3).mean(1)
    marked = mask(nx, ny, c["marked"])
    where = dict(mode=mode, f=f, size=size, cut=cut, r=c["r"], nx=nx, ny=ny, how=c["how"], type=c["type"])
    ok = lambda a, m=None: np.shape(a) == want.shape and np.allclose(a if m is None else a[m], want if m is None else want[m], 1e-9, 1e-8)
    comp = np.ones((ny, nx), bool)
    if mode == "adaptive" and c["comp"]:
        comp = r.rand(ny, nx) < 0.6
    keepK = K.copy()
    if c["how"] == "class" and not cut:
        if mode == "pixel":
            deg = kernel_util.degrade_kernel(K, f)
            conv = PixelKernelConvolution(deg, convolution_type=c["type"])
            run = lambda: conv.re_size_convolve(low, H)
        elif mode in ("sub", "split"):
            conv = SubgridKernelConvolution(K, f, supersampling_kernel_size=None if mode == "sub" else size, convolution_type=c["type"])
            run = (lambda: conv.re_size_convolve(low, H)) if r.randint(2) else (lambda: conv.convolution2d(H))
        else:
            conv = AdaptiveConvolution(K, f, conv_supersample_pixels=marked, supersampling_kernel_size=size, compute_pixels=comp if c["comp"] else None)
            run = (lambda: conv.re_size_convolve(low, H)) if r.randint(2) else (lambda: conv.convolve2d(H))
        kl, kh = low.copy(), H.copy()
        if c["twice"]:
            if mode != "adaptive":
                conv.re_size_convolve(low * 2 + 1, H * 2 + 1)
            run()
        got = run()
        require(ok(got, comp), "blurred image", got=np.asarray(got).tolist(), want=want.tolist(), kernel=K.tolist(), **where)
        require(np.array_equal(kl, low) and np.array_equal(kh, H) and np.array_equal(K, keepK), "images and kernel handed in are not altered", **where)
        return
    m, o = frame(r, c["kind"])
    area = abs(np.linalg.det(m))
    psf = PSF(psf_type="PIXEL", kernel_point_source=K, point_source_supersampling_factor=f, kernel_point_source_normalisation=False) if f > 1 else \
        PSF(psf_type="PIXEL", kernel_point_source=K, kernel_point_source_normalisation=False)
    if c["norm"] and K.sum() > 0:
        psf = PSF(psf_type="PIXEL", kernel_point_source=K, point_source_supersampling_factor=f)
        want = want / K.sum()
    # the frame may be embedded in a larger image, of which only this part is evaluated
    pad = c["pad"] if c["how"] == "frame" else (0, 0, 0, 0)
    NXf, NYf = nx + pad[0] + pad[1], ny + pad[2] + pad[3]
    emb = lambda a: np.pad(a, ((pad[2], pad[3]), (pad[0], pad[1])))
    o0 = o - m @ np.array([pad[0], pad[2]])
    grid = PixelGrid(nx=NXf, ny=NYf, transform_pix2angle=m, ra_at_xy_0=o0[0], dec_at_xy_0=o0[1])
    kw = dict(supersampling_factor=f, convolution_type=c["type"], supersampling_convolution=mode != "pixel")
    if f == 1:
        kw["supersampling_convolution"] = bool(r.randint(2))
    if mode in ("split", "adaptive"):
        kw["supersampling_kernel_size"] = size
    if mode == "sub":
        kw["supersampling_kernel_size"] = None
    if cut:
        kw["convolution_kernel_size"] = cut
    if mode == "adaptive":
        kw.update(compute_mode="adaptive", supersampled_indexes=emb(marked))
        if c["comp"]:
            kw["compute_indexes"] = emb(comp)
    if c["how"] == "frame":
        kw["flux_evaluate_indexes"] = emb(np.ones((ny, nx), bool))
        num = NumericsSubFrame(grid, psf, **kw)
    else:
        num = Numerics(grid, psf, **kw)
    x, y = num.coordinates_evaluate
    p = np.linalg.inv(m) @ np.array([x - o[0], y - o[1]])
    if mode == "adaptive":
        q = np.rint(p).astype(int)
        sub = np.abs(p - q).max(0) > 1e-6
        if f % 2:  # the central sub-pixel is the centre of the pixel
            sub = marked[q[1], q[0]]
        h = np.rint(p * f + (f - 1) / 2).astype(int)
        flux = np.where(sub, H[np.clip(h[1], 0, ny * f - 1), np.clip(h[0], 0, nx * f - 1)], low[q[1], q[0]])
    else:
        h = np.rint(p * f + (f - 1) / 2).astype(int)
        flux = H[h[1], h[0]]
    if c["twice"]:
        num.re_size_convolve(flux * 3 + 1)
    got = num.re_size_convolve(flux) / area
    full = emb(want)
    inside = emb(comp if mode == "adaptive" else np.ones((ny, nx), bool))
    require(np.shape(got) == full.shape, "image has the shape of the data", got=np.shape(got), **where)
    require(np.allclose(got[inside], full[inside], 1e-9, 1e-8), "blurred image", got=got.tolist(), want=full.tolist(), kernel=K.tolist(), **where)
    require(np.allclose(got[~emb(np.ones((ny, nx), bool))], 0, 0, 1e-12), "dark outside the evaluated frame", **where)
    raw = num.re_size_convolve(flux, unconvolved=True) / area
    require(np.allclose(raw, emb(low), 1e-9, 1e-9), "unblurred image", **where)
    require(np.array_equal(K, keepK), "images and kernel handed in are not altered", **where)


def point_case(c):
    from lenstronomy.ImSim.Numerics.numerics import Numerics
    from lenstronomy.Data.pixel_grid import PixelGrid
    from lenstronomy.Data.psf import PSF
    n, f = c["nx"], c["f"]
    r = np.random.RandomState(c["seed"])
    K, want = kernel(c), image(c, 16.0)
    m, o = frame(r, c["kind"])
    grid = PixelGrid(nx=n, ny=n, transform_pix2angle=m, ra_at_xy_0=o[0], dec_at_xy_0=o[1])
    psf = PSF(psf_type="PIXEL", kernel_point_source=K, point_source_supersampling_factor=f, kernel_point_source_normalisation=False)
    if c["norm"]:
        psf = PSF(psf_type="PIXEL", kernel_point_source=K, point_source_supersampling_factor=f)
        want = want / K.sum()
    where = dict(f=f, r=c["r"], n=n, kind=c["kind"])
    kw = {}
    if c["explicit"]:
        kw["point_source_supersampling_factor"] = f
    if c["grid_factor"]:
        kw.update(supersampling_factor=c["grid_factor"])
    num = Numerics(grid, psf, **kw)
    u = np.array([l["s"] for l in c["lit"]], float).T / 4  # in sub-pixels
    p = (u - (f - 1) / 2) / f
    x, y = m @ p + o[:, None]
    a = np.array([float(l["h"]) for l in c["lit"]])
    kx, ky, ka = x.copy(), y.copy(), a.copy()
    for rep in range(1 + c["twice"]):
        got = num.point_source_rendering(x, y, a)
        require(np.shape(got) == want.shape and np.allclose(got, want, 1e-8, 1e-7 * max(1, np.abs(want).max())), "image of the point sources", got=np.asarray(got).tolist(), want=want.tolist(), kernel=K.tolist(), **where)
    require(np.array_equal(x, kx) and np.array_equal(y, ky) and np.array_equal(a, ka), "positions and amplitudes handed in are not altered", **where)
    s = sum(num.point_source_rendering(x[i:i + 1], y[i:i + 1], a[i:i + 1]) for i in range(len(a)))
    require(np.allclose(got, s, 1e-9, 1e-9), "every point source adds its own image", **where)
    # without a PSF: flux and centroid are those of the sources within the frame
    inn = [i for i in range(len(a)) if np.all(p[:, i] > 0.6) and np.all(p[:, i] < n - 1.6)]
    if inn:
        un = num.point_source_rendering(x[inn], y[inn], a[inn], unconvolved=True)
        jj, ii = np.mgrid[:n, :n]
        require(close(float(un.sum()), float(a[inn].sum()), 1e-8, 1e-7), "all light of an unblurred point source is in the frame", got=float(un.sum()), want=float(a[inn].sum()), **where)
        if f == 1:
            for g, w, ax in (((un * ii).sum(), (a[inn] * p[0, inn]).sum(), "x"), ((un * jj).sum(), (a[inn] * p[1, inn]).sum(), "y")):
                require(close(float(g), float(w), 1e-8, 1e-6), "an unblurred point source is where it is", axis=ax, got=float(g), want=float(w), **where)


def gauss_case(c):
    """Gaussian PSF: response to single lit sub-pixels, away from the edge"""
    from lenstronomy.ImSim.Numerics.numerics import Numerics
    from lenstronomy.Data.pixel_grid import PixelGrid
    from lenstronomy.Data.psf import PSF
    n, f, sup = c["n"], c["f"], c["sup"] and c["f"] > 1
    r = np.random.RandomState(c["seed"])
    m, o = frame(r, r.choice(["plain", "mirror", "turn"]))
    w = np.sqrt(abs(np.linalg.det(m)))
    grid = PixelGrid(nx=n, ny=n, transform_pix2angle=m, ra_at_xy_0=o[0], dec_at_xy_0=o[1])
    fwhm, trunc = c["fwhm"] * w, c["trunc"]
    kw = dict(supersampling_factor=f, supersampling_convolution=c["sup"])
    if c["tc"]:
        kw["truncation_conv"] = trunc
    num = Numerics(grid, PSF(psf_type="GAUSSIAN", fwhm=fwhm, pixel_size=w, truncation=9 if c["tc"] else trunc), **kw)
    s = fwhm / w / 2.3548200450309493 * (f if sup else 1)
    rad = int(trunc * s + 0.5)
    g = np.exp(-np.arange(-rad, rad + 1) ** 2 / 2 / s ** 2)
    g /= g.sum()
    step = f if sup else 1
    margin = -(-rad // step) + 1
    if 2 * margin + 1 > n:
        return
    H = np.zeros((n * f, n * f))
    for _ in range(3):
        i, j = r.randint(margin * f, (n - margin) * f, 2)
        H[j, i] += r.randint(1, 9)
    D = lambda a: a.reshape(n, f, n, f).mean(3).mean(1)
    from scipy.signal import convolve2d
    want = D(convolve2d(H, np.outer(g, g), "same")) if sup else convolve2d(D(H), np.outer(g, g), "same")
    x, y = num.coordinates_evaluate
    p = np.rint((np.linalg.inv(m) @ np.array([x - o[0], y - o[1]])) * f + (f - 1) / 2).astype(int)
    got = num.re_size_convolve(H[p[1], p[0]]) / w ** 2
    require(np.allclose(got, want, 1e-7, 1e-9), "blurred image", f=f, sup=sup, fwhm=c["fwhm"], trunc=trunc, got=float(np.abs(got - want).max()))
    got = num.re_size_convolve(H[p[1], p[0]], unconvolved=True) / w ** 2
    require(np.allclose(got, D(H), 1e-9, 1e-9), "unblurred image", f=f)


CASES = dict(blur=blur_case, point=point_case, gauss=gauss_case)


def main(pid):
    import lenstronomy.ImSim.image_model, lenstronomy.ImSim.Numerics.adaptive_numerics  # noqa
    ck = Check(pid)
    inv = ["Conserved", "SplitIsSub", "Emit"]
    rng = ck.rng
    jobs, meta = [], []

    def add(mode, nx, ny, f, r, size, cut, num):
        jobs.append(("Convolution", dict(NX=nx, NY=ny, F=f, R=r, Mode=mode, Size=size, Cut=cut, Lights=rng.choice([1, 2, 3])), dict(invariants=inv), dict(sim=dict(num=num, depth=6, seed=rng.randrange(10 ** 6)))))
        meta.append(dict(mode=mode, nx=nx, ny=ny, f=f, r=r, size=size, cut=cut))

    T = THOROUGH
    for _ in range(10 if T else 1):
        for f in (1, 2, 3, 4, 5):
            for mode in ("pixel", "sub", "split", "adaptive", "point"):
                if f == 1 and mode not in ("pixel", "point"):
                    continue
                for k in range(2):
                    rr = rng.choice([f, f + 1, 2 * f, (5 * f - 1) // 2, 3 * f + 1] if f > 1 else [1, 2, 3])
                    size = rng.choice([1, 3, 5])
                    if mode == "adaptive":
                        size = rng.choice([s for s in (1, 3) if (s * f) // 2 <= rr])
                    cut = 0
                    if mode in ("pixel", "sub", "split") and rng.random() < 0.4:
                        cut = rng.choice([1, 3])
                        if (cut * f + (cut * f + 1) % 2 - 1) // 2 > rr:
                            cut = 1
                        if (cut * f + (cut * f + 1) % 2 - 1) // 2 > rr or (mode == "split" and cut < size):
                            cut = 0
                    nx, ny = rng.choice([(4, 4), (5, 5), (5, 3), (3, 6), (6, 6), (7, 7)])
                    if mode == "point":
                        nx = ny = rng.choice([4, 5, 7])
                    add(mode, nx, ny, f, rr, size, cut, 6)
    cases, points = [], []
    for mm, r in zip(meta, ck.mc_all(jobs, nproc=8)):
        seen = set()
        for rec in r.records:
            key = canon([rec["kern"], rec["lit"], rec["marked"]])
            if key in seen:
                continue
            seen.add(key)
            b = dict(mm, seed=rng.randrange(10 ** 6), kind=rng.choice(["plain", "mirror", "turn", "shear"]), twice=rng.random() < 0.5, norm=rng.random() < 0.3,
                     **{k: rec[k] for k in ("kern", "lit", "marked", "img")})
            if mm["mode"] == "point":
                points.append(dict(b, explicit=rng.random() < 0.5, grid_factor=rng.choice([0, 0, 2, 3])))
                continue
            for how in ("class", "grid", "frame"):
                if how == "class" and mm["cut"]:
                    continue
                cases.append(dict(b, how=how, type=rng.choice(["fft", "grid", "fft_static", "fft_static"]), comp=rng.random() < 0.5, pad=[rng.randrange(3) for _ in range(4)]))
    gs = [dict(n=rng.choice([15, 17, 20]), f=f, sup=sup, fwhm=rng.uniform(1.0, 2.5), trunc=rng.choice([2, 3, 4]), tc=rng.random() < 0.5, seed=rng.randrange(10 ** 6))
          for f in (1, 2, 3, 4) for sup in (False, True) for _ in range(60 if T else 6)]
    rng.shuffle(cases)
    ck.run_cases(blur_case, cases, "blur")
    ck.run_cases(point_case, points, "point")
    ck.run_cases(gauss_case, gs, "gauss")
    ck.assumptions = ["kernels of odd size", "adaptive blurring is judged at the pixels it is asked for", "Gaussian kernels are judged away from the edge of the frame"]
    return ck.finish()
