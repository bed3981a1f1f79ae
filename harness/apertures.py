"""C19: apertures and masks (specs/Aperture.tla replayed into GalKin apertures and mask_util), and maps of turned and mirrored grids."""
import copy, warnings
import numpy as np
from common import *
from session import flat

warnings.filterwarnings("ignore")
NAME = dict(slit="slit", frame="frame", shell="shell", shells="IFU_shells", grid="IFU_grid", binned="IFU_binned", general="general_aperture")
MASKS = ("disc", "ring", "ellipse")


def geometry(c):
    """sky positions and numbers of the specification in arcseconds"""
    r = np.random.RandomState(c["seed"])
    u = r.uniform(0.02, 0.2)
    t = r.uniform(-1, 1, 2) if c["shift"] else np.zeros(2)
    return u, t, (lambda q: np.array(q, float) / 5 * u + t)


def arrays(c, pos):
    a = c["ap"]
    x, y, b = np.zeros((a["ny"], a["nx"])), np.zeros((a["ny"], a["nx"])), np.zeros((a["ny"], a["nx"]), int)
    for e in c["px"]:
        i, j = e["p"][1], e["p"][0]
        x[i, j], y[i, j] = pos(e["q"])
        b[i, j] = e["b"]
    return x, y, b


def kwargs_aperture(c):
    a, k = c["ap"], c["kind"]
    u, t, pos = geometry(c)
    d = 12 * u
    angle = float(np.arctan2(a["rot"][1], a["rot"][0])) + 2 * np.pi * c["turns"]
    cen = np.array(a["c"], float) * u + t
    pad = 0.0 if a["pad"] == 0 else (a["pad"] + 0.5) * d / a["padf"]
    x, y, b = arrays(c, pos)
    kw = dict(center_ra=cen[0], center_dec=cen[1], delta_pix=d, padding_arcsec=pad)
    if k == "slit":
        kw.update(length=a["nx"] * d, width=a["ny"] * d, angle=angle)
    elif k == "frame":
        kw.update(width_outer=a["nx"] * d, width_inner=a["win"] * u, angle=angle)
    elif k == "shell":
        kw.update(r_in=a["r"][0] * u, r_out=a["r"][1] * u)
    elif k == "shells":
        kw.update(r_bins=np.array(a["r"], float) * u)
    elif k in ("grid", "binned"):
        kw = dict(x_grid=x, y_grid=y, padding_arcsec=pad, angle=angle)
        if k == "binned":
            kw["bins"] = b
    else:
        r = np.random.RandomState(c["seed"] + 1)
        o = r.permutation(x.size)
        kw = dict(x_cords=x.ravel()[o], y_cords=y.ravel()[o], bins=b.ravel()[o], delta_pix=d)
    return kw, (x, y, b), d


def aperture_case(c):
    from lenstronomy.GalKin.aperture import Aperture
    a, k = c["ap"], c["kind"]
    u, t, pos = geometry(c)
    kw, (x, y, b), d = kwargs_aperture(c)
    keep = copy.deepcopy(kw)
    where = dict(kind=k, ap={n: v for n, v in a.items() if n != "bins"})
    ap = Aperture(NAME[k], **kw)
    nb = int(b.max()) + 1
    require(tuple(np.atleast_1d(ap.num_segments)) == ((a["ny"], a["nx"]) if k == "grid" else (nb if k != "shells" else len(a["r"]) - 1,)), "number of segments", got=flat(ap.num_segments), **where)
    require(close(float(ap.delta_pix), d, 1e-9, 0), "pixel size", got=float(ap.delta_pix), want=d, **where)
    count = {}
    for h in c["hist"]:
        if h["op"] == "photon":
            ra, dec = pos(h["q"])
            ok, seg = ap.aperture_select(float(ra), float(dec))
            require(bool(ok) == (h["bin"] >= 0), "position is inside the aperture or not", q=h["q"], got=bool(ok), want=h["bin"], **where)
            if ok:
                want = (h["pix"][1], h["pix"][0]) if k == "grid" else h["bin"]
                require((tuple(int(s) for s in seg) if k == "grid" else int(seg)) == want, "segment of a position", q=h["q"], got=str(seg), want=str(want), **where)
                count[h["bin"]] = count.get(h["bin"], 0) + 1
        else:
            f, P = h["f"], h["pad"]
            xs, ys = ap.aperture_sample(f)
            if k == "general":
                sh = (len(kw["x_cords"]),)
                by = {tuple(np.round(pos(e["q"]), 9)): e["v"] for e in h["pts"]}
                require(np.shape(xs) == sh and {tuple(np.round(p, 9)) for p in zip(xs, ys)} == set(by), "samples of the aperture", **where)
                val = np.array([by[tuple(np.round(p, 9))] for p in zip(xs, ys)], float)
            else:
                sh = (a["ny"] * f + 2 * P, a["nx"] * f + 2 * P)
                require(np.shape(xs) == sh and np.shape(ys) == sh, "size of the sampled map", f=f, got=np.shape(xs), want=sh, **where)
                wx, wy, val = np.zeros(sh), np.zeros(sh), np.zeros(sh)
                for e in h["pts"]:
                    i, j = e["g"][1] + P, e["g"][0] + P
                    wx[i, j], wy[i, j] = pos(e["q"])
                    val[i, j] = e["v"]
                off = max(np.abs(xs - wx).max(), np.abs(ys - wy).max())
                require(off < 1e-8 * max(1, d), "samples of the aperture", f=f, pad=P, off=float(off / d), **where)
            v0 = val.copy()
            got = np.asarray(ap.aperture_downsample(val, f), float)
            require(np.array_equal(val, v0), "the sampled map is not altered", **where)
            want = np.array([e["sum"] / e["n"] for e in sorted(h["sums"], key=lambda e: e["b"])])
            if k == "grid":
                want = want.reshape(a["ny"], a["nx"])
            require(np.shape(got) == np.shape(want) and np.allclose(got, want, 1e-10, 1e-10), "a segment is the mean of its samples", f=f, pad=P, got=got.tolist(), want=want.tolist(), **where)
    require(sorted(count.items()) == sorted(map(tuple, c["count"])), "every photon is counted in its segment", got=count, want=c["count"], **where)
    for n, v in keep.items():
        require(np.array_equal(kw[n], v), "arguments are not altered", which=n, **where)


def mask_case(c):
    from lenstronomy.Util import mask_util
    a, k = c["ap"], c["kind"]
    u, t, pos = geometry(c)
    x, y, b = arrays(c, pos)
    ph = [h for h in c["hist"] if h["op"] == "photon"]
    px, py = np.array([pos(h["q"]) for h in ph]).T
    cen = np.array(a["c"], float) * u + t
    rad = np.array(a["r"], float) * u
    angle = float(np.arctan2(a["rot"][1], a["rot"][0])) + 2 * np.pi * c["turns"]
    for X, Y, B in ((x, y, b), (x.ravel(), y.ravel(), b.ravel()), (px, py, np.array([h["bin"] for h in ph]))):
        X0, Y0 = X.copy(), Y.copy()
        if k == "disc":
            out = [(mask_util.mask_azimuthal(X, Y, cen[0], cen[1], rad[0]), 1), (mask_util.mask_center_2d(cen[0], cen[1], rad[0], X, Y), 0),
                   (mask_util.mask_ellipse(X, Y, cen[0], cen[1], rad[0], rad[0], 0.3), 1), (mask_util.mask_eccentric(X, Y, cen[0], cen[1], 0, 0, rad[0]), 1)]
        elif k == "ring":
            out = [(mask_util.mask_shell(X, Y, cen[0], cen[1], rad[0], rad[1]), 1)]
        else:
            q = a["r"][1] / a["r"][0]
            e = (1 - q) / (1 + q)
            out = [(mask_util.mask_ellipse(X, Y, cen[0], cen[1], rad[0], rad[1], angle), 1),
                   (mask_util.mask_eccentric(X, Y, cen[0], cen[1], e * np.cos(2 * angle), e * np.sin(2 * angle), np.sqrt(rad[0] * rad[1])), 1)]
        for i, (m, inside) in enumerate(out):
            want = np.where(B >= 0, inside, 1 - inside)
            require(np.shape(m) == np.shape(X) and np.array_equal(m, want), "mask of a region", which=i, kind=k, got=np.asarray(m).tolist(), want=want.tolist(), ap=a)
        require(np.array_equal(X, X0) and np.array_equal(Y, Y0), "coordinates are not altered", kind=k)


def map_case(c):
    """the dispersion at a place on the sky does not depend on how the grid is described"""
    from lenstronomy.GalKin.galkin import Galkin
    r = np.random.RandomState(c["seed"])
    kc = dict(d_d=1000.0, d_s=1500.0, d_ds=800.0)
    km = dict(mass_profile_list=["SPP"], light_profile_list=["HERNQUIST"], anisotropy_model="OM")
    kn = dict(interpol_grid_num=200, log_integration=True, max_integrate=100, min_integrate=1e-3, lum_weight_int_method=True)
    psf = dict(psf_type="GAUSSIAN", fwhm=float(r.uniform(0.4, 0.8)))
    nx, ny = c["n"]
    d = float(r.uniform(0.25, 0.4))
    cx, cy = r.uniform(-0.3, 0.3, 2)
    o = r.uniform(-0.2, 0.2, 2)
    xs, ys = np.meshgrid((np.arange(nx) - (nx - 1) / 2) * d + o[0], (np.arange(ny) - (ny - 1) / 2) * d + o[1])
    F = c["f"]

    def disp(x, y, angle, cen):
        kw = dict(kwargs_psf=psf, kwargs_cosmo=kc, kwargs_numerics=kn, analytic_kinematics=False)
        g = Galkin(kwargs_model=km, kwargs_aperture=dict(aperture_type="IFU_grid", x_grid=x, y_grid=y, angle=angle), **kw)
        return g.dispersion_map_grid_convolved([dict(theta_E=1.2, gamma=2.0, center_x=cen[0], center_y=cen[1])], [dict(Rs=0.6, amp=1.0, center_x=cen[0], center_y=cen[1])],
                                               dict(r_ani=1.0), supersampling_factor=F)
    ref = disp(xs, ys, 0, (cx, cy))
    where = dict(n=c["n"], f=F, how=c["how"])
    require(np.shape(ref) == (ny, nx), "a dispersion per pixel", got=np.shape(ref), **where)
    if c["how"] == "turn":
        p = float(r.uniform(-3, 3))
        R = lambda x, y: (np.cos(p) * x - np.sin(p) * y, np.sin(p) * x + np.cos(p) * y)
        got, want = disp(*R(xs, ys), p, R(cx, cy)), ref
    elif c["how"] == "mirror":
        got, want = disp(xs[:, ::-1], ys[:, ::-1], 0, (cx, cy)), ref[:, ::-1]
    elif c["how"] == "flip":
        got, want = disp(xs[::-1], ys[::-1], 0, (cx, cy)), ref[::-1]
    elif c["how"] == "swap":
        got, want = disp(ys.T, xs.T, 0, (cy, cx)), ref.T
    else:
        s = r.uniform(-2, 2, 2)
        got, want = disp(xs + s[0], ys + s[1], 0, (cx + s[0], cy + s[1])), ref
    require(np.shape(got) == np.shape(want) and np.allclose(got, want, 1e-4), "the map follows the grid", got=flat(got), want=flat(want), **where)


CASES = dict(aperture=aperture_case, mask=mask_case, map=map_case)


def main(pid):
    import lenstronomy.GalKin.galkin, lenstronomy.Util.mask_util  # noqa
    ck = Check(pid)
    inv = ["SelectBins", "OnePixel", "SamplesInside", "Counted", "Conserved", "Emit"]
    kinds = list(NAME) + list(MASKS)
    jobs, meta = [], []
    for k in kinds:
        for i in range(10 if THOROUGH else 2):
            jobs.append(("Aperture", dict(Kind=k, Depth=12), dict(invariants=inv), dict(sim=dict(num=120 if THOROUGH else 30, depth=14, seed=SEED + 17 * i + 1))))
            meta.append(k)
    ac, mc = [], []
    for k, r in zip(meta, ck.mc_all(jobs, nproc=8)):
        for rec in r.records:
            c = dict(kind=k, seed=ck.rng.randrange(10 ** 6), shift=ck.rng.random() < 0.7, turns=ck.rng.choice([0, 0, 1, -1]), **rec)
            (mc if k in MASKS else ac).append(c)
    ck.run_cases(aperture_case, ac, "aperture")
    ck.run_cases(mask_case, mc, "mask")
    hows = ["turn", "mirror", "flip", "swap", "move"]
    sizes = [(3, 5), (5, 4), (4, 4), (2, 6)]
    maps = [dict(seed=ck.rng.randrange(10 ** 6), n=sizes[i % 4], f=ck.rng.choice([1, 2, 3]), how=h) for i, h in enumerate(hows * (8 if THOROUGH else 1))]
    ck.run_cases(map_case, maps, "map", chunk=1)
    ck.assumptions = ["positions and pixel centres exactly on a border are not decided", "lengths are whole numbers of pixels, bins are numbered without gaps"]
    return ck.finish()
