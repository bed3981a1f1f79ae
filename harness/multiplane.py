"""C08: multi-plane ray tracing against specs/MultiPlane.tla."""
import copy
import numpy as np
from common import *

PROFS = [
    ("SIS", dict(theta_E=0.7, center_x=0.11, center_y=-0.07)),
    ("SIE", dict(theta_E=0.55, e1=0.12, e2=-0.08, center_x=-0.21, center_y=0.13)),
    ("NFW", dict(Rs=2.3, alpha_Rs=0.31, center_x=0.32, center_y=0.27)),
    ("SHEAR", dict(gamma1=0.05, gamma2=-0.03, ra_0=0.1, dec_0=-0.2)),
    ("EPL", dict(theta_E=0.4, gamma=1.9, e1=-0.05, e2=0.1, center_x=0.4, center_y=-0.5)),
    ("CONVERGENCE", dict(kappa=0.04, ra_0=0.3, dec_0=0.1)),
]
X = np.array([1.13, -0.64, 0.37, 1.71])
Y = np.array([0.42, 0.97, -1.28, -0.35])
Z = [0, 0.21, 0.45, 0.8, 1.3, 1.9, 2.6, 3.1]
# redshifts of the planes: spread out, pairs of planes very close to each other, nearby planes
LADDERS = [Z, [0, 0.45, 0.453, 0.461, 1.9, 1.9008, 1.905, 3.1], [0, 0.004, 0.02, 0.3, 0.3003, 2.0, 2.9, 3.2]]
ZCONV = 3.3
LIGHT = [dict(amp=1.0, sigma=0.9, center_x=0.1, center_y=0.2), dict(amp=2.0, sigma=0.7, center_x=-0.2, center_y=0.1),
         dict(amp=1.5, sigma=1.1, center_x=0.0, center_y=-0.3), dict(amp=0.7, sigma=1.3, center_x=0.2, center_y=0.0)]


def cosmology(n):
    from astropy.cosmology import FlatLambdaCDM, FlatwCDM
    return None if n == 0 else FlatLambdaCDM(H0=61.0, Om0=0.42) if n == 1 else FlatwCDM(H0=74.0, Om0=0.25, w0=-0.8)


class Trace:
    """Interprets a program of drifts and kicks."""
    ARCSEC = np.pi / 180 / 3600
    MPC, C, DAY = 3.08567758149e22, 299792458.0, 86400.0

    def __init__(self, lenses, cosmo):
        from astropy.cosmology import default_cosmology
        from lenstronomy.LensModel.lens_model import LensModel
        self.cosmo = cosmo or default_cosmology.get()
        self.lens = lenses
        self.single = [LensModel([n]) for n, _ in lenses]
        self._T = {}

    def T(self, a, b):
        k = (a, b)
        if k not in self._T:
            self._T[k] = float(self.cosmo.angular_diameter_distance_z1z2(a, b).value) * (1 + b) if b > a else 0.0
        return self._T[k]

    def run(self, prog, x0, y0, kw, time=False):
        px, py = np.zeros_like(x0), np.zeros_like(y0)
        ax, ay = np.array(x0, dtype=float), np.array(y0, dtype=float)
        dt = np.zeros_like(px)
        bx, by = np.array(x0, float), np.array(y0, float)
        end = 0.0
        for st in prog:
            if st["op"] == "drift":
                a, b = Z[st["a"]], Z[st["b"]]
                px, py = px + ax * self.T(a, b), py + ay * self.T(a, b)
                nx, ny = px / self.T(0, b), py / self.T(0, b)
                if a > 0:
                    dt = dt + 0.5 * self.T(0, a) * self.T(0, b) / self.T(a, b) * ((nx - bx) ** 2 + (ny - by) ** 2)
                bx, by, end = nx, ny, b
            else:
                z = Z[st["z"]]
                sx, sy = np.zeros_like(px), np.zeros_like(py)
                for i in st["lenses"]:
                    k = kw[i - 1]
                    dx, dy = self.single[i - 1].alpha(bx, by, [k])
                    f = self.T(0, ZCONV) / self.T(z, ZCONV)
                    sx, sy = sx + f * dx, sy + f * dy
                    if time:
                        dt = dt - self.single[i - 1].potential(bx, by, [k]) * self.T(0, z) * self.T(0, ZCONV) / self.T(z, ZCONV)
                ax, ay = ax - sx, ay - sy
        if time:
            return dt * self.MPC / self.C * self.ARCSEC ** 2 / self.DAY
        return px, py, ax, ay, bx, by


def trace_case(c):
    from lenstronomy.LensModel.lens_model import LensModel
    global Z
    Z = LADDERS[c.get("ladder", 0)]
    rec = c["rec"]
    nl = len(rec["zl"])
    lenses = [PROFS[j] for j in c["profs"]]
    cosmo = cosmology(c["cosmo"])
    tr = Trace(lenses, cosmo)
    kw = [dict(k) for _, k in lenses]
    for i, k in enumerate(kw):       # no two lenses on the same line of sight (the deflection is singular there)
        if "center_x" in k:
            k["center_x"] += 0.037 * i
            k["center_y"] -= 0.029 * i
    keep = copy.deepcopy(kw)
    # physical positions of the lenses given in the observed convention, nearest first
    phys = [dict(k) for k in kw]
    for i in sorted(rec["obs"], key=lambda i: rec["zl"][i - 1]):
        k = kw[i - 1]
        _, _, _, _, bx, by = tr.run(rec["pre"][i - 1], np.array([k["center_x"]]), np.array([k["center_y"]]), phys)
        phys[i - 1].update(center_x=float(bx[0]), center_y=float(by[0]))
    px, py, ax, ay, bx, by = tr.run(rec["prog"], X, Y, phys)
    want_t = tr.run(rec["prog"], X, Y, phys, time=True)

    def model(order, zs=rec["zs"], **kwargs):
        opt = dict(lens_redshift_list=[Z[rec["zl"][i]] for i in order], z_source=Z[zs], z_source_convention=ZCONV,
                   multi_plane=True, cosmo=cosmo)
        if rec["obs"]:
            opt["observed_convention_index"] = [order.index(i - 1) for i in sorted(rec["obs"])]
        opt.update(kwargs)
        return LensModel([lenses[i][0] for i in order], **opt), [kw[i] for i in order]

    ident = list(range(nl))
    m, k = model(ident)
    near(m.ray_shooting(X, Y, k), (bx, by), "ray_shooting follows the program of drifts and kicks", c)
    near(m.alpha(X, Y, k), (X - bx, Y - by), "alpha is the image position minus the source position", c)
    near(m.arrival_time(X, Y, k), want_t, "arrival time adds up along the path", c, rtol=1e-6, atol=1e-6)
    sx, sy = m.ray_shooting(float(X[1]), float(Y[1]), k)
    near((float(sx), float(sy)), (bx[1], by[1]), "scalar position", c)
    perm = c["perm"]
    mp_, kp = model(perm)
    near(mp_.ray_shooting(X, Y, kp), (bx, by), "order of the lens model list does not matter", c)
    near(mp_.arrival_time(X, Y, kp), want_t, "order of the lens model list does not matter (arrival time)", c, rtol=1e-6, atol=1e-6)
    # partial paths
    for mm, kk in ((m, k), (mp_, kp)):
        cx, cy, cax, cay = np.zeros_like(X), np.zeros_like(Y), X.copy(), Y.copy()
        tx, ty, tax, tay = np.zeros_like(X), np.zeros_like(Y), X.copy(), Y.copy()
        z0 = 0
        for stop in rec["stops"]:
            z1 = Z[stop["z"]]
            qx, qy, qax, qay, qbx, qby = tr.run(stop["path"], X, Y, phys)
            cx, cy, cax, cay = mm.lens_model.ray_shooting_partial_comoving(cx, cy, cax, cay, z0, z1, kk, include_z_start=False)
            near((cx, cy, cax, cay), (qx, qy, qax, qay), "pieces of the path compose (comoving)", c)
            tx, ty, tax, tay = mm.lens_model.ray_shooting_partial(tx, ty, tax, tay, z0, z1, kk, include_z_start=False)
            near((tx, ty, tax, tay), (qbx, qby, qax, qay), "pieces of the path compose (angles)", c)
            if stop["z"] != rec["zs"]:
                m2, k2 = model(perm, zs=stop["z"])
                near(m2.ray_shooting(X, Y, k2), (qbx, qby), "source at an intermediate redshift", c)
            z0 = z1
    # differentials
    def diff(h):
        fd = []
        for dx, dy in ((h, 0), (0, h)):
            p = tr.run(rec["prog"], X + dx, Y + dy, phys)
            q = tr.run(rec["prog"], X - dx, Y - dy, phys)
            fd.append(((p[4] - q[4]) / (2 * h), (p[5] - q[5]) / (2 * h)))
        return np.array([1 - fd[0][0], -fd[1][0], -fd[0][1], 1 - fd[1][1]])
    want_h = diff(1e-5)
    # compared where the deflection is smooth on the scale of the differences
    ok = np.all((np.abs(diff(1e-4) - want_h) < 1e-4) & (np.abs(want_h) < 10), axis=0)
    if ok.any():
        near(np.array(m.hessian(X, Y, k))[:, ok], want_h[:, ok], "hessian is the differential of the deflection", c, rtol=1e-4, atol=1e-4)
        det = (1 - want_h[0]) * (1 - want_h[3]) - want_h[1] * want_h[2]
        near(1 / np.asarray(m.magnification(X, Y, k))[ok], det[ok], "magnification is the inverse determinant", c, rtol=1e-3, atol=2e-3)
        near(np.asarray(m.kappa(X, Y, k))[ok], ((want_h[0] + want_h[3]) / 2)[ok], "convergence", c, rtol=1e-4, atol=1e-4)
    # light at several source planes
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.ImSim.image2source_mapping import Image2SourceMapping
    stops = rec["stops"]
    order = c["lightperm"][:0] or sorted(range(len(stops)), key=lambda i: c["lightperm"][i])
    lm = LightModel(["GAUSSIAN"] * len(stops), source_redshift_list=[Z[stops[i]["z"]] for i in order])
    kl = [dict(LIGHT[i]) for i in order]
    for mm, kk in ((m, k), (mp_, kp)):
        i2s = Image2SourceMapping(mm, lm)
        each = []
        for pos, i in enumerate(order):
            _, _, _, _, qbx, qby = tr.run(stops[i]["path"], X, Y, phys)
            near(i2s.image2source(X, Y, kk, index_source=pos), (qbx, qby), "source position of a component", c)
            each.append(gauss(qbx, qby, LIGHT[i]))
        near(i2s.image_flux_joint(X, Y, kk, kl), np.sum(each, axis=0), "light of all source planes", c)
        resp, n = i2s.image_flux_split(X, Y, kk, [dict(q, amp=1.0) for q in kl])
        require(n == len(each), "number of responses", got=n)
        for pos, i in enumerate(order):
            near(np.asarray(resp[pos]) * LIGHT[i]["amp"], each[pos], "response of a source component", c)
            near(i2s.image_flux_joint(X, Y, kk, kl, k=pos), each[pos], "light of one source component", c)
    # static copy of the model
    ks = m.set_static(k)
    near(m.ray_shooting(X, Y, ks), (bx, by), "static model", c)
    m.set_dynamic()
    near(m.ray_shooting(X, Y, k), (bx, by), "dynamic again", c)
    if not rec["obs"]:
        mi, ki = model(perm, cosmo_interp=True, num_z_interp=300)
        near(mi.ray_shooting(X, Y, ki), (bx, by), "interpolated distances", c, rtol=1e-3, atol=1e-3)
    require(kw == keep, "lens parameters were altered")


def gauss(x, y, k):
    r2 = (x - k["center_x"]) ** 2 + (y - k["center_y"]) ** 2
    return k["amp"] / (2 * np.pi * k["sigma"] ** 2) * np.exp(-r2 / 2 / k["sigma"] ** 2)


def near(got, want, clause, c, rtol=1e-7, atol=1e-8):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape and np.allclose(got, want, rtol=rtol, atol=atol), clause,
            got=got.tolist(), want=want.tolist())


CASES = {"trace": trace_case}


def main(pid):
    import lenstronomy.LensModel.lens_model, lenstronomy.ImSim.image2source_mapping, astropy.cosmology  # noqa
    ck = Check(pid)
    inv = dict(invariants=["EachOnce", "NoneBehind", "CutsInert", "Contiguous", "Emit"])
    jobs = [("MultiPlane", dict(NL=3, ZL=3, ZS={2, 3, 4}, ObsOK={1, 2, 3}, MaxCuts=2, MaxObs=3, Samples=0, Emitting=True), inv),
            ("MultiPlane", dict(NL=5, ZL=5, ZS={3, 4, 5, 6}, ObsOK={1, 2, 3, 5}, MaxCuts=3, MaxObs=3,
                                Samples=300 if not THOROUGH else 5000, Emitting=True), inv, dict(args=("-seed", str(SEED))))]
    small, large = ck.mc_all(jobs)
    recs = list(small.records)
    ck.rng.shuffle(recs)
    recs = recs[:1000] if not THOROUGH else recs
    cases = []
    for rec in recs + large.records:
        n = len(rec["zl"])
        pool = [0, 1, 2, 4] if n == 3 else None
        profs = [ck.rng.choice([j for j in range(6) if (i + 1) not in rec["obs"] or j in (0, 1, 2, 4)]) for i in range(n)]
        perm = list(range(n))
        ck.rng.shuffle(perm)
        lp = list(range(4))
        ck.rng.shuffle(lp)
        cases.append(dict(rec=rec, profs=profs, perm=perm, lightperm=lp, ladder=ck.rng.choice([0, 0, 1, 2]), cosmo=ck.rng.randrange(3)))
    ck.run_cases(trace_case, cases, "trace")
    ck.assumptions = ["flat cosmologies", "profiles SIS, SIE, NFW, SHEAR, EPL, CONVERGENCE; single-lens deflections taken from the code"]
    return ck.finish()
