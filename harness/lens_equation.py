"""C15: the lens equation solver reports the images of a source, each once, in order of arrival, and leaves the
lens model alone (specs/LensEquation.tla with the images found by triangulation; sessions replayed)."""
import copy, warnings
import numpy as np
from common import *
from session import flat, same

warnings.filterwarnings("ignore")
PRE = 1e-10
Z0, ZS = 1.5, {15: 1.5, 9: 0.9, 30: 3.0}


def kw_rot(r):
    return dict(e1=r.uniform(-0.15, 0.15), e2=r.uniform(-0.15, 0.15))


def cen(r, w=0.15):
    return dict(center_x=r.uniform(-w, w), center_y=r.uniform(-w, w))


def shear(r, off=False):
    d = dict(gamma1=r.uniform(-0.06, 0.06), gamma2=r.uniform(-0.06, 0.06))
    if off:
        d.update(ra_0=r.uniform(-0.3, 0.3), dec_0=r.uniform(-0.3, 0.3))
    return d


def _interpol(r):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Util import util
    lm = LensModel(["NIE"])
    kw = [dict(theta_E=1.0, s_scale=0.1, **kw_rot(r), **cen(r))]
    x, y = util.make_grid(81, 0.08)
    ax = np.unique(x)
    sq = lambda a: util.array2image(a)
    fxx, fxy, _, fyy = lm.hessian(x, y, kw)
    fx, fy = lm.alpha(x, y, kw)
    return dict(grid_interp_x=ax, grid_interp_y=ax, f_=sq(lm.potential(x, y, kw)), f_x=sq(fx), f_y=sq(fy), f_xx=sq(fxx), f_yy=sq(fyy), f_xy=sq(fxy))


LENS = {
    "sie": (["SIE"], lambda r: [dict(theta_E=r.uniform(0.8, 1.2), **kw_rot(r), **cen(r))], {}),
    "sie-shear": (["SIE", "SHEAR"], lambda r: [dict(theta_E=r.uniform(0.8, 1.2), **kw_rot(r), **cen(r)), shear(r, True)], dict(z=1)),
    "epl-shear": (["EPL", "SHEAR"], lambda r: [dict(theta_E=r.uniform(0.8, 1.2), gamma=r.uniform(1.8, 2.2), **kw_rot(r), **cen(r)), shear(r, True)], dict(z=1)),
    "epl-numba": (["EPL_NUMBA", "SHEAR"], lambda r: [dict(theta_E=r.uniform(0.8, 1.2), gamma=r.uniform(1.8, 2.2), **kw_rot(r), **cen(r)), shear(r)], {}),
    "sis-shear": (["SIS", "SHEAR"], lambda r: [dict(theta_E=r.uniform(0.8, 1.2), **cen(r)), shear(r, True)], {}),
    "epl-sheet": (["EPL", "SHEAR", "CONVERGENCE"], lambda r: [dict(theta_E=r.uniform(0.8, 1.0), gamma=r.uniform(1.85, 2.15), **kw_rot(r), **cen(r)), shear(r), dict(kappa=r.uniform(-0.1, 0.1), ra_0=r.uniform(-0.3, 0.3), dec_0=r.uniform(-0.3, 0.3))], dict(z=1)),
    "sheet-sie": (["CONVERGENCE", "SIE"], lambda r: [dict(kappa=r.uniform(-0.1, 0.1), ra_0=r.uniform(-0.3, 0.3), dec_0=r.uniform(-0.3, 0.3)), dict(theta_E=r.uniform(0.8, 1.1), **kw_rot(r), **cen(r))], {}),
    "nie-sub": (["NIE", "SIS", "SHEAR"], lambda r: [dict(theta_E=r.uniform(0.9, 1.2), s_scale=0.1, **kw_rot(r), **cen(r)), dict(theta_E=0.12, center_x=r.uniform(0.6, 1.0), center_y=r.uniform(0.2, 0.6)), shear(r)], dict(z=1, num=1)),
    "two": (["SIE", "SIE"], lambda r: [dict(theta_E=r.uniform(0.6, 0.8), **kw_rot(r), **cen(r)), dict(theta_E=r.uniform(0.4, 0.5), **kw_rot(r), center_x=r.uniform(0.5, 0.8), center_y=r.uniform(-0.5, 0.5))], dict(num=1)),
    "interpol": (["INTERPOL", "SHEAR"], lambda r: [_interpol(r), shear(r)], dict(num=1, pre=1e-8)),
    "planes": (["SIE", "SIE", "SHEAR"], lambda r: [dict(theta_E=r.uniform(0.9, 1.1), **kw_rot(r), **cen(r)), dict(theta_E=0.15, **kw_rot(r), center_x=r.uniform(0.4, 0.8), center_y=r.uniform(-0.5, 0.5)), shear(r)], dict(mp=1, z=1, num=1)),
    "planes-obs": (["SIE", "SIS"], lambda r: [dict(theta_E=r.uniform(0.9, 1.1), **kw_rot(r), **cen(r)), dict(theta_E=0.12, center_x=r.uniform(0.4, 0.8), center_y=r.uniform(-0.5, 0.5))], dict(mp=2, z=1, num=1)),
}


def build(name, z=Z0):
    from lenstronomy.LensModel.lens_model import LensModel
    lst, _, o = LENS[name]
    if o.get("mp"):
        kw = dict(observed_convention_index=[1]) if o["mp"] == 2 else {}
        lm = LensModel(lst, multi_plane=True, z_source=Z0, z_source_convention=Z0, lens_redshift_list=[0.4, 0.6, 0.4][:len(lst)], **kw)
    elif o.get("z"):
        lm = LensModel(lst, z_lens=0.4, z_source=Z0, z_source_convention=Z0)
    else:
        return LensModel(lst)
    if z != Z0:
        lm.change_source_redshift(z)
    return lm


def triangles(lm, kw, sx, sy, gx, gy):
    """centres of the triangles of a grid that contain the source when mapped"""
    x, y = np.meshgrid(gx, gy)
    bx, by = lm.ray_shooting(x.ravel(), y.ravel(), kw)
    bx, by = bx.reshape(x.shape) - sx, by.reshape(x.shape) - sy
    A, B, C, D = np.s_[:-1, :-1], np.s_[:-1, 1:], np.s_[1:, :-1], np.s_[1:, 1:]
    out = []
    for p, q, t in ((A, B, C), (D, C, B)):
        c = [bx[u] * by[v] - by[u] * bx[v] for u, v in ((p, q), (q, t), (t, p))]
        inside = ((c[0] >= 0) & (c[1] >= 0) & (c[2] >= 0)) | ((c[0] <= 0) & (c[1] <= 0) & (c[2] <= 0))
        for i, j in zip(*np.nonzero(inside)):
            out.append((np.mean([x[u][i, j] for u in (p, q, t)]), np.mean([y[u][i, j] for u in (p, q, t)])))
    return out


def newton(lm, kw, sx, sy, a, b, step, pre):
    u, v = a, b
    for _ in range(80):
        px, py = lm.ray_shooting(u, v, kw)
        dx, dy = float(px - sx), float(py - sy)
        if np.hypot(dx, dy) < pre:
            return u, v
        fxx, fxy, fyx, fyy = [float(k) for k in lm.hessian(u, v, kw)]
        M = np.array([[1 - fxx, -fxy], [-fyx, 1 - fyy]])
        if abs(np.linalg.det(M)) < 1e-12:
            return None
        s = np.linalg.solve(M, [dx, dy])
        s *= min(1.0, 0.5 * step / max(np.hypot(*s), 1e-300))
        u, v = u - s[0], v - s[1]
        if np.hypot(u - a, v - b) > 4 * step:
            return None
    return None


def truth(lm, kw, sx, sy, half=3.2, step=0.04, pre=1e-9):
    """all images of a source: triangles of the image plane that contain it when mapped, refined;
    None when one could not be resolved"""
    g = np.arange(-half, half + step / 2, step) + 0.00137
    good = []
    todo = [(a, b, step) for a, b in triangles(lm, kw, sx, sy, g, g)]
    cen = [(d["center_x"], d["center_y"]) for d in kw if "center_x" in d]
    while todo:
        a, b, st = todo.pop()
        r = newton(lm, kw, sx, sy, a, b, st, pre)
        if r is not None:
            if all(np.hypot(r[0] - k[0], r[1] - k[1]) > 1e-5 for k in good):
                good.append(r)
        elif st > 1e-3:
            f = np.arange(-1.5 * st, 1.5 * st + st / 20, st / 8)
            todo += [(p, q, st / 8) for p, q in triangles(lm, kw, sx, sy, a + f, b + f)]
        elif all(np.hypot(a - c[0], b - c[1]) > 0.02 for c in cen):
            return None
    return good


FAINT, LOW, HIGH = 0.04, 0.25, 12.0


def images_of(lm, kw, sx, sy, pre):
    """images with arrival time and magnification, or None when the configuration is not a clean one"""
    im = truth(lm, kw, sx, sy, pre=max(pre, 1e-9))
    if not im:
        return None
    x, y = np.array([i[0] for i in im]), np.array([i[1] for i in im])
    m = np.abs(lm.magnification(x, y, kw))
    t = lm.arrival_time(x, y, kw) if lm.multi_plane else lm.fermat_potential(x, y, kw)
    if not np.all(np.isfinite(t)) or not np.all(np.isfinite(m)):
        return None
    reg = (m >= LOW) & (m <= HIGH)
    if not np.all(reg | (m < FAINT)) or not reg.any():
        return None
    if np.any(np.maximum(abs(x[reg]), abs(y[reg])) > 2.3):
        return None
    for d in kw:
        if "center_x" in d and np.any(np.hypot(x[reg] - d["center_x"], y[reg] - d["center_y"]) < 0.3):
            return None
    for i in range(len(x)):
        for j in range(i):
            if np.hypot(x[i] - x[j], y[i] - y[j]) < (0.6 if lm.multi_plane else 0.3) and (reg[i] and reg[j]):
                return None
            if reg[i] and reg[j] and (abs(t[i] - t[j]) < 1e-4 * abs(np.ptp(t)) or abs(m[i] - m[j]) < 1e-3 * m[i]):
                return None
    rank = np.argsort(np.argsort(t))
    return [dict(id=i, t=int(rank[i]), m=int(round(m[i] * 1e6)), opt=bool(not reg[i]), x=float(x[i]), y=float(y[i])) for i in range(len(x))]


def world(job):
    name, seed = job
    r = np.random.RandomState(seed)
    o = LENS[name][2]
    kw = LENS[name][1](r)
    zs = list(ZS) if o.get("z") else [15]
    lms = {z: build(name, ZS[z]) for z in zs}
    src, W = [], {z: [] for z in zs}
    for _ in range(40):
        s = (r.uniform(-0.35, 0.35), r.uniform(-0.35, 0.35)) if len(src) % 2 else (r.uniform(-0.1, 0.1), r.uniform(-0.1, 0.1))
        found = {z: images_of(lms[z], kw, s[0], s[1], o.get("pre", PRE)) for z in zs}
        if all(f is not None for f in found.values()):
            src.append(s)
            for z in zs:
                W[z].append(found[z])
        if len(src) == 4:
            break
    return dict(name=name, kw=kw, src=src, W=W, seed=seed)


def session_case(case):
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    w, hist, seed = case["w"], case["hist"], case["seed"]
    np.random.seed(seed % 2 ** 31)
    r = np.random.RandomState(seed % 2 ** 31)
    name, kw = w["name"], w["kw"]
    pre = LENS[name][2].get("pre", PRE)
    keep = copy.deepcopy(kw)
    lm = build(name)
    sol = LensEquationSolver(lm)
    px, py = r.uniform(-1.5, 1.5, 4), r.uniform(-1.5, 1.5, 4)
    other = copy.deepcopy(kw)
    for d in other:
        for k in ("theta_E", "kappa", "gamma1"):
            if k in d:
                d[k] = d[k] * 0.9 + 0.01
    for i, h in enumerate(hist):
        act = h["act"]
        where = dict(lens=name, step=i, act=act, z=ZS[h["z"]])
        if act["op"] == "redshift":
            sol.change_source_redshift(ZS[h["z"]])
        else:
            sx, sy = w["src"][act["s"] - 1]
            im = {k["id"]: k for k in w["W"][h["z"]][act["s"] - 1]}
            limit = act["limit"] / 1e6 if act["limit"] else None
            kws = {}
            md = float(r.choice([0.05, 0.08]))
            cx, cy = (0.0, 0.0) if r.randint(2) else (float(r.uniform(-0.4, 0.4)), float(r.uniform(-0.4, 0.4)))
            solver = act.get("solver", "numeric")
            if solver in ("numeric", "nonlinear", "random"):
                kws = dict(min_distance=md, search_window=6.4, precision_limit=pre, num_iter_max=200, x_center=cx, y_center=cy, arrival_time_sort=act["sort"], magnification_limit=limit)
                if solver == "nonlinear":
                    kws.update(non_linear=True)
                if solver == "random":
                    kws.update(num_random=5, initial_guess_cut=bool(r.randint(2)))
            elif solver == "analytical":
                kws = dict(solver="analytical", arrival_time_sort=act["sort"], magnification_limit=limit)
            elif solver == "stochastic":
                kws = dict(solver="stochastic", search_window=4.0, x_center=cx, y_center=cy, arrival_time_sort=act["sort"], num_random=12)
            if act["op"] == "bright":
                x, y = sol.find_bright_image(sx, sy, kw, numImages=act["k"], **kws)
            else:
                x, y = sol.image_position_from_source(sx, sy, kw, **kws)
            where.update(source=(sx, sy), options=kws, x=np.array(x).tolist(), y=np.array(y).tolist())
            x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
            require(len(x) == len(y), "as many x as y positions", **where)
            fresh = build(name, ZS[h["z"]])
            got = []
            if solver == "analytical":  # it also lists the image at the singular centre, where the models are softened
                c = kw[0] if "center_x" in kw[0] else kw[1]
                away = np.hypot(x - c["center_x"], y - c["center_y"]) > 1e-3
                x, y = x[away], y[away]
            if len(x):
                bx, by = fresh.ray_shooting(x, y, kw)
                tol = dict(analytical=1e-7).get(solver, 1.01 * pre + 1e-12)
                require(np.all(np.hypot(bx - sx, by - sy) <= tol), "every position is an image of the source", off=np.hypot(bx - sx, by - sy).tolist(), **where)
            for a, b in zip(x, y):
                near = [k for k in im.values() if np.hypot(a - k["x"], b - k["y"]) < 1e-3]
                if near:
                    if near[0]["opt"]:
                        continue
                    got.append(near[0]["id"])
            want = h["result"]
            require(len(set(got)) == len(got), "no image is listed twice", got=got, **where)
            # the root finder on its own starting point may miss images of lenses with several singular cores
            if solver == "stochastic" or (solver == "nonlinear" and LENS[name][2].get("num")):
                require(set(got) <= set(want), "images of the source", got=got, want=want, **where)
                want = [k for k in want if k in got]
            require(set(got) == set(want), "the images of the source, all of them", got=got, want=want, images=list(im.values()), **where)
            if act["sort"]:
                require(got == want, "images come in the order of arrival", got=got, want=want, images=list(im.values()), **where)
                if len(x) > 1:
                    t = fresh.arrival_time(x, y, kw) if fresh.multi_plane else fresh.fermat_potential(x, y, kw)
                    require(np.all(np.diff(t) >= -1e-8 * np.ptp(t)), "images come in the order of arrival", times=t.tolist(), **where)
            sep = md if solver in ("numeric", "nonlinear", "random") else 1e-9
            for a in range(len(x)):
                for b in range(a):
                    require(max(abs(x[a] - x[b]), abs(y[a] - y[b])) >= sep * (1 - 1e-9), "no image is listed twice", **where)
            if limit and len(x):
                require(np.all(np.abs(fresh.magnification(x, y, kw)) >= limit * (1 - 1e-6)), "images fainter than the limit are not listed", **where)
        require(same(flat(kw), flat(keep), 0, 0), "lens parameters of the user are not altered", **where)
        fresh = build(name, ZS[h["z"]])
        for k in (other, kw):
            require(same(flat(list(lm.ray_shooting(px, py, k))), flat(list(fresh.ray_shooting(px, py, k))), 1e-12, 1e-12), "the lens model is left as it was", **where)
            require(same(flat(list(lm.hessian(px, py, k))), flat(list(fresh.hessian(px, py, k))), 1e-9, 1e-9), "the lens model is left as it was", **where)


CASES = dict(session=session_case)


def main(pid):
    import lenstronomy.LensModel.lens_model, lenstronomy.LensModel.Solver.lens_equation_solver  # noqa
    from lenstronomy.LensModel.Solver.lens_equation_solver import analytical_lens_model_support
    ck = Check(pid)
    nw, num, depth = (6, 12, 9) if THOROUGH else (2, 6, 7)
    jobs = [(n, ck.rng.randrange(10 ** 6)) for n in LENS for _ in range(nw * (1 if LENS[n][2].get("num") or not LENS[n][2].get("z") else 3))]
    from multiprocessing import Pool
    with Pool(8) as pool:
        ws = [w for w in pool.map(world, jobs, 1) if len(w["src"]) >= 1]
    if len(ws) < len(jobs) * 0.6:
        raise MachineryError("too few clean lens configurations: %d of %d" % (len(ws), len(jobs)))
    inv = ["TypeOK", "Sound", "Complete", "BrightOnes", "Emit"]
    mcs = []
    for w in ws:
        lst = list(LENS[w["name"]][0])
        solvers = {"numeric", "random", "nonlinear", "stochastic"} if not LENS[w["name"]][2].get("mp") else {"numeric", "random"}
        if not LENS[w["name"]][2].get("num"):
            solvers |= {"analytical"}
        W = world_tla(w)
        mags = sorted({k["m"] for ims in w["W"].values() for im in ims for k in im if not k["opt"]})
        limits = {0, 100000} | {int((a + b) / 2) for a, b in zip(mags, mags[1:]) if b - a > 20000}
        mcs.append(("LensEquation", dict(World=W, Zs=set(w["W"]), Srcs=set(range(1, len(w["src"]) + 1)), Z0=15, Solvers=solvers, Limits=limits, Depth=depth), dict(invariants=inv), dict(sim=dict(num=num, depth=depth + 1, seed=ck.rng.randrange(10 ** 6)))))
    cases = []
    for w, r in zip(ws, ck.mc_all(mcs, nproc=8)):
        for rec in behaviours(r.records):
            cases.append(dict(w=w, hist=rec["hist"], seed=ck.rng.randrange(10 ** 6)))
    ck.rng.shuffle(cases)
    ck.run_cases(session_case, cases, "session")
    ck.assumptions = ["images at least 0.3 arcsec apart with magnification between 0.25 and 12 (fainter than 0.04: may be missed)", "12 kinds of lens models, single- and multi-plane"]
    return ck.finish()


def world_tla(w):
    rec = lambda k: "[id |-> %d, t |-> %d, m |-> %d, opt |-> %s]" % (k["id"], k["t"], k["m"], "TRUE" if k["opt"] else "FALSE")
    row = lambda ims: "<<%s>>" % ", ".join("{%s}" % ", ".join(rec(k) for k in im) for im in ims)
    return Raw(" @@ ".join("(%d :> %s)" % (z, row(ims)) for z, ims in w["W"].items()))
