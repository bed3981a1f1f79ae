"""C16: lens parameters constrained by the image positions (specs/ConstraintSolver.tla replayed into Param)."""
import copy, warnings
import numpy as np
from common import *
from session import flat, same
from lens_equation import truth, kw_rot, cen

warnings.filterwarnings("ignore")
E5 = ["theta_E", "e1", "e2", "center_x", "center_y"]
SH = dict(ra_0=0.0, dec_0=0.0)


def ell(r, **kw):
    return dict(theta_E=r.uniform(0.9, 1.1), **kw_rot(r), **cen(r, 0.1), **kw)


def sh(r, lo=0.03):
    g, p = r.uniform(lo, 0.08), r.uniform(0, np.pi)
    return dict(gamma1=g * np.cos(2 * p), gamma2=g * np.sin(2 * p), **SH)


def pert(r):
    return dict(theta_E=0.06, center_x=r.uniform(0.3, 0.6), center_y=r.uniform(1.4, 1.7))


MP4 = dict(m4_amp=None)
# lens list, parameters, solver type, images, solved, (index, kind) of a component whose direction is solved, fixed, options
CONF = {
    "sie": (["SIE", "SHEAR"], lambda r: [ell(r), sh(r)], "PROFILE_SHEAR", 4, E5, (1, "shear"), {}),
    "epl-sub": (["EPL", "SHEAR", "SIS"], lambda r: [ell(r, gamma=r.uniform(1.9, 2.1)), sh(r), pert(r)], "PROFILE_SHEAR", 4, E5, (1, "shear"), {}),
    "epl-psi": (["EPL", "SHEAR_GAMMA_PSI", "SIS"], lambda r: [ell(r, gamma=r.uniform(1.9, 2.1)), dict(gamma_ext=r.uniform(0.03, 0.08), psi_ext=r.uniform(-1, 1), **SH), pert(r)], "PROFILE_SHEAR", 4, E5, (1, "psi"), {}),
    "nie": (["NIE", "SHEAR"], lambda r: [ell(r, s_scale=0.05), sh(r)], "PROFILE_SHEAR", 4, E5, (1, "shear"), {}),
    "multipole": (["EPL_MULTIPOLE_M3M4", "SHEAR"], lambda r: [ell(r, gamma=2.0, a3_a=0.01, delta_phi_m3=0.1, a4_a=0.01, delta_phi_m4=0.0), sh(r)], "PROFILE_SHEAR", 4, E5, (1, "shear"), {}),
    "boxy": (["EPL_BOXYDISKY", "SHEAR"], lambda r: [ell(r, gamma=2.0, a4_a=0.01), sh(r)], "PROFILE_SHEAR", 4, E5, (1, "shear"), {}),
    "cse": (["NFW_ELLIPSE_CSE", "SHEAR", "SIS"], lambda r: [dict(Rs=2.0, alpha_Rs=r.uniform(1.6, 1.8), **kw_rot(r), **cen(r, 0.05)), sh(r), dict(theta_E=0.4, center_x=0.0, center_y=0.0)], "PROFILE_SHEAR", 4, ["alpha_Rs", "e1", "e2", "center_x", "center_y"], (1, "shear"), {}),
    "profile": (["SIE", "SHEAR"], lambda r: [ell(r), sh(r)], "PROFILE", 4, E5, None, dict(still=1)),
    "center": (["SIE", "SHEAR"], lambda r: [ell(r), sh(r)], "CENTER", 2, ["center_x", "center_y"], None, {}),
    "ellipse": (["EPL", "SHEAR", "SIS"], lambda r: [ell(r, gamma=2.0), sh(r), pert(r)], "ELLIPSE", 2, ["e1", "e2"], None, {}),
    "thetaphi": (["SIE", "SHEAR"], lambda r: [ell(r), sh(r, 0.06)], "THETA_E_PHI", 2, ["theta_E"], (1, "shear"), dict(pos="1:gamma1")),
    "thetaell": (["SIE", "SHEAR"], lambda r: [dict(ell(r), e1=0.15, e2=0.05), sh(r)], "THETA_E_ELLIPSE", 2, ["theta_E"], (0, "ell"), dict(pos="0:e1")),
    "planes": (["SIE", "SHEAR", "SIS"], lambda r: [ell(r), sh(r), pert(r)], "PROFILE_SHEAR", 4, E5, (1, "shear"), dict(mp=1)),
    "planes-z": (["SIE", "SHEAR", "SIS"], lambda r: [ell(r), sh(r), pert(r)], "PROFILE_SHEAR", 4, E5, (1, "shear"), dict(mp=1, special=["z"])),
    "planes-cosmo": (["SIE", "SHEAR", "SIS"], lambda r: [ell(r), sh(r), pert(r)], "PROFILE_SHEAR", 4, E5, (1, "shear"), dict(mp=1, special=["Om0"])),
    "planes-center": (["SIE", "SIS"], lambda r: [ell(r), dict(pert(r), theta_E=0.12)], "CENTER", 2, ["center_x", "center_y"], None, dict(mp=1)),
    "scaled": (["SIE", "SHEAR", "SIS"], lambda r: [ell(r), sh(r), pert(r)], "PROFILE_SHEAR", 4, E5, (1, "shear"), dict(special=["scale"])),
    "light": (["SIE", "SHEAR", "SIS"], lambda r: [ell(r), sh(r), pert(r)], "PROFILE_SHEAR", 4, E5, (1, "shear"), dict(light=1)),
    "joint": (["SIE", "SHEAR", "SIS"], lambda r: [ell(r), sh(r), dict(theta_E=0.05, center_x=0.0, center_y=0.0)], "ELLIPSE", 2, ["e1", "e2"], None, dict(joint=1)),
}
ZL = [0.5, 0.5, 0.8]


def cosmo_of(om):
    from astropy.cosmology import FlatLambdaCDM
    return FlatLambdaCDM(H0=70, Om0=om, Ob0=0)


def fresh_lens(conf, special):
    from lenstronomy.LensModel.lens_model import LensModel
    lst, o = CONF[conf][0], CONF[conf][6]
    if not o.get("mp"):
        return LensModel(lst)
    z = ([0.5, 0.8] if len(lst) == 2 else list(ZL))
    kw = dict(cosmo=cosmo_of(0.3))
    if "z" in special:
        z[-1] = special["z"]
    if "Om0" in special:
        kw["cosmo"] = cosmo_of(special["Om0"])
    return LensModel(lst, multi_plane=True, lens_redshift_list=z, z_source=2.0, z_source_convention=2.0, **kw)


SPECIAL = dict(z=0.8, Om0=0.3, scale=1.2)
STEP = dict(z=0.02, Om0=0.02, scale=0.05, gamma1=0.002, gamma2=0.002, gamma_ext=0.002, e1=0.003, e2=0.003, theta_E=0.004, center_x=0.004, center_y=0.004, gamma=0.01, s_scale=0.003,
            a3_a=0.001, a4_a=0.001, delta_phi_m3=0.02, delta_phi_m4=0.02, Rs=0.02, sigma=0.01)
HELD = ("ra_0", "dec_0", "delta_phi_m3", "delta_phi_m4")


def names_of(conf):
    """sampled parameters, by component"""
    lst, gen, st, n, solved, turn, o = CONF[conf]
    kw = gen(np.random.RandomState(0))
    out = []
    for k, d in enumerate(kw):
        for p in d:
            if p in HELD or (k == 0 and p in solved):
                continue
            if turn and turn[0] == k and (p in ("psi_ext",) or (p == "gamma2" and st == "THETA_E_PHI") or (p == "e2" and st == "THETA_E_ELLIPSE")):
                continue
            if o.get("joint") and k == 2 and p in ("center_x", "center_y"):
                continue
            if o.get("light") and k == 2 and p in ("center_x", "center_y"):
                continue
            out.append("%d:%s" % (k, p))
    return out


def free_of(conf):
    out = names_of(conf)
    o = CONF[conf][6]
    if CONF[conf][5] and CONF[conf][5][1] == "psi":
        out.append("1:psi_ext")  # sampled, though only the strength matters
    if o.get("light"):
        out += ["L:center_x", "L:center_y"]
    return out + ["S:" + s for s in o.get("special", [])]


def solved_of(conf):
    return ["0:" + p for p in CONF[conf][4]] + (["%d:direction" % CONF[conf][5][0]] if CONF[conf][5] else [])


def strength(kind, d):
    if kind == "shear":
        return np.hypot(d["gamma1"], d["gamma2"])
    if kind == "psi":
        return d["gamma_ext"]
    return np.hypot(d["e1"], d["e2"])


def scene(job):
    """a lens with the images of a source"""
    conf, seed = job
    r = np.random.RandomState(seed)
    lst, gen, st, n, solved, turn, o = CONF[conf]
    special = {k: SPECIAL[k] for k in o.get("special", [])}
    for _ in range(60):
        kw = gen(r)
        if o.get("joint"):
            kw[2]["center_x"], kw[2]["center_y"] = kw[0]["center_x"], kw[0]["center_y"]
        phys = physical(conf, kw, special)
        s = (r.uniform(-0.06, 0.06), r.uniform(-0.06, 0.06)) if n == 4 else (r.uniform(-0.3, 0.3), r.uniform(-0.3, 0.3))
        lm = fresh_lens(conf, special)
        im = truth(lm, phys, s[0], s[1])
        if im is None or len(im) < n:
            continue
        x, y = np.array([i[0] for i in im]), np.array([i[1] for i in im])
        m = np.abs(lm.magnification(x, y, phys))
        ok = (m > 0.3) & (m < 15)
        x, y = x[ok], y[ok]
        if len(x) < n or (n == 4 and len(x) != 4):
            continue
        if n == 2:
            x, y = x[[0, 1]], y[[0, 1]]
        if min(np.hypot(x[i] - x[j], y[i] - y[j]) for i in range(n) for j in range(i)) < 0.4:
            continue
        return dict(conf=conf, kw=kw, x=x.tolist(), y=y.tolist(), seed=seed)
    return None


def physical(conf, kw, special):
    out = copy.deepcopy(kw)
    if "scale" in special:
        out[2]["theta_E"] = out[2]["theta_E"] * special["scale"]
    return out


def make_param(sc, init):
    from lenstronomy.Sampling.parameters import Param
    conf = sc["conf"]
    lst, gen, st, n, solved, turn, o = CONF[conf]
    model = dict(lens_model_list=list(lst), point_source_model_list=["LENSED_POSITION"])
    con = dict(solver_type=st, num_point_source_list=[n])
    if o.get("mp"):
        model.update(multi_plane=True, lens_redshift_list=([0.5, 0.8] if len(lst) == 2 else list(ZL)), z_source=2.0, z_source_convention=2.0, cosmo=cosmo_of(0.3))
    if o.get("light"):
        model.update(lens_light_model_list=["GAUSSIAN"])
        con.update(joint_lens_with_light=[[0, 2, ["center_x", "center_y"]]])
    if o.get("joint"):
        con.update(joint_lens_with_lens=[[0, 2, ["center_x", "center_y"]]])
    sp = o.get("special", [])
    fixed_special = {}
    if "scale" in sp:
        con.update(mass_scaling_list=[False, False, 1])
    if "z" in sp:
        con.update(lens_redshift_sampling_indexes=[-1, -1, 0])
    if "Om0" in sp:
        con.update(cosmology_sampling=True)
        model.update(cosmology_sampling=True, cosmology_model="FlatLambdaCDM")
        fixed_special = dict(H0=70.0)
    fixed = [{p: v for p, v in d.items() if p in HELD} for d in sc["kw"]]
    kw_f = dict(kwargs_fixed_lens=fixed, kwargs_fixed_ps=[{}], kwargs_fixed_special=fixed_special, kwargs_lens_init=init)
    if o.get("light"):
        kw_f.update(kwargs_fixed_lens_light=[dict(amp=1.0, sigma=0.3)])
    return Param(model, **kw_f, **con)


def vector_case(case):
    sc, hist, seed = case["sc"], case["hist"], case["seed"]
    conf = sc["conf"]
    lst, gen, st, n, solved, turn, o = CONF[conf]
    r = np.random.RandomState(seed % 2 ** 31)
    x0, y0 = np.array(sc["x"]), np.array(sc["y"])
    free = free_of(conf)
    sgn = {p: r.choice([-1, 1]) for p in free}
    jit = [(np.zeros(n), np.zeros(n))] + [(r.uniform(-1, 1, n) * 0.002, r.uniform(-1, 1, n) * 0.002) for _ in range(3)]

    def values(vec):
        """the model a vector stands for, as far as it is sampled"""
        kw = copy.deepcopy(sc["kw"])
        sp = {k: SPECIAL[k] for k in o.get("special", [])}
        L = dict(center_x=sc["kw"][-1].get("center_x"), center_y=sc["kw"][-1].get("center_y")) if o.get("light") else {}
        for p, v in vec.items():
            if o.get("still") or not v:
                continue
            a, q = p.split(":")
            d = sgn[p] * STEP[q] * v if q in STEP else 0.05 * v
            if a == "S":
                sp[q] += d
            elif a == "L":
                L[q] += d
            else:
                kw[int(a)][q] += d
        if o.get("light"):
            kw[2].update(L)
        if o.get("joint"):
            kw[2]["center_x"], kw[2]["center_y"] = kw[0]["center_x"], kw[0]["center_y"]
        return kw, sp, L

    def start(s):
        kw = copy.deepcopy(sc["kw"])
        rr = np.random.RandomState(100 + s)
        for p in solved:
            kw[0][p] += rr.uniform(-1, 1) * 0.01
        return kw

    def inputs(vec, img):
        kw, sp, L = values(vec)
        ks = {}
        if "scale" in sp:
            ks["scale_factor"] = [sp["scale"]]
        if "z" in sp:
            ks["z_sampling"] = [sp["z"]]
        if "Om0" in sp:
            ks.update(H0=70.0, Om0=sp["Om0"])
        d = dict(kwargs_lens=kw, kwargs_source=[], kwargs_lens_light=[dict(amp=1.0, sigma=0.3, **L)] if L else [],
                 kwargs_ps=[dict(ra_image=x0 + jit[img][0], dec_image=y0 + jit[img][1], point_amp=np.ones(n))], kwargs_special=ks)
        return d, kw, sp, L

    par = make_param(sc, start(0))
    mine = {}
    vec = None
    for i, h in enumerate(hist):
        act = h["act"]
        where = dict(conf=conf, step=i, act=act)
        if act["op"] == "rebuild":
            par = make_param(sc, start(h["start"]))
        num, names = par.num_param()
        for p in solved:
            require("%s_lens0" % p not in names, "what is solved for is not sampled", p=p, names=names, **where)
        for p in names_of(conf):
            if not (o.get("light") and p.startswith("2:center")):
                require("%s_lens%s" % (p.split(":")[1], p.split(":")[0]) in names, "the other parameters are sampled", p=p, names=names, **where)
        d, kw, sp, L = inputs(h["vec"], h["img"])
        if act["op"] != "roundtrip" or vec is None:
            vec = np.array(par.kwargs2args(**copy.deepcopy(d)))
        else:
            keepm = copy.deepcopy(m)
            vec2 = np.array(par.kwargs2args(**(m if r.randint(2) else par.args2kwargs(vec, bijective=True))))
            same_but = [j for j in range(num) if abs(vec2[j] - vec[j]) > 1e-9 * max(1, abs(vec[j]))]
            okn = {"gamma1_lens1", "gamma2_lens1"} if turn and turn[1] == "shear" and st == "PROFILE_SHEAR" else {"psi_ext_lens1"} if turn and turn[1] == "psi" else set()
            require(all(names[j] in okn or (names[j] == "theta_E_lens2" and "scale" in sp) for j in same_but), "the vector of a model is the vector it came from", got=[(names[j], vec[j], vec2[j]) for j in same_but], **where)
            if not any(names[j] == "theta_E_lens2" for j in same_but):
                vec = vec2
        require(len(vec) == num, "length of the vector", **where)
        keep = vec.copy()
        m = par.args2kwargs(vec)
        mb = par.args2kwargs(vec, bijective=True)
        require(np.array_equal(keep, vec), "the vector is not altered", **where)
        lens = m["kwargs_lens"]
        ph = physical(conf, kw, sp)
        lm = fresh_lens(conf, sp)
        x, y = x0 + jit[h["img"]][0], y0 + jit[h["img"]][1]
        require(np.allclose(m["kwargs_ps"][0]["ra_image"], x, 0, 1e-12) and np.allclose(m["kwargs_ps"][0]["dec_image"], y, 0, 1e-12), "image positions are those of the vector", **where)
        for k, dd in enumerate(lens):
            for p, v in dd.items():
                if (k == 0 and p in solved) or (turn and turn[0] == k and p in ("gamma1", "gamma2", "psi_ext", "e1", "e2")):
                    continue
                want = ph[k][p]
                if o.get("joint") and k == 2 and p in ("center_x", "center_y"):
                    want = lens[0][p]
                require(abs(v - want) < 1e-9 * max(1, abs(want)), "parameters that are not solved for keep their value", p=(k, p), got=v, want=want, **where)
                want = dict(kw[k], **({p: want} if o.get("joint") and k == 2 else {}))[p]
                require(abs(mb["kwargs_lens"][k][p] - want) < 1e-9 * max(1, abs(want)), "as sampled: parameters that are not solved for keep their value", p=(k, p), got=mb["kwargs_lens"][k][p], want=want, **where)
        if turn:
            s = strength(turn[1], kw[turn[0]])
            require(abs(strength(turn[1], lens[turn[0]]) - s) < 1e-9, "only the direction is solved for", got=strength(turn[1], lens[turn[0]]), want=s, **where)
        bx, by = lm.ray_shooting(x, y, lens)
        res = np.max(np.hypot(bx - bx[0], by - by[0]))
        if conf == "profile" and h["img"]:
            continue  # five parameters cannot meet six conditions in general
        rep = par.check_solver(lens, m["kwargs_ps"])
        require(abs(rep - res) < 1e-7, "the reported precision is that of the solution", got=float(rep), want=float(res), **where)
        if res > 1e-6:
            require(any(h["vec"].values()) or h["img"], "the images come from one source", off=float(res), sol=lens, truth=sc["kw"], **where)
            continue
        sol = [lens[0][p] for p in solved] + ([lens[turn[0]][p] for p in ("gamma1", "gamma2", "psi_ext", "e1", "e2") if p in lens[turn[0]]] if turn else [])
        if i % 3 == 0:
            from lenstronomy.LensModel.Solver.solver import Solver
            k0 = copy.deepcopy(lens)
            for p in solved:
                k0[0][p] = k0[0][p] + 0.001
            k1, xx, yy = copy.deepcopy(k0), x.copy(), y.copy()
            k2 = Solver(st, lm, n).update_solver(k0, xx, yy)
            require(same(flat(k0), flat(k1), 0, 0) and np.array_equal(xx, x) and np.array_equal(yy, y), "solving does not alter the input", **where)
            bx, by = lm.ray_shooting(x, y, k2)
            if not (any(h["vec"].values()) or h["img"]):
                require(np.max(np.hypot(bx - bx[0], by - by[0])) < 1e-6, "the images come from one source", sol=k2, **where)
            require(all(same(flat({a: b for a, b in u.items() if not (k == 0 and a in solved) and not (turn and turn[0] == k and a in ("gamma1", "gamma2", "psi_ext", "e1", "e2"))}),
                             flat({a: b for a, b in v.items() if not (k == 0 and a in solved) and not (turn and turn[0] == k and a in ("gamma1", "gamma2", "psi_ext", "e1", "e2"))}), 0, 0) for k, (u, v) in enumerate(zip(k0, k2))),
                    "only what is solved for changes", **where)
        key = (h["start"], vec.tobytes())
        if key in mine:
            require(np.max(np.abs(np.array(mine[key]) - sol)) < 1e-9, "the solution depends on vector and images only", got=sol, want=mine[key], **where)
        mine[key] = sol


CASES = dict(vector=vector_case)


def main(pid):
    import lenstronomy.Sampling.parameters  # noqa
    ck = Check(pid)
    nw, num, depth = (6, 16, 10) if THOROUGH else (2, 6, 8)
    jobs = [(c, ck.rng.randrange(10 ** 6)) for c in CONF for _ in range(nw)]
    from multiprocessing import Pool
    with Pool(8) as pool:
        scs = [s for s in pool.map(scene, jobs, 1) if s]
    miss = set(CONF) - {s["conf"] for s in scs}
    if len(miss) > 2:
        raise MachineryError("no scene for %s" % sorted(miss))
    mcs = [("ConstraintSolver", dict(Free=set(free_of(s["conf"])), Solved=set(solved_of(s["conf"])), Versions={0, 1, 2, 3}, Depth=depth), dict(invariants=["TypeOK", "RoundTripIsIdentity", "StateOnly", "Emit"]),
            dict(sim=dict(num=num, depth=depth + 1, seed=SEED + i))) for i, s in enumerate(scs)]
    cases = []
    for s, r in zip(scs, ck.mc_all(mcs, nproc=8)):
        for rec in behaviours(r.records):
            cases.append(dict(sc=s, hist=rec["hist"], seed=ck.rng.randrange(10 ** 6)))
    ck.rng.shuffle(cases)
    ck.run_cases(vector_case, cases, "vector")
    ck.assumptions = ["constraints that have a solution close to the initial model", "images at least 0.4 arcsec apart"]
    return ck.finish()
