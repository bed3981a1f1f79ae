"""C02: joint / scaled / mapped parameters against specs/JointParams.tla."""
import copy
import numpy as np
from common import *

LENS = ["SIE", "SIE", "SIE", "SHEAR"]
LNAMES = {"SIE": ["theta_E", "e1", "e2", "center_x", "center_y"], "SHEAR": ["gamma1", "gamma2", "ra_0", "dec_0"]}
GNAMES = ["amp", "sigma", "center_x", "center_y"]
KEY = {"lens": "kwargs_lens", "source": "kwargs_source", "lens_light": "kwargs_lens_light",
       "ps": "kwargs_ps", "special": "kwargs_special", "extinction": "kwargs_extinction",
       "tracer": "kwargs_tracer_source"}
ARG = {"lens": "lens", "source": "source", "lens_light": "lens_light", "ps": "ps",
       "extinction": "extinction", "tracer": "tracer_source"}
PKEY = {"lens": "lens_model", "source": "source_model", "lens_light": "lens_light_model",
        "ps": "point_source_model", "special": "special", "extinction": "extinction_model",
        "tracer": "tracer_source_model"}
NCOMP = {"lens": 4, "source": 2, "lens_light": 2, "ps": 2, "extinction": 1, "tracer": 1}
NIMG = 2
Z_LENS, Z_SRC = [0.5, 0.5, 0.7, 0.6], [2.0, 1.5]
ZIDX, ZSIDX = [0, -1, 1, 0], [-1, 2]


def comp_names(k, i):
    if k == "lens":
        return LNAMES[LENS[i]]
    if k == "ps":
        return ["ra_image", "dec_image"] if i == 0 else ["ra_source", "dec_source"]
    return GNAMES[1:] if k in ("source", "lens_light") else GNAMES


SLOTS = ["%s:%d:%s" % (k, i, n) for k in NCOMP for i in range(NCOMP[k]) for n in comp_names(k, i)]


def sl(k, i, *names):
    return ["%s:%d:%s" % (k, i, n) for n in names]


CXY = ("center_x", "center_y")
# (stage, constraint option, i, k, params (list or dict to->from), source class, target class)
POOL = [
    ("ll_ps", "joint_lens_light_with_point_source", 0, 1, None, "ps", "lens_light"),
    ("ll_ps", "joint_lens_light_with_point_source", 0, 0, None, "ps", "lens_light"),
    ("ll_ll", "joint_lens_light_with_lens_light", 0, 1, ["sigma"], "lens_light", "lens_light"),
    ("ll_ll", "joint_lens_light_with_lens_light", 0, 1, ["center_x", "center_y"], "lens_light", "lens_light"),
    ("ll_ll", "joint_lens_light_with_lens_light", 1, 0, ["center_y"], "lens_light", "lens_light"),
    ("lens_ll", "joint_lens_with_light", 0, 1, ["center_x", "center_y"], "lens_light", "lens"),
    ("lens_ll", "joint_lens_with_light", 1, 0, ["center_x"], "lens_light", "lens"),
    ("lens_ll", "joint_lens_with_light", 0, 3, {"ra_0": "center_x", "dec_0": "center_y"}, "lens_light", "lens"),
    ("lens_ll", "joint_lens_with_light", 1, 2, {"theta_E": "sigma"}, "lens_light", "lens"),
    ("lens_source", "joint_lens_with_source_light", 0, 2, ["center_x", "center_y"], "source", "lens"),
    ("lens_source", "joint_lens_with_source_light", 1, 2, {"e1": "sigma"}, "source", "lens"),
    ("ext_ll", "joint_extinction_with_lens_light", 0, 0, ["center_x", "center_y"], "lens_light", "extinction"),
    ("ext_ll", "joint_extinction_with_lens_light", 1, 0, ["sigma"], "lens_light", "extinction"),
    ("lens_lens", "joint_lens_with_lens", 0, 1, ["theta_E"], "lens", "lens"),
    ("lens_lens", "joint_lens_with_lens", 0, 1, ["e1", "e2"], "lens", "lens"),
    ("lens_lens", "joint_lens_with_lens", 1, 2, ["e1", "e2"], "lens", "lens"),
    ("lens_lens", "joint_lens_with_lens", 0, 2, ["center_x", "center_y"], "lens", "lens"),
    ("lens_lens", "joint_lens_with_lens", 0, 3, {"ra_0": "center_x", "dec_0": "center_y"}, "lens", "lens"),
    ("lens_lens", "joint_lens_with_lens", 2, 3, {"gamma1": "e1", "gamma2": "e2"}, "lens", "lens"),
    ("source_ps", "joint_source_with_point_source", 0, 0, None, "ps", "source"),
    ("source_ps", "joint_source_with_point_source", 0, 1, None, "ps", "source"),
    ("source_ps", "joint_source_with_point_source", 1, 1, None, "ps", "source"),
    ("source_source", "joint_source_with_source", 0, 1, ["center_x", "center_y"], "source", "source"),
    ("source_source", "joint_source_with_source", 0, 1, ["sigma"], "source", "source"),
    ("source_source", "joint_source_with_source", 1, 0, ["center_x"], "source", "source"),
    ("source_tracer", "joint_source_light_with_tracer", 0, 0, ["center_x", "center_y"], "source", "tracer"),
    ("source_tracer", "joint_source_light_with_tracer", 1, 0, ["sigma"], "source", "tracer"),
]
STAGES = ["ll_ps", "ll_ll", "lens_ll", "lens_source", "ext_ll", "lens_lens", "scaling", "image_plane", "source_ps",
          "source_source", "source_tracer"]


def pairs(d):
    _, _, i, k, par, a, b = d
    if par is None:
        frm = ("ra_image", "dec_image") if i == 0 else ("ra_source", "dec_source")
        return [("%s:%d:%s" % (a, i, f), "%s:%d:%s" % (b, k, t)) for f, t in zip(frm, CXY)]
    if isinstance(par, dict):
        return [("%s:%d:%s" % (a, i, f), "%s:%d:%s" % (b, k, t)) for t, f in par.items()]
    return [("%s:%d:%s" % (a, i, n), "%s:%d:%s" % (b, k, n)) for n in par]


MASS_OPTS = [{}, {"lens0": 1}, {"lens1": 1, "lens2": 1}, {"lens0": 1, "lens2": 2}, {"lens0": 2, "lens1": 1, "lens2": 1}]
GEN_OPTS = [{}, {"theta_E": {"lens1": 1, "lens2": 1}}, {"theta_E": {"lens0": 1, "lens1": 2}},
            {"theta_E": {"lens2": 1}, "e1": {"lens0": 1, "lens2": 1}}]


def value(s, round_):
    """Sampled value of a scalar: positive, distinct, changes with the round."""
    i = SLOTS.index(s)
    base = 0.07 + 0.0031 * i + 0.011 * round_
    if s.endswith("theta_E"):
        return 0.6 + base
    if s.endswith("sigma"):
        return 0.2 + base
    return base


def vec_value(s, round_):
    if s.startswith("ps:0"):
        return [value(s, round_) + 0.9 * (-1) ** j + 0.05 * j for j in range(NIMG)]
    return value(s, round_)


def special_value(c, round_):
    out = {}
    n = max([0] + list(c["mass"].values()))
    if n:
        out["scale_factor"] = [1.1 + 0.2 * j + 0.03 * round_ for j in range(n)]
    for name, m in c["gen"].items():
        g = max(m.values())
        out[name + "_scale_factor"] = [0.8 + 0.3 * j + 0.02 * round_ for j in range(g)]
        out[name + "_scale_pow"] = [1.5 + 0.5 * j + 0.1 * round_ for j in range(g)]
    if c["z"]:
        out["z_sampling"] = [0.45 + 0.02 * round_, 0.8 - 0.03 * round_, 1.4 + 0.05 * round_]
    return out


def setup(c):
    km = dict(lens_model_list=list(LENS), source_light_model_list=["GAUSSIAN"] * 2,
              lens_light_model_list=["GAUSSIAN"] * 2, point_source_model_list=["LENSED_POSITION", "SOURCE_POSITION"],
              optical_depth_model_list=["GAUSSIAN"], tracer_source_model_list=["GAUSSIAN"])
    if c["z"]:
        km.update(multi_plane=True, lens_redshift_list=list(Z_LENS), z_source=2.0, source_redshift_list=list(Z_SRC),
                  z_source_convention=2.5)
    kc = {"num_point_source_list": [NIMG, 1]}
    for d in sorted(c["decls"]):
        st, opt, i, k, par, a, b = POOL[d - 1]
        kc.setdefault(opt, []).append([i, k] if par is None else [i, k, copy.deepcopy(par)])
    if c["ip"]:
        kc["image_plane_source_list"] = ["source0" in c["ip"], "source1" in c["ip"]]
    if c["mass"]:
        kc["mass_scaling_list"] = [c["mass"].get("lens%d" % i, 0) or False for i in range(4)]
    if c["gen"]:
        kc["general_scaling"] = {n: [m.get("lens%d" % i, 0) or False for i in range(4)] for n, m in c["gen"].items()}
    if c["z"]:
        kc["lens_redshift_sampling_indexes"] = list(ZIDX)
        kc["source_redshift_sampling_indexes"] = list(ZSIDX)
    return km, kc


def model(c, fn):
    out = {k: [{n: fn("%s:%d:%s" % (k, i, n)) for n in comp_names(k, i)} for i in range(NCOMP[k])] for k in NCOMP}
    for k in ("source", "lens_light"):
        for d in out[k]:
            d["amp"] = 1.0
    out["ps"][0]["point_amp"] = [1.0] * NIMG
    out["ps"][1]["point_amp"] = [1.0]
    return out


def getp(m, s):
    k, i, n = s.split(":")
    return m[KEY[k]][int(i)][n]


class Eval:
    """Interprets the terms of the specification with fresh lens models."""

    def __init__(self, c, own, special):
        self.c, self.own, self.sp = c, own, special
        self.z_lens, self.z_src = list(Z_LENS), list(Z_SRC)
        if c["z"]:
            z = special["z_sampling"]
            self.z_lens = [z[j] if j >= 0 else zz for j, zz in zip(ZIDX, self.z_lens)]
            self.z_src = [z[j] if j >= 0 else zz for j, zz in zip(ZSIDX, self.z_src)]
        self.lens = [{n: self.term(c["phys"]["lens:%d:%s" % (i, n)]) for n in comp_names("lens", i)} for i in range(4)]

    def term(self, t):
        k = t["t"]
        if k == "own":
            return self.own(t["p"])
        if k == "mean":
            return float(np.mean(self.own(t["p"])))
        if k == "mass":
            return self.sp["scale_factor"][t["g"] - 1] * self.term(t["x"])
        if k == "gen":
            return self.sp[t["n"] + "_scale_factor"][t["g"] - 1] * self.term(t["x"]) ** self.sp[t["n"] + "_scale_pow"][t["g"] - 1]
        if k == "ray":
            x, y = self.ray(np.array([self.term(t["x"])]), np.array([self.term(t["y"])]), t["src"])
            return float((x if t["ax"] == "x" else y)[0])
        if k == "rayps":
            x, y = self.ray(np.array(self.own("ps:0:ra_image")), np.array(self.own("ps:0:dec_image")), t["src"])
            return float(np.mean(x if t["ax"] == "x" else y))
        raise MachineryError("unknown term %r" % (t,))

    def ray(self, x, y, src):
        from lenstronomy.LensModel.lens_model import LensModel
        if self.c["z"]:
            lm = LensModel(list(LENS), lens_redshift_list=self.z_lens, multi_plane=True,
                           z_source=self.z_src[int(src[-1])], z_source_convention=2.5)
        else:
            lm = LensModel(list(LENS))
        return lm.ray_shooting(x, y, self.lens)


def joint_case(c):
    from lenstronomy.Sampling.parameters import Param
    from lenstronomy.Workflow.update_manager import UpdateManager
    for f in ("mass", "gen"):
        if not c[f]:
            c[f] = {}
    km, kc = setup(c)
    fixed = {k: [{} for _ in range(NCOMP[k])] for k in NCOMP}
    for s in c["fixed"]:
        k, i, n = s.split(":")
        fixed[k][int(i)][n] = vec_value(s, 9)
    lower = model(c, lambda s: [-50.0] * NIMG if s.startswith("ps:0") else -50.0)
    upper = model(c, lambda s: [50.0] * NIMG if s.startswith("ps:0") else 50.0)
    sp0 = special_value(c, 0)
    splo = {n: [0.01] * len(v) for n, v in sp0.items()}
    sphi = {n: [50.0] * len(v) for n, v in sp0.items()}
    kw = {}
    for k, a in ARG.items():
        kw["kwargs_fixed_" + a], kw["kwargs_lower_" + a], kw["kwargs_upper_" + a] = fixed[k], lower[k], upper[k]
    kw.update(kwargs_fixed_special={}, kwargs_lower_special=splo, kwargs_upper_special=sphi)
    inputs = (km, kc, kw)
    keep = copy.deepcopy(inputs)
    p = Param(km, linear_solver=True, **kw, **kc)
    n, names = p.num_param()
    want = sum(NIMG if s.startswith("ps:0") else 1 for s in c["sampled"]) + sum(len(v) for v in sp0.values())
    require(n == want, "number of sampled parameters", got=names, want=want)
    init = model(c, lambda s: vec_value(s, 0))
    um = UpdateManager(km, kc, {}, dict(
        [(PKEY[k], [init[k], init[k], fixed[k], lower[k], upper[k]]) for k in NCOMP],
        special=[sp0, sp0, {}, splo, sphi]))
    first = {}
    for round_ in (0, 1, 2, 1):
        def own(s):
            return vec_value(s, 9) if s in c["fixed"] else vec_value(s, round_)
        sp = special_value(c, round_)
        args = p.kwargs2args(**{KEY[k]: v for k, v in model(c, own).items()}, kwargs_special=sp)
        require(len(args) == n, "length of the vector", got=len(args), want=n)
        ev = Eval(c, own, sp)
        for bij in (True, False):
            terms = c["bij" if bij else "phys"]
            m = p.args2kwargs(args, bijective=bij)
            compare(c, ev, m, terms, "bijective" if bij else "physical", round_)
            if bij:
                require(close(p.kwargs2args(**m), args), "vector -> model -> vector")
                um.update_param_state(**copy.deepcopy(m))
                mb = m
        compare(c, ev, um.best_fit(bijective=True), c["bij"], "best fit, bijective", round_)
        compare(c, ev, um.best_fit(bijective=False), c["phys"], "best fit, physical", round_)
        compare(c, ev, um.best_fit(bijective=False), c["phys"], "best fit, physical, again", round_)
        if c["z"]:
            km2, changed = p.update_kwargs_model(sp)
            require(changed and close(list(km2["lens_redshift_list"]), ev.z_lens) and close(list(km2["source_redshift_list"]), ev.z_src),
                    "sampled redshifts", got=(list(km2["lens_redshift_list"]), list(km2["source_redshift_list"])))
            for o in km:
                if "redshift_list" not in o:
                    require(km2[o] == km[o], "redshift sampling altered another model option", option=o)
    require(same(inputs, keep), "inputs were altered")


def compare(c, ev, m, terms, what, round_):
    for s in SLOTS:
        got = getp(m, s)
        want = ev.term(terms[s])
        require(close(got, want, rtol=1e-7, atol=1e-9), "value of a parameter in the %s model" % what.split(",")[0], where=what,
                slot=s, got=got, want=want, term=terms[s], round=round_)
    for n, v in ev.sp.items():
        require(close(m["kwargs_special"][n], v), "special parameter", name=n)


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b


CASES = {"joint": joint_case}


def defs(samples):
    lens = [s for s in SLOTS if s.startswith("lens:")]
    srcpos = [s for s in SLOTS if s.startswith("source:") and s.endswith(CXY)]
    pool = [dict(stage=d[0], pairs=[list(x) for x in pairs(d)]) for d in POOL]

    def fn(d):
        return fn_tla(d)
    gen = [fn_tla({n: fn_tla(m) for n, m in g.items()}) for g in GEN_OPTS]
    return dict(
        Slots=set(SLOTS), Pool=pool, Stages=STAGES,
        MassOpts=Raw("{" + ", ".join(fn_tla(m) for m in MASS_OPTS) + "}"),
        GenOpts=Raw("{" + ", ".join(gen) + "}"),
        LensOf=fn_tla({s: "lens" + s.split(":")[1] for s in lens}),
        NameOf=fn_tla({s: s.split(":")[2] for s in SLOTS}), MassName="theta_E",
        CompOf=fn_tla({s: 'source' + s.split(':')[1] for s in SLOTS if s.startswith('source:')}),
        SrcOf=fn_tla({s: "source" + s.split(":")[1] for s in srcpos}), Sources={"source0", "source1"},
        AxisOf=fn_tla({s: s[-1] for s in srcpos}),
        PosOf=fn_tla({"source%d" % i: dict(x="source:%d:center_x" % i, y="source:%d:center_y" % i) for i in range(2)}),
        LensPosPS={"ps:0:ra_image", "ps:0:dec_image"},
        Fixable={s for s in SLOTS if not s.startswith("ps:")}, ZOpts=Raw("{TRUE, FALSE}"), MaxDecl=7, MaxFix=6, Samples=samples)


def main(pid):
    import lenstronomy.Workflow.update_manager  # noqa
    ck = Check(pid)
    nrun, ns = (3, 500) if not THOROUGH else (8, 6000)
    jobs = [("JointParams", defs(ns), dict(invariants=["JointHolds", "OwnOnly", "Agree", "Emit"]),
             dict(args=("-seed", str(SEED * 100 + j)))) for j in range(nrun)]
    # every pair of declarations at least once, exhaustively over the other options
    cases, seen = [], set()
    for r in ck.mc_all(jobs):
        for rec in r.records:
            k = canon([rec[x] for x in ("decls", "ip", "mass", "gen", "z", "fixed")])
            if k not in seen:
                seen.add(k)
                cases.append(rec)
    ck.run_cases(joint_case, cases, "joint")
    ck.extra["declaration_sets"] = len({canon(r["decls"]) for r in cases})
    ck.assumptions = ["one declaration per dependent parameter; a chain is declared in hierarchy order",
                      "positive values for parameters under general scaling"]
    return ck.finish()
