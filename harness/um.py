"""C03: the parameter-management state machine (UpdateManager / MultiBandUpdateManager / the
settings steps of FittingSequence) replayed against specs/UpdateManager.tla."""
import copy
import numpy as np
from common import *

FREE, NONE = 999, 998

# parameter "class:component:name"; every other parameter of the components is fixed
DEFAULT = {
    "SIS": dict(theta_E=1.0, center_x=0.0, center_y=0.0),
    "SIE": dict(theta_E=1.0, e1=0.0, e2=0.0, center_x=0.0, center_y=0.0),
    "GAUSSIAN": dict(amp=1.0, sigma=1.0, center_x=0.0, center_y=0.0),
    "SOURCE_POSITION": dict(ra_source=0.0, dec_source=0.0),
}
KEY = {"lens": "kwargs_lens", "source": "kwargs_source", "lens_light": "kwargs_lens_light",
       "ps": "kwargs_ps", "special": "kwargs_special", "extinction": "kwargs_extinction",
       "tracer": "kwargs_tracer_source"}
PKEY = {"lens": "lens_model", "source": "source_model", "lens_light": "lens_light_model",
        "ps": "point_source_model", "special": "special", "tracer": "tracer_source_model"}
FIXPOS = ["lens", "source", "lens_light", "ps", "special", "extinction", "tracer"]

CONFIGS = {
    # exhaustive: two lens components seen by overlapping bands, one source, one special parameter
    "small": dict(
        models=dict(lens=["SIS", "SIS"], source=["GAUSSIAN"]),
        P=["lens:0:theta_E", "lens:1:theta_E", "source:0:sigma"],
        bands=[[0], [0, 1]], V=[0, 1], fixed0={"source:0:sigma": 1}, init={}),
    "special": dict(
        models=dict(lens=["SIS"]),
        P=["lens:0:theta_E", "special::D_dt"],
        bands=[[0]], V=[0, 1, 2], fixed0={}, init={"lens:0:theta_E": 2}),
    "limits": dict(
        models=dict(lens=["SIS"], source=["GAUSSIAN"]),
        P=["lens:0:theta_E", "source:0:sigma"],
        bands=[[0]], V=[0, 1], fixed0={}, init={}),
    "large": dict(
        models=dict(lens=["SIE", "SIS", "SIS"], source=["GAUSSIAN", "GAUSSIAN"],
                    lens_light=["GAUSSIAN", "GAUSSIAN"], ps=["SOURCE_POSITION"],
                    tracer=["GAUSSIAN"]),
        P=["lens:0:theta_E", "lens:0:e1", "lens:0:e2", "lens:0:center_x", "lens:1:theta_E",
           "lens:1:center_y", "lens:2:theta_E", "source:0:sigma", "source:1:sigma",
           "source:1:center_x", "lens_light:0:sigma", "lens_light:1:center_y",
           "ps:0:ra_source", "ps:0:dec_source", "tracer:0:sigma", "special::D_dt",
           "special::source_size"],
        bands=[[0, 1], [1, 2], [2]], V=[0, 1, 2, 3],
        fixed0={"lens:0:e1": 2, "lens:1:theta_E": 1, "source:1:center_x": 3, "tracer:0:sigma": 0},
        init={"lens:0:theta_E": 3, "lens:0:e1": 2, "lens:1:theta_E": 1, "source:1:center_x": 3,
              "tracer:0:sigma": 0, "lens:2:theta_E": 2, "special::D_dt": 1}),
}


def real(v):
    return 0.125 + 0.25 * v        # exactly representable


def cls(p):
    return p.split(":")[0]


def build(conf, target):
    """Return a fresh driver object for the configuration."""
    c = CONFIGS[conf]
    m = c["models"]
    km = {}
    for k, name in (("lens", "lens_model_list"), ("source", "source_light_model_list"),
                    ("lens_light", "lens_light_model_list"), ("ps", "point_source_model_list"),
                    ("tracer", "tracer_source_model_list")):
        if k in m:
            km[name] = list(m[k])
    km["index_lens_model_list"] = [list(b) for b in c["bands"]]
    params = {}
    for k in m:
        init, fixed, low, up, sig = [], [], [], [], []
        for i, prof in enumerate(m[k]):
            d = dict(DEFAULT[prof])
            f = {}
            lo, hi, sg = {}, {}, {}
            for n in d:
                p = "%s:%d:%s" % (k, i, n)
                if p in c["P"]:
                    d[n] = real(c["init"].get(p, 0))
                    if p in c["fixed0"]:
                        f[n] = real(c["fixed0"][p])
                else:
                    f[n] = d[n]
                lo[n], hi[n], sg[n] = real(-1), real(5), real(1)
            init.append(d), fixed.append(f), low.append(lo), up.append(hi), sig.append(sg)
        params[PKEY[k]] = [init, sig, fixed, low, up]
    spec = [p.split(":")[2] for p in c["P"] if cls(p) == "special"]
    kc = {}
    if "D_dt" in spec:
        kc["Ddt_sampling"] = True
    if "source_size" in spec:
        kc["source_size"] = True
    if "ps" in m:
        kc["num_point_source_list"] = [1]
    if spec:
        params["special"] = [
            {n: real(c["init"].get("special::" + n, 0)) for n in spec},
            {n: real(1) for n in spec},
            {n: real(c["fixed0"]["special::" + n]) for n in spec if "special::" + n in c["fixed0"]},
            {n: real(-1) for n in spec}, {n: real(5) for n in spec}]
    kl = {}
    user = (km, kc, kl, params)
    snap = copy.deepcopy(user)
    if target == "manager":
        from lenstronomy.Workflow.multi_band_manager import MultiBandUpdateManager
        obj = MultiBandUpdateManager(km, kc, kl, params, num_bands=len(c["bands"]))
    else:
        from lenstronomy.Workflow.fitting_sequence import FittingSequence
        obj = FittingSequence({"multi_band_list": [[{}, {}, {}] for _ in c["bands"]],
                               "multi_band_type": "multi-linear"}, km, kc, kl, params, verbose=False)
    return obj, user, snap, spec


def entries(A):
    """{parameter: value or None} of one class -> request list; parameters of one component share an entry
    where the format allows it (all with or all without a value)."""
    groups = {}
    for p in sorted(A):
        groups.setdefault((int(p.split(":")[1]), A[p] is None), []).append(p)
    out = []
    for (i, none), ps in sorted(groups.items()):
        e = [i, [p.split(":")[2] for p in ps]]
        if not none:
            e.append([A[p] for p in ps])
        out.append(e)
    return out


def by_class(A):
    out = {}
    for p, v in A.items():
        out.setdefault(cls(p), {})[p] = v
    return out


def do(obj, target, act, conf):
    c = CONFIGS[conf]
    op = act["op"]
    nb = len(c["bands"])
    if op == "settings":
        kw = {}
        add = act["add"] or {}
        if isinstance(add, list):
            add = {}
        for k, A in by_class(add).items():
            if k == "special":
                kw["special_add_fixed"] = [p.split(":")[2] for p in A]
            else:
                kw[{"tracer": "tracer_source"}.get(k, k) + "_add_fixed"] = entries(
                    {p: None if v == NONE else real(v) for p, v in A.items()})
        for k, A in by_class({p: None for p in act["rem"]}).items():
            if k == "special":
                kw["special_remove_fixed"] = [p.split(":")[2] for p in A]
            else:
                kw[{"tracer": "tracer_source"}.get(k, k) + "_remove_fixed"] = entries(A)
        keep = copy.deepcopy(kw)
        if target == "manager":
            obj.update_fixed(**kw)
        else:
            obj.fit_sequence([["update_settings", kw]])
        require(kw == keep, "a settings step altered the request of the user")
    elif op == "set":
        kw = {k: entries({p: real(v) for p, v in A.items()}) for k, A in by_class(act["a"]).items()}
        if target == "manager":
            obj.update_param_value(**kw)
        else:
            obj.fit_sequence([["set_param_value", kw]])
    elif op == "restart":
        if target == "manager":
            obj.set_init_state()
        else:
            obj.fit_sequence([["restart", {}]])
    elif op == "result":
        pc = obj.param_class
        n, names = pc.num_param()
        args = [real(act["w"][p]) for p in names_to_params(names, conf)]
        res = pc.args2kwargs(args, bijective=True)
        keep = copy.deepcopy(res)
        if target == "manager":
            obj.update_param_state(**res)
        else:
            obj.update_state(res)
        return res, keep
    elif op == "limit":
        kw = {}
        for k, A in by_class(act["a"]).items():
            e = entries({p: real(v) for p, v in A.items()})
            if act["which"] == "sig":
                kw["change_sigma_" + k] = e
            else:
                kw["change_%s_%s_limit" % (k, {"low": "lower", "up": "upper"}[act["which"]])] = e
        if target == "manager":
            (obj.update_sigmas if act["which"] == "sig" else obj.update_limits)(**kw)
        else:
            obj.fit_sequence([["update_settings", kw]])
    elif op in ("keep", "undo"):
        s = sorted(i - 1 for i in act["s"])
        if target == "manager":
            (obj.keep_frame_fixed if op == "keep" else obj.undo_frame_fixed)(s)
        else:
            return "skip"
    elif op == "fnc":
        free = [(i + 1) in act["s"] for i in range(nb)]
        if target == "manager":
            obj.fix_not_computed(free)
        else:
            obj.fit_sequence([["fix_not_computed", {"free_bands": free}]])
    else:
        raise MachineryError("unknown action %r" % (act,))


SUFFIX = {"lens": "lens", "source": "source_light", "lens_light": "lens_light", "tracer": None}


def names_to_params(names, conf):
    """Names of the sampled parameters -> parameters of the specification, in vector order."""
    c = CONFIGS[conf]
    table = {}
    for p in c["P"]:
        k, i, n = p.split(":")
        if k in ("lens", "source", "lens_light"):
            table["%s_%s%s" % (n, SUFFIX[k], i)] = p
        elif k == "tracer":
            table["%s_%s%s" % (n, "light", i)] = p
        else:
            table[n] = p
    out = []
    for n in names:
        if n not in table:
            # tolerate a different label for tracers / specials
            raise Violation("a parameter that is not free is sampled, or is labelled differently",
                            name=n, known=sorted(table))
        out.append(table[n])
    return out


def getp(kw, p):
    k, i, n = p.split(":")
    d = kw[KEY[k]]
    return d[n] if k == "special" else d[int(i)][n]


def observe(obj, target, conf, st, user, snap, history, spec):
    c = CONFIGS[conf]
    P = c["P"]
    state = obj.parameter_state if target == "manager" else obj.best_fit(bijective=True)
    for p in P:
        require(close(getp(state, p), real(st["val"][p])), "current value of a parameter", p=p,
                got=getp(state, p), want=real(st["val"][p]))
    fixed = obj.fixed_kwargs if target == "manager" else obj.kwargs_fixed
    for k in FIXPOS:
        have = fixed[FIXPOS.index(k)]
        if k == "special":
            want = {p.split(":")[2]: real(st["fixed"][p]) for p in P
                    if cls(p) == "special" and st["fixed"][p] != FREE}
            require(set(want) == set(have) and all(close(have[n], want[n]) for n in want),
                    "fixed special parameters", got=dict(have), want=want)
            continue
        for i, prof in enumerate(c["models"].get(k, [])):
            want = {}
            for n in DEFAULT[prof]:
                p = "%s:%d:%s" % (k, i, n)
                if p in P:
                    if st["fixed"][p] != FREE:
                        want[n] = real(st["fixed"][p])
                else:
                    want[n] = DEFAULT[prof][n]
            got = {n: v for n, v in have[i].items() if n in DEFAULT[prof]}
            require(set(want) == set(got) and all(close(got[n], want[n]) for n in want),
                    "parameters held fixed", cls=k, comp=i, got=got, want=want)
    if target == "manager":
        for which, kws in (("low", obj.lower_kwargs), ("up", obj.upper_kwargs), ("sig", obj.sigma_kwargs)):
            for p in P:
                require(close(getp(kws, p), real(st[which][p])), "bound or width of a parameter",
                        which=which, p=p, got=getp(kws, p), want=real(st[which][p]))
        for p in P:
            require(close(getp(obj.init_kwargs, p), real(c["init"].get(p, 0))), "initial value changed", p=p)
    pc = obj.param_class
    n, names = pc.num_param()
    order = names_to_params(names, conf)
    free = sorted(p for p in P if st["fixed"][p] == FREE)
    require(n == len(names) and sorted(order) == free, "sampled parameters are exactly the free ones",
            got=sorted(order), want=free, n=n)
    lo, hi = pc.param_limits()
    require(len(lo) == n and len(hi) == n, "length of the parameter limits", n=n, lo=len(lo))
    for j, p in enumerate(order):
        require(close(lo[j], real(st["low"][p])) and close(hi[j], real(st["up"][p])),
                "limits of the sampled vector", p=p, lo=lo[j], hi=hi[j])
    args = pc.kwargs2args(**state)
    require(len(args) == n, "length of the sampled vector")
    for j, p in enumerate(order):
        require(close(args[j], real(st["val"][p])), "sampled vector holds the current value", p=p)
    back = pc.args2kwargs(args, bijective=True)
    for p in P:
        want = real(st["val"][p] if st["fixed"][p] == FREE else st["fixed"][p])
        require(close(getp(back, p), want), "model from the sampled vector", p=p, got=getp(back, p), want=want)
    require(canon_np(user) == canon_np(snap), "input of the user was altered")
    for i, (o, keep) in enumerate(history):
        require(canon_np(o) == canon_np(keep), "a model handed out or in earlier was altered", age=len(history) - i)


def canon_np(x):
    if isinstance(x, dict):
        return tuple(sorted((k, canon_np(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(canon_np(v) for v in x)
    if isinstance(x, np.ndarray):
        return ("nd",) + tuple(np.asarray(x, float).ravel().tolist())
    if isinstance(x, (float, np.floating, int, np.integer)) and not isinstance(x, bool):
        return float(x)
    return x


def walk_case(case):
    conf, target = case["conf"], case["target"]
    obj, user, snap, spec = build(conf, target)
    history = []
    observe(obj, target, conf, case["init"], user, snap, history, spec)
    for i, (act, post) in enumerate(case["walk"]):
        r = do(obj, target, act, conf)
        if isinstance(r, tuple):
            history.append(r)
        try:
            observe(obj, target, conf, post, user, snap, history, spec)
        except Violation as v:
            v.detail.update(step=i, act=act)
            raise
        b = obj.best_fit(bijective=True)
        history.append((b, copy.deepcopy(b)))
        history[:] = history[-6:]


CASES = {"walk": walk_case}


def tla_sets(bands):
    return Raw("<<" + ", ".join("{" + ", ".join(map(str, b)) + "}" for b in bands) + ">>")


def defs(conf, maxmulti, ops, depth=0):
    c = CONFIGS[conf]
    P = c["P"]
    lens = [p for p in P if cls(p) == "lens"]
    return dict(
        P=set(P), Special={p for p in P if cls(p) == "special"},
        LimitP={p for p in P if cls(p) in ("lens", "source")},
        SigmaP={p for p in P if cls(p) in ("lens", "source", "lens_light")},
        SetP={p for p in P if cls(p) in ("lens", "source", "lens_light", "ps")},
        Lens=set(lens), Comp=fn_tla({p: int(p.split(":")[1]) for p in lens}),
        Bands=tla_sets(c["bands"]), V=set(c["V"]),
        Init0=fn_tla({p: c["init"].get(p, 0) for p in P}),
        Fixed0=fn_tla({p: c["fixed0"].get(p, FREE) for p in P}),
        LimV={6, 7} if conf == "large" else {6}, MaxMulti=maxmulti, Depth=depth, Ops=set(ops))


def main(pid):
    import lenstronomy.Workflow.fitting_sequence  # noqa (imported once, before the workers fork)
    ck = Check(pid)
    inv = ["TypeOK", "FixedWins", "RestartExact", "EmitInit"]
    props = ["HoldKeepsModel", "FncHolds", "UndoRestores"]
    model = ("settings", "set", "result", "frames")
    for conf, mm, ops in (("small", 1, model), ("special", 2 if THOROUGH else 1, model), ("limits", 2, ("limit", "set"))):
        r = ck.mc("UpdateManager", defs(conf, mm, ops), dict(
            invariants=inv, properties=props, action_constraints=["EmitStep"], view="View"))
        lts = LTS(r.records)
        walks = lts.walks(ck.rng, max_len=120 if not THOROUGH else 60)
        walks += lts.random_walks(ck.rng, 40 if not THOROUGH else 800, 40)
        cases = [dict(conf=conf, target="manager", init=lts.state[i],
                      walk=[(a, lts.state[s]) for a, s in w]) for i, w in walks]
        # the frame operations are not steps of a fitting sequence: drop them there
        ck.run_cases(walk_case, cases, "walk")
        seqs = []
        for _ in range(24 if not THOROUGH else 400):
            cur = ck.rng.choice(lts.inits)
            i0, w = cur, []
            for _ in range(25):
                opts = [(a, s) for a, s in lts.succ[cur] if a["op"] not in ("keep", "undo")]
                a, cur = ck.rng.choice(opts)
                w.append((a, lts.state[cur]))
            seqs.append(dict(conf=conf, target="sequence", init=lts.state[i0], walk=w))
        ck.run_cases(walk_case, seqs, "walk")
        ck.extra.setdefault("transitions_replayed", {})[conf] = lts.n_trans
    depth = 30
    r = ck.mc("UpdateManager", defs("large", 3, ("all",), depth), dict(
        next_="SimNext", invariants=["TypeOK", "FixedWins", "RestartExact", "EmitHist"], properties=()),
        sim=dict(num=60 if not THOROUGH else 3000, depth=depth + 1))
    init = dict(val={p: CONFIGS["large"]["init"].get(p, 0) for p in CONFIGS["large"]["P"]},
                fixed={p: CONFIGS["large"]["fixed0"].get(p, FREE) for p in CONFIGS["large"]["P"]},
                low={p: -1 for p in CONFIGS["large"]["P"]}, up={p: 5 for p in CONFIGS["large"]["P"]},
                sig={p: 1 for p in CONFIGS["large"]["P"]})
    cases = [dict(conf="large", target="manager", init=init,
                  walk=[(h["act"], h["post"]) for h in rec["hist"]]) for rec in behaviours(r.records)]
    ck.run_cases(walk_case, cases, "walk")
    ck.assumptions = ["parameter values are taken from a small exactly representable set",
                      "joint constraints are left to C02"]
    return ck.finish()
