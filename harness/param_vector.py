"""C01: layout of the sampled parameter vector against specs/ParamVector.tla."""
import copy
import numpy as np
from common import *

LENS = {
    "SIE": ["theta_E", "e1", "e2", "center_x", "center_y"],
    "EPL": ["theta_E", "gamma", "e1", "e2", "center_x", "center_y"],
    "SHEAR": ["gamma1", "gamma2", "ra_0", "dec_0"],
    "NFW": ["Rs", "alpha_Rs", "center_x", "center_y"],
    "CONVERGENCE": ["kappa", "ra_0", "dec_0"],
    "MULTI_GAUSSIAN": ["amp", "sigma", "scale_factor", "center_x", "center_y"],
    "PJAFFE": ["sigma0", "Ra", "Rs", "center_x", "center_y"],
}
LIGHT = {
    "GAUSSIAN": ["amp", "sigma", "center_x", "center_y"],
    "SERSIC": ["amp", "R_sersic", "n_sersic", "center_x", "center_y"],
    "SERSIC_ELLIPSE": ["amp", "R_sersic", "n_sersic", "e1", "e2", "center_x", "center_y"],
    "UNIFORM": ["amp"],
    "SHAPELETS": ["amp", "n_max", "beta", "center_x", "center_y"],
    "SHAPELETS_POLAR_EXP": ["amp", "n_max", "beta", "center_x", "center_y"],
    "MULTI_GAUSSIAN": ["amp", "sigma", "center_x", "center_y"],
    "MULTI_GAUSSIAN_ELLIPSE": ["amp", "sigma", "e1", "e2", "center_x", "center_y"],
}
NMAX = {"SHAPELETS": 2, "SHAPELETS_POLAR_EXP": 1}
NSIG = 3
LNAME = {"source": "source_light_model_list", "lens_light": "lens_light_model_list",
         "extinction": "optical_depth_model_list", "tracer": "tracer_source_model_list"}
KEY = {"lens": "kwargs_lens", "source": "kwargs_source", "lens_light": "kwargs_lens_light",
       "ps": "kwargs_ps", "special": "kwargs_special", "extinction": "kwargs_extinction",
       "tracer": "kwargs_tracer_source"}
ARG = {"lens": "lens", "source": "source", "lens_light": "lens_light", "ps": "ps", "special": "special",
       "extinction": "extinction", "tracer": "tracer_source"}
LABEL = {"lens": "lens", "source": "source_light", "lens_light": "lens_light"}

CONFIGS = {
    "lens": dict(lens=["EPL", "SHEAR"], log=["lens:0:theta_E", "lens:0:gamma"],
                 pin=["lens:1:ra_0", "lens:1:dec_0"]),
    "lens2": dict(lens=["NFW", "MULTI_GAUSSIAN"], log=["lens:0:Rs", "lens:0:alpha_Rs"],
                  pin=["lens:1:scale_factor", "lens:1:amp"]),
    # free amplitudes of a multi-Gaussian lens (known finding, see known-findings.json)
    "mgauss": dict(lens=["MULTI_GAUSSIAN"], pin=["lens:0:scale_factor"]),
    "light": dict(source=["SHAPELETS", "SERSIC"], lens_light=["MULTI_GAUSSIAN"]),
    "light2": dict(source=["GAUSSIAN"], lens_light=["SHAPELETS_POLAR_EXP", "GAUSSIAN"],
                   pin=["lens_light:1:center_x", "lens_light:1:center_y"]),
    "ps": dict(lens=["SIE"], ps=["LENSED_POSITION", "SOURCE_POSITION", "UNLENSED"], nps=[4, 2, 2],
               pin=["lens:0:e1", "lens:0:e2"]),
    "psfix": dict(lens=["SIE"], ps=["LENSED_POSITION", "SOURCE_POSITION"], nps=[2, 4], fixmag=[True, True],
                  pin=["lens:0:e1", "lens:0:e2", "lens:0:theta_E"]),
    "special": dict(lens=["SIE", "SIE", "SIE"], special=dict(D_dt=1, D_d=1, b_ani=1, incli=1, scale_factor=2,
                    source_size=1, tau0_list=2, delta_x_image=2, delta_y_image=2), ps=["LENSED_POSITION"], nps=[2],
                    kc=dict(kinematic_sampling=True, mass_scaling_list=[False, 1, 2], source_size=True, num_tau0=2,
                            point_source_offset=True),
                    pin=["lens:%d:%s" % (i, n) for i in range(3) for n in LENS["SIE"]]),
    "special2": dict(lens=["SIE", "SIE"], z=True, special={"D_dt": 1, "z_sampling": 2,
                     "theta_E_scale_factor": 2, "theta_E_scale_pow": 2},
                     kc=dict(Ddt_sampling=True, general_scaling={"theta_E": [1, 2]},
                             lens_redshift_sampling_indexes=[0, 1]),
                     pin=["lens:%d:%s" % (i, n) for i in range(2) for n in LENS["SIE"]]),
    "cosmo": dict(lens=["SIE"], special={"H0": 1, "Om0": 1, "w0": 1},
                  km=dict(cosmology_sampling=True, cosmology_model="FlatwCDM"),
                  pin=["lens:0:%s" % n for n in LENS["SIE"] if n != "theta_E"]),
    "ratio": dict(lens=["SIE", "SIE", "SIE"], zlist=[0.3, 0.5, 0.7], source=["UNIFORM"],
                  km=dict(distance_ratio_sampling=True, source_redshift_list=[2.0], z_source_convention=2.0), ratio=3,
                  pin=["lens:%d:%s" % (i, n) for i in range(3) for n in LENS["SIE"] if (i, n) != (1, "theta_E")]),
    "more": dict(lens=["CONVERGENCE"], extinction=["UNIFORM", "GAUSSIAN"], tracer=["GAUSSIAN"],
                 source=["UNIFORM"], pin=["lens:0:ra_0", "lens:0:dec_0"]),
    "all": dict(lens=["EPL", "SHEAR", "PJAFFE"], source=["SHAPELETS", "SERSIC_ELLIPSE"],
                lens_light=["SERSIC", "MULTI_GAUSSIAN_ELLIPSE", "UNIFORM"], ps=["LENSED_POSITION", "UNLENSED"], nps=[4, 1],
                extinction=["GAUSSIAN"], tracer=["GAUSSIAN", "UNIFORM"],
                special=dict(D_dt=1, source_size=1, delta_x_image=4, delta_y_image=4),
                kc=dict(Ddt_sampling=True, source_size=True, point_source_offset=True),
                log=["lens:0:theta_E", "lens:2:sigma0"]),
}


def light_slots(c, k):
    out = []
    for i, prof in enumerate(c.get(k, [])):
        for n in LIGHT[prof]:
            w, kind = 1, "opt"
            if n == "amp":
                kind = "lin" if k in ("source", "lens_light") else "opt"
                if prof == "SHAPELETS":
                    m = NMAX[prof]
                    w = (m + 1) * (m + 2) // 2
                elif prof == "SHAPELETS_POLAR_EXP":
                    w = (NMAX[prof] + 1) ** 2
                elif prof.startswith("MULTI_GAUSSIAN"):
                    w = NSIG
            if n == "n_max" or (n == "sigma" and prof.startswith("MULTI")):
                kind = "struct"
                w = 1 if n == "n_max" else NSIG
            out.append((k, i, n, w, kind))
    return out


def slots(conf):
    c = CONFIGS[conf]
    out = []
    for i, prof in enumerate(c.get("lens", [])):
        for n in LENS[prof]:
            kind, w = "opt", 1
            if prof == "MULTI_GAUSSIAN" and n in ("amp", "sigma"):
                w = NSIG
                kind = "struct" if n == "sigma" else "opt"
            out.append(("lens", i, n, w, kind))
    out += light_slots(c, "source") + light_slots(c, "lens_light")
    for i, prof in enumerate(c.get("ps", [])):
        num = c["nps"][i]
        fm = c.get("fixmag", [False] * 9)[i]
        if prof == "SOURCE_POSITION":
            out += [("ps", i, "ra_source", 1, "opt"), ("ps", i, "dec_source", 1, "opt")]
        else:
            out += [("ps", i, "ra_image", num, "opt"), ("ps", i, "dec_image", num, "opt")]
        if fm and prof != "UNLENSED":
            out.append(("ps", i, "source_amp", 1, "lin"))
        else:
            out.append(("ps", i, "point_amp", num, "lin"))
    for n, w in c.get("special", {}).items():
        out.append(("special", 0, n, w, "opt"))
    for n in ratio_names(c):
        out.append(("special", 0, n, 1, "opt"))
    out += light_slots(c, "extinction") + light_slots(c, "tracer")
    pin = c.get("pin", [])
    return [(k, i, n, w, "struct" if "%s:%d:%s" % (k, i, n) in pin else kind) for k, i, n, w, kind in out]


def ratio_names(c):
    """distance-ratio parameters: one per pair of planes (planes counted 1..N, source N+1)"""
    N = c.get("ratio", 0)
    return ["factor_beta_%d_%d" % (i, j) for i in range(1, N) for j in range(i + 1, N + 1)] + \
        (["D_dt"] if False else []) if N else []


# arrays and scalars of special parameters
ARRAY_SPECIAL = {"scale_factor", "tau0_list", "delta_x_image", "delta_y_image", "z_sampling",
                 "theta_E_scale_factor", "theta_E_scale_pow"}


def is_array(k, n, w, prof):
    if k == "special":
        return n in ARRAY_SPECIAL
    if k == "ps":
        return n in ("ra_image", "dec_image", "point_amp")
    if n == "amp" and prof and (prof.startswith("SHAPELETS") or prof.startswith("MULTI")):
        return True
    return n == "sigma" and prof and prof.startswith("MULTI")


def uniq(s, j):
    """A distinct positive value per scalar, well inside the limits."""
    return 0.2 + 0.01 * s + 0.001 * j


def top(sl):
    return 1.3 if sl[2] == "z_sampling" else 20.0


def held_at(sl):
    return 1.0 if sl[2] == "z_sampling" else 7.0


def put(model, conf, slot, values):
    k, i, n, w, _ = slot
    c = CONFIGS[conf]
    prof = None if k in ("special", "ps") else c[k][i]
    if n == "n_max":
        v = NMAX[prof]
    elif is_array(k, n, w, prof):
        v = list(values)
    else:
        v = values[0]
    if k == "special":
        model[k][n] = v
    else:
        model[k][i][n] = v


def blank(conf):
    c = CONFIGS[conf]
    m = {k: [{} for _ in c.get(k, [])] for k in ARG if k != "special"}
    m["special"] = {}
    return m


def getv(model, slot):
    k, i, n, w, _ = slot
    d = model[KEY[k]] if KEY[k] in model else model[k]
    v = d[n] if k == "special" else d[i][n]
    return np.atleast_1d(np.asarray(v, dtype=float)).tolist()


def kwargs_model(conf):
    c = CONFIGS[conf]
    km = {}
    if "lens" in c:
        km["lens_model_list"] = list(c["lens"])
    for k, name in LNAME.items():
        if k in c:
            km[name] = list(c[k])
    if "ps" in c:
        km["point_source_model_list"] = list(c["ps"])
        if "fixmag" in c:
            km["fixed_magnification_list"] = list(c["fixmag"])
    if c.get("z"):
        km.update(multi_plane=True, lens_redshift_list=[0.4, 0.5], z_source=2.0)
    if "zlist" in c:
        km.update(multi_plane=True, lens_redshift_list=list(c["zlist"]), z_source=2.0)
    km.update(copy.deepcopy(c.get("km", {})))
    return km


def layout_case(case):
    from lenstronomy.Sampling.parameters import Param
    conf, rec = case["conf"], case["rec"]
    c = CONFIGS[conf]
    S = slots(conf)
    held, sampled = rec["held"], rec["sampled"]
    logs = set(rec["logs"])
    lower, upper, fixed, model = blank(conf), blank(conf), blank(conf), blank(conf)
    for s, sl in enumerate(S, 1):
        vals = [uniq(s, j) for j in range(1, sl[3] + 1)]
        put(model, conf, sl, vals)
        put(lower, conf, sl, [0.001 + 0.1 * v for v in vals])
        put(upper, conf, sl, [top(sl) + v for v in vals])
        if s in rec["fixed"] or sl[4] == "struct":
            put(fixed, conf, sl, [held_at(sl) + v for v in vals])
    km = kwargs_model(conf)
    kc = copy.deepcopy(c.get("kc", {}))
    if "ps" in c:
        kc["num_point_source_list"] = list(c["nps"])
    loglist = []
    for s in sorted(logs):
        loglist.append([S[s - 1][1], [S[s - 1][2]]])
    if loglist:
        kc["log_sampling_lens"] = loglist
    inputs = dict(km=km, kc=kc, fixed=fixed, lower=lower, upper=upper)
    keep = copy.deepcopy(inputs)
    kw = {}
    for k in ARG:
        if k != "special" and k not in c:
            if k == "extinction":
                kw["kwargs_fixed_extinction"] = []
            continue
        if k == "special" and not fixed[k] and not model[k]:
            continue
        kw["kwargs_fixed_" + ARG[k]] = fixed[k]
        kw["kwargs_lower_" + ARG[k]] = lower[k]
        kw["kwargs_upper_" + ARG[k]] = upper[k]
    p = Param(km, linear_solver=rec["lin"], **kw, **kc)
    n, names = p.num_param()
    require(n == rec["n"] and len(names) == n, "number of sampled parameters", got=n, names=names, want=rec["n"])
    # 1. decode a vector of distinct values and find where each of them went
    vec = np.array([0.5 + 0.001 * j for j in range(n)])
    vec0 = vec.copy()
    dec = p.args2kwargs(vec, bijective=True)
    require(np.array_equal(vec, vec0), "decoding altered the sampled vector")
    for k in ARG:
        if k != "special":
            require(len(dec[KEY[k]]) == len(c.get(k, [])), "number of components of the decoded model", cls=k,
                    got=len(dec[KEY[k]]))
    index = {round(v, 9): j for j, v in enumerate(vec.tolist())}
    place, used = {}, []
    for s, sl in enumerate(S, 1):
        got = getv(dec, sl)
        if s in sampled:
            raw = [math.log10(g) if s in logs else g for g in got]
            pos = [index.get(round(g, 9)) for g in raw]
            require(len(pos) == sl[3] and None not in pos, "a sampled parameter does not take its values from the vector",
                    slot=sl, got=got)
            require(pos == list(range(pos[0], pos[0] + sl[3])), "values of a parameter are not consecutive", slot=sl, pos=pos)
            place[s] = pos
            used += pos
            for q in pos:
                want = sl[2]
                lab = names[q]
                require(lab == want or lab.startswith(want + "_"), "name does not describe its position", slot=sl, name=lab)
                if sl[0] in LABEL:
                    require(lab == "%s_%s%d" % (want, LABEL[sl[0]], sl[1]), "name does not describe its position", slot=sl, name=lab)
        elif sl[4] == "lin" and rec["lin"]:
            pass        # placeholder until the linear solution
        else:
            want = [NMAX[c[sl[0]][sl[1]]]] if sl[2] == "n_max" else [held_at(sl) + uniq(s, j) for j in range(1, sl[3] + 1)]
            require(close(got, want), "a fixed parameter is not at its fixed value", slot=sl, got=got, want=want)
    require(sorted(used) == list(range(n)), "positions of the vector are not each owned by one parameter", used=sorted(used), n=n)
    # 2. vector -> model -> vector
    back = p.kwargs2args(**dec)
    require(close(back, vec0), "vector -> model -> vector", got=list(back), want=vec0.tolist())
    # 3. model -> vector -> model
    m = {KEY[k]: model[k] for k in ARG}
    m0 = copy.deepcopy(m)
    args = p.kwargs2args(**m)
    require(len(args) == n, "length of the vector", got=len(args), want=n)
    for s, pos in place.items():
        want = [uniq(s, j) for j in range(1, S[s - 1][3] + 1)]
        if s in logs:
            want = [math.log10(v) for v in want]
        require(close([args[q] for q in pos], want), "vector of a model", slot=S[s - 1], got=[args[q] for q in pos], want=want)
    again = p.args2kwargs(args, bijective=True)
    for s, sl in enumerate(S, 1):
        if s in sampled:
            require(close(getv(again, sl), getv(m, sl)), "model -> vector -> model", slot=sl)
    # 4. limits sit at the positions of their parameters
    lo, hi = p.param_limits()
    require(len(lo) == n and len(hi) == n, "length of the limits")
    for s, pos in place.items():
        for lim, mod in ((lo, lower), (hi, upper)):
            want = getv(mod, S[s - 1])
            if s in logs:
                want = [math.log10(v) for v in want]
            require(close([lim[q] for q in pos], want), "limits of a sampled parameter", slot=S[s - 1],
                    got=[lim[q] for q in pos], want=want)
    # 5. linear parameters
    nlin = 0
    if rec["lin"]:
        nlin = sum(sl[3] for sl in S if sl[4] == "lin")
        require(p.num_param_linear() == nlin, "number of linear parameters", got=p.num_param_linear(), want=nlin)
    # 6. nothing handed in has changed; a second decode agrees
    require(canon_(inputs) == canon_(keep) and canon_(m) == canon_(m0), "inputs were altered")
    dec2 = p.args2kwargs(vec, bijective=True)
    for s, sl in enumerate(S, 1):
        require(close(getv(dec2, sl), getv(dec, sl)), "a repeated conversion differs", slot=sl)
    # 7. special parameters outside the limits are clipped in the model, never in the vector
    far = vec0.copy() + 1000.0
    for s, pos in place.items():
        if S[s - 1][0] != "special":
            for q in pos:
                far[q] = vec0[q]
    f0 = far.copy()
    dd = p.args2kwargs(far, bijective=True)
    require(np.array_equal(far, f0), "decoding altered the sampled vector")
    for s, pos in place.items():
        if S[s - 1][0] == "special":
            require(close(getv(dd, S[s - 1]), getv(upper, S[s - 1])), "special parameters are kept within their limits",
                    slot=S[s - 1], got=getv(dd, S[s - 1]))


def canon_(x):
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon_(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(canon_(v) for v in x)
    if isinstance(x, np.ndarray):
        return tuple(np.asarray(x).ravel().tolist())
    return x


def catalogue_case(case):
    """Every profile of the catalogue: default limits, all free / half fixed; layout as in the model."""
    from lenstronomy.Sampling.parameters import Param
    kind, prof, half = case["kind"], case["prof"], case["half"]
    key = "lens_model_list" if kind == "lens" else "source_light_model_list"
    names_all = list(profile_of(kind, prof).param_names)
    fixed = {}
    for q, nme in enumerate(names_all):
        if half is not None and q % 2 == half:
            fixed[nme] = 0.3 + 0.01 * q
    kw = {"kwargs_fixed_lens": [fixed]} if kind == "lens" else {"kwargs_fixed_source": [fixed]}
    p = Param({key: [prof]}, linear_solver=False, kwargs_fixed_extinction=[], **kw)
    n, names = p.num_param()
    free = [x for x in names_all if x not in fixed]
    require(n == len(free) and sorted(names) == sorted("%s_%s0" % (x, "lens" if kind == "lens" else "source_light") for x in free),
            "sampled parameters of a profile", prof=prof, got=names, free=free)
    vec = np.array([0.41 + 0.01 * j for j in range(n)])
    dec = p.args2kwargs(vec)
    d = dec["kwargs_lens"][0] if kind == "lens" else dec["kwargs_source"][0]
    for j, lab in enumerate(names):
        nm = lab.rsplit("_", 1)[0] if kind == "lens" else lab[:-len("_source_light0")]
        require(close(float(d[nm]), float(vec[j])), "decoded value of a profile parameter", prof=prof, name=nm)
    for nm, v in fixed.items():
        require(close(float(d[nm]), v), "fixed value of a profile parameter", prof=prof, name=nm)
    require(close(p.kwargs2args(**dec), vec), "vector -> model -> vector", prof=prof)
    lo, hi = p.param_limits()
    require(len(lo) == n == len(hi) and all(a <= b for a, b in zip(lo, hi)), "default limits of a profile", prof=prof,
            lo=list(lo), hi=list(hi))


CASES = {"layout": layout_case, "catalogue": catalogue_case}

SKIP_LENS = {"INTERPOL", "INTERPOL_SCALED", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE_KAPPA", "NIE_POTENTIAL",
             "SHAPELETS_POLAR", "SHAPELETS_CART", "MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE",
             "CHAMELEON", "TabulatedDeflections", "TABULATED_DEFLECTIONS", "SYNTHESIS"}


UNBUILDABLE = {"PEMD", "SPEMD", "SYNTHESIS", "TABULATED_DEFLECTIONS", "MGE_SET", "MGE_SET_ELLIPSE"}  # need a library or settings
NO_LIMITS = {"ARC_PERT", "NIE_SIMPLE"}  # declare no limits
CONSTANT = {("CONST_MAG", "mu_r"), ("CONST_MAG", "mu_t")}  # upper limit = lower limit on purpose


def catalogue():
    from lenstronomy.LensModel.profile_list_base import _SUPPORTED_MODELS as LM
    from lenstronomy.LightModel.light_model_base import _MODELS_SUPPORTED as LI
    return [("lens", m) for m in LM if m not in UNBUILDABLE | NO_LIMITS] + [("source", m) for m in LI if m not in UNBUILDABLE]


def profile_of(kind, m):
    from lenstronomy.LensModel.single_plane import SinglePlane
    from lenstronomy.LightModel.light_model import LightModel
    return (SinglePlane if kind == "lens" else LightModel)([m]).func_list[0]


def samplable(kind, m):
    """All parameters are scalars with limits (the others belong to the vector-valued configurations above)."""
    if kind == "lens" and (m in SKIP_LENS or "INTERPOL" in m):
        return False
    return not (kind == "source" and any(x in m for x in ("SHAPELETS", "MULTI_GAUSSIAN", "INTERPOL", "STARLETS")))


def limits_case(case):
    kind, m = case["kind"], case["prof"]
    f = profile_of(kind, m)
    names, lo, hi = list(f.param_names), f.lower_limit_default, f.upper_limit_default
    require(len(set(names)) == len(names), "a profile names each parameter once", prof=m, names=names)
    require(set(lo) == set(hi), "lower and upper default limits concern the same parameters", prof=m, lower=sorted(lo), upper=sorted(hi))
    require(set(lo) <= set(names), "default limits concern parameters of the profile", prof=m, names=names, lower=sorted(lo))
    if samplable(kind, m):
        require(set(lo) == set(names), "every parameter has default limits", prof=m, names=names, lower=sorted(lo))
    for x in lo:
        if (m, x) not in CONSTANT:
            require(np.all(np.asarray(lo[x]) < np.asarray(hi[x])), "lower default limits lie below the upper ones", prof=m, name=x, lower=lo[x], upper=hi[x])


CASES["limits"] = limits_case


def main(pid):
    import lenstronomy.Sampling.parameters  # noqa
    ck = Check(pid)
    cases = []
    jobs = []
    for conf, c in CONFIGS.items():
        S = slots(conf)
        opt = {s for s, sl in enumerate(S, 1) if sl[4] in ("opt", "lin")}
        lin = {s for s, sl in enumerate(S, 1) if sl[4] == "lin"}
        struct = {s for s, sl in enumerate(S, 1) if sl[4] == "struct"}
        loggable = {s for s, sl in enumerate(S, 1) if "%s:%d:%s" % sl[:3] in c.get("log", [])}
        limit = 12 if THOROUGH else 8
        samples = 0 if len(opt - lin) <= limit else ((1500 if THOROUGH else 150) if conf != "all" else (400 if THOROUGH else 40))
        jobs.append(("ParamVector", dict(
            Width=[sl[3] for sl in S], Linear=lin, Struct=struct, Optional=opt - lin, Loggable=loggable,
            MaxLog=2, LinFlags=Raw("{TRUE, FALSE}") if lin else Raw("{TRUE}"), Samples=samples),
            dict(invariants=["RoundTrip", "AllRead", "Count", "OwnPositions", "Emit"]),
            dict(args=("-seed", str(SEED)))))
    for conf, r in zip(CONFIGS, ck.mc_all(jobs)):
        for rec in r.records:
            case = dict(conf=conf, rec=rec)
            if conf == "mgauss":
                case["amp_free"] = 1 not in rec["fixed"]
            cases.append(case)
    ck.rng.shuffle(cases)
    if not THOROUGH and len(cases) > 3000:
        cases = cases[:3000]
    ck.run_cases(layout_case, cases, "layout")
    cat = [dict(kind=k, prof=m, half=h) for k, m in catalogue() for h in (None, 0, 1) if samplable(k, m)]
    ck.run_cases(limits_case, [dict(kind=k, prof=m) for k, m in catalogue()], "limits")
    ck.run_cases(catalogue_case, cat, "catalogue")
    ck.extra["profiles"] = len(cat) // 3
    ck.assumptions = ["values are positive and inside the limits except where clipping is checked"]
    return ck.finish()
