"""C04: the fitting sequence performs its steps in order, each changing what it says and nothing else
(specs/FittingSequence.tla replayed into FittingSequence)."""
import contextlib, copy, io, os, warnings
import numpy as np
from common import *
from session import flat, same

warnings.filterwarnings("ignore")
N = 11
FREE = -1
CLS = {"lens": "lens_model", "source": "source_model", "lens_light": "lens_light_model", "ps": "point_source_model"}
KEY = {"lens": "kwargs_lens", "source": "kwargs_source", "lens_light": "kwargs_lens_light", "ps": "kwargs_ps"}
CONF = {
    "joint": dict(bands=2, type="joint-linear", linear=True, data=["psf_iteration", "align_images", "calibrate_images"]),
    "multi": dict(bands=2, type="multi-linear", linear=True, data=["psf_iteration", "align_images"]),
    "amps": dict(bands=1, type="single-band", linear=False, data=[]),
}
P = ["lens:0:theta_E", "lens:0:center_x", "source:0:sigma", "lens_light:0:sigma", "lens_light:0:center_y"]
PA = P + ["source:0:amp"]
VAL = {"theta_E": [0.8, 0.9, 0.95, 1.0, 1.1], "center_x": [0.0, 0.01, 0.02, -0.03, 0.05], "sigma": [0.3, 0.32, 0.35, 0.4, 0.45], "center_y": [0.0, -0.02, 0.03, 0.01, 0.06], "amp": [3.0, 2.0, 4.0, 3.5, 2.5]}
FIXED0 = ["lens:0:center_x"]
LOW = dict(theta_E=0.5, center_x=-0.3, center_y=-0.3, sigma=0.1, amp=0.0)
UP = dict(theta_E=1.6, center_x=0.3, center_y=0.3, sigma=1.0, amp=20.0)
SIG = dict(theta_E=0.05, center_x=0.02, center_y=0.02, sigma=0.03, amp=0.3)


def params_of(conf):
    return PA if not CONF[conf]["linear"] else P


def value(p, tag):
    return VAL[p.split(":")[2]][tag]


def setup(conf, seed):
    c = CONF[conf]
    r = np.random.RandomState(seed)
    from lenstronomy.Util import kernel_util
    bands = []
    for b in range(c["bands"]):
        k = kernel_util.kernel_gaussian(5, 0.3, 0.6 + 0.1 * b)
        g = (np.arange(N) - N // 2) * 0.3
        x, y = np.meshgrid(g, g)
        d = 0.8 * np.exp(-((x - 0.1) ** 2 + y ** 2) / 0.5) + 1.5 * np.exp(-((np.hypot(x, y) - 0.9) ** 2) / 0.1) + r.normal(0, 0.1, (N, N))
        bands.append([dict(image_data=d, background_rms=0.1, exposure_time=300.0, ra_at_xy_0=-1.5, dec_at_xy_0=-1.5, transform_pix2angle=np.eye(2) * 0.3),
                      dict(psf_type="PIXEL", kernel_point_source=k), dict(supersampling_factor=1)])
    model = dict(lens_model_list=["SIS"], source_light_model_list=["GAUSSIAN"], lens_light_model_list=["GAUSSIAN"])
    if c["linear"]:
        model["point_source_model_list"] = ["UNLENSED"]
    comp = {"lens": [dict(theta_E=0.8, center_x=0.0, center_y=0.0)], "source": [dict(amp=3.0, sigma=0.3, center_x=0.05, center_y=0.02)],
            "lens_light": [dict(amp=2.0, sigma=0.3, center_x=0.1, center_y=0.0)]}
    if c["linear"]:
        comp["ps"] = [dict(ra_image=np.array([0.6, -0.75]), dec_image=np.array([0.63, -0.3]), point_amp=np.array([1.0, 1.0]))]
    kp = {}
    for k, comps in comp.items():
        init, sig, fix, low, up = [], [], [], [], []
        for i, d in enumerate(comps):
            f = {}
            for n, x in d.items():
                p = "%s:%d:%s" % (k, i, n)
                if p in params_of(conf):
                    if p in FIXED0:
                        f[n] = value(p, 0)
                elif not (c["linear"] and n in ("amp", "point_amp")):
                    f[n] = x
            init.append(d), fix.append(f)
            sig.append({n: SIG.get(n, 0.1) for n in d}), low.append({n: LOW.get(n, -10) for n in d}), up.append({n: UP.get(n, 10) for n in d})
            if k == "ps":
                for q, v in ((sig, 0.1), (low, -10), (up, 10)):
                    q[-1] = {n: np.full(2, v) for n in d}
        kp[CLS[k]] = [init, sig, fix, low, up]
    constraints = dict(linear_solver=c["linear"])
    if c["linear"]:
        constraints["num_point_source_list"] = [2]
    data = dict(multi_band_list=bands, multi_band_type=c["type"])
    return data, model, constraints, dict(check_bounds=True), kp


def build(conf, seed):
    from lenstronomy.Workflow.fitting_sequence import FittingSequence
    a = setup(conf, seed)
    return FittingSequence(*a, verbose=False), a


def getp(kw, p):
    k, i, n = p.split(":")
    return float(kw[KEY[k]][int(i)][n])


def request(ps, values=None):
    out = {}
    for p in sorted(ps):
        k, i, n = p.split(":")
        out.setdefault(k, []).append([int(i), [n]] + ([[values[p]]] if values else []))
    return out


def step_of(act, conf, rng):
    """step of the specification -> entry of the fitting list"""
    op = act["op"]
    nb = CONF[conf]["bands"]
    if op == "restart":
        return ["restart", {}]
    if op == "settings":
        kw = {k + "_add_fixed": v for k, v in request(act["add"]).items()}
        kw.update({k + "_remove_fixed": v for k, v in request(act["rem"]).items()})
        return ["update_settings", kw]
    if op == "set":
        return ["set_param_value", request([act["p"]], {act["p"]: value(act["p"], act["v"])})]
    if op == "data":
        on = [b + 1 in act["s"] for b in range(nb)]
        if act["k"] == "psf_iteration":
            return ["psf_iteration", dict(num_iter=2, psf_iter_factor=0.3, psf_symmetry=1, compute_bands=on, keep_psf_variance_map=True, verbose=False)]
        if act["k"] == "align_images":
            return ["align_images", dict(n_particles=3, n_iterations=2, delta_shift=0.05, compute_bands=on)]
        return ["calibrate_images", dict(n_particles=3, n_iterations=2, calibrate_bands=on, scaling_lower_limit=0.5, scaling_upper_limit=2.0)]
    s = act["s"]
    if s == "PSO":
        return ["PSO", dict(n_particles=4, n_iterations=3, sigma_scale=1.0)]
    if s == "SIMPLEX":
        return ["SIMPLEX", dict(n_iterations=12)]
    if s in ("emcee", "MCMC", "zeus"):
        kw = dict(n_burn=1, n_run=3, sigma_scale=0.5, progress=False, re_use_samples=act["reuse"])
        if s == "zeus":
            kw.update(walkerRatio=2, moves=None)
        elif rng.randrange(2):
            kw.update(walkerRatio=4)
        else:
            kw.update(n_walkers=12)
        return [s, kw]
    if s in ("dynesty", "nested_sampling"):
        return [s, dict(kwargs_run=dict(dlogz_init=5000.0, nlive_init=16, nlive_batch=16, maxbatch=0, maxiter_init=30, print_progress=False), prior_type="uniform" if rng.randrange(2) else "gaussian", sigma_scale=0.5, dynesty_sample="rwalk" if False else "unif")]
    if s == "Nautilus":
        return [s, dict(prior_type="uniform", thread_count=1, verbose=False, one_step=True, n_live=20, n_networks=0, f_live=0.9, n_eff=0)]
    raise MachineryError(s)


def band_logl(conf, fs, args, bands, b, kw):
    """likelihood of one band alone with these data (amplitudes solved for)"""
    from lenstronomy.ImSim.MultiBand.single_band_multi_model import SingleBandMultiModel
    m = SingleBandMultiModel(copy.deepcopy(bands), copy.deepcopy(args[1]), band_index=b)
    kw = {k: v for k, v in copy.deepcopy(kw).items() if k != "kwargs_tracer_source"}
    return m.likelihood_data_given_model(**kw)[0]


def fresh_logl(conf, args, bands, state, fixed):
    """likelihood of a state, from a likelihood and parameter class built from nothing"""
    from lenstronomy.Sampling.likelihood import Likelihood
    from lenstronomy.Sampling.parameters import Param
    f = [copy.deepcopy(x) for x in fixed]
    kp = args[4]
    kw = {}
    for k, key in (("lens", "lens_model"), ("source", "source_model"), ("lens_light", "lens_light_model"), ("ps", "point_source_model")):
        if key in kp:
            kw["kwargs_lower_" + k], kw["kwargs_upper_" + k] = kp[key][3], kp[key][4]
    par = Param(copy.deepcopy(args[1]), kwargs_fixed_lens=f[0], kwargs_fixed_source=f[1], kwargs_fixed_lens_light=f[2], kwargs_fixed_ps=f[3], kwargs_fixed_special=f[4], kwargs_fixed_extinction=f[5],
                kwargs_lens_init=state["kwargs_lens"], **copy.deepcopy(kw), **copy.deepcopy(args[2]))
    lk = Likelihood(dict(args[0], multi_band_list=copy.deepcopy(bands)), copy.deepcopy(args[1]), par, **copy.deepcopy(args[3]))
    return lk, par, lk.logL(par.kwargs2args(**copy.deepcopy(state)))


def sequence_case(case):
    import random as rnd
    conf, hist, seed = case["conf"], case["hist"], case["seed"]
    rng = rnd.Random(seed)
    ps = params_of(conf)
    np.random.seed(seed % 2 ** 31)
    fs, args = build(conf, seed)
    keep = copy.deepcopy(args[1:])
    bands0 = copy.deepcopy(args[0]["multi_band_list"])
    known = {(p, t): value(p, t) for p in ps for t in range(5)}
    bands_known = {}
    entries, outcomes = [], []
    memory = 0
    prev = dict(fix={p: 0 if p in FIXED0 else FREE for p in ps}, val={p: 0 for p in ps})
    nseq = 0
    handed = []
    for i, h in enumerate(hist):
        act = h["act"]
        step = step_of(act, conf, rng)
        keep_step = copy.deepcopy(step)
        before = fs.best_fit(bijective=True)
        handed.append((before, copy.deepcopy(before)))
        bands_before = copy.deepcopy(fs.multi_band_list)
        lk_before = fs.best_fit_likelihood() if act["op"] in ("fit", "data") else None
        where = dict(conf=conf, step=i, act=act, kwargs=step[1])
        out, error = [], None
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                out = fs.fit_sequence([step])
            except ValueError as e:
                if not h["err"] or "re-use" not in str(e):
                    raise
                error = str(e)
            except RuntimeError as e:
                if act.get("s") == "zeus" and "expansions" in str(e):
                    return  # zeus could not bracket a slice
                raise
        entries.append(step)
        outcomes.append(out)
        require((error is not None) == h["err"], "samples of a chain with other parameters are refused", **where)
        require(same(flat(step), flat(keep_step), 0, 0), "the list of steps is not altered", **where)
        fit = act["op"] == "fit" and not h["err"]
        state = fs.best_fit(bijective=True)
        free = sorted(p for p in ps if h["fix"][p] == FREE)
        # values by provenance
        for p in ps:
            v, t = getp(state, p), h["val"][p]
            if (p, t) in known:
                require(v == known[p, t], "value of a parameter after a step", p=p, got=v, want=known[p, t], **where)
            else:
                require(t >= 1000 and fit, "provenance", p=p, **where)
                known[p, t] = v
                n = p.split(":")[2]
                require(np.isfinite(v) and LOW[n] <= v <= UP[n], "a fit stays within the limits", p=p, got=v, **where)
        fixed = fs.kwargs_fixed
        for p in ps:
            k, j, n = p.split(":")
            f = fixed[list(KEY).index(k)][int(j)]
            require((n in f) == (h["fix"][p] != FREE) and (n not in f or f[n] == known[p, h["fix"][p]]), "parameters held fixed after a step", p=p, got=str(f), **where)
        # results
        require(len(out) == (1 if fit else 0), "one result entry per fitting step", got=len(out), **where)
        lk, par, ll = fresh_logl(conf, args, fs.multi_band_list, state, fixed)
        now = fs.best_fit_likelihood()
        require(abs(ll - now) <= 1e-6 * max(1, abs(ll)), "likelihood of the best fit", got=now, want=ll, **where)
        n_dim, names = par.num_param()
        require(n_dim == len(free), "number of sampled parameters", **where)
        if fit:
            s = act["s"]
            e = out[0]
            require(e[0] == h["results"][-1], "type of the result entry", got=e[0], want=h["results"][-1], **where)
            if s in ("PSO", "SIMPLEX"):
                require(now >= lk_before - 1e-6 * max(1, abs(lk_before)), "the best fit is not worse than before", before=lk_before, after=now, **where)
            if s == "PSO":
                chain, nm = e[1], e[2]
                require(list(nm) == list(names), "names of the parameters of the result", got=list(nm), **where)
                require(len(chain) == 3 and len(chain[0]) <= 3 and len(chain[0]) == len(chain[1]) == len(chain[2]), "PSO history", **where)
                require(np.all(np.diff(chain[0]) >= 0), "PSO best likelihood never decreases", got=list(chain[0]), **where)
                require(len(chain[0]) == 0 or chain[0][-1] <= now + 1e-6 * max(1, abs(now)), "PSO returns the best position it visited", got=list(chain[0]), want=now, **where)
                for l, x in zip(chain[0], chain[1]):
                    require(abs(lk.logL(np.array(x)) - l) <= 1e-6 * max(1, abs(l)), "PSO history lists positions with their likelihood", **where)
            elif s == "SIMPLEX":
                require(all(getp(e[1], p) == getp(state, p) for p in ps), "result of the simplex", **where)
            else:
                samples, nm, logl = np.asarray(e[1]), e[2], np.asarray(e[3])
                require(list(nm) == list(names), "names of the parameters of the result", got=list(nm), **where)
                require(samples.ndim == 2 and samples.shape[1] == n_dim, "samples have one column per parameter", got=samples.shape, **where)
                if s in ("emcee", "MCMC", "zeus"):
                    w = step[1].get("n_walkers") or step[1]["walkerRatio"] * n_dim
                    require(len(samples) == len(logl) == w * 3, "number of samples", got=len(samples), want=w * 3, **where)
                    for q in rng.sample(range(len(samples)), 3) + [int(np.argmax(logl))]:
                        want = lk.logL(samples[q])
                        require(abs(want - logl[q]) <= 1e-6 * max(1, abs(want)), "samples come with their likelihood", got=logl[q], want=want, **where)
                require(abs(np.max(logl) - now) <= 1e-6 * max(1, abs(now)), "best fit is the most likely sample", got=now, want=float(np.max(logl)), **where)
        # data
        if act["op"] == "data":
            kw = fs.best_fit(bijective=False)
            joint = fs.best_fit_likelihood()
            for b in range(len(bands0)):
                d0, d1 = bands_before[b], fs.multi_band_list[b]
                if b + 1 not in act["s"]:
                    require(same(flat(d0), flat(d1), 0, 0), "a band that was not selected keeps its data", band=b, **where)
                    continue
                part = dict(psf_iteration=1, align_images=0, calibrate_images=0)[act["k"]]
                require(all(same(flat(d0[q]), flat(d1[q]), 0, 0) for q in range(3) if q != part), "a data step changes its part of the band", band=b, **where)
                allowed = dict(psf_iteration=["kernel_point_source", "psf_variance_map", "psf_error_map", "kernel_point_source_init"], align_images=["ra_shift", "dec_shift"], calibrate_images=["flux_scaling"])[act["k"]]
                default = dict(point_source_supersampling_factor=1) if part == 1 else {}
                e0, e1 = dict(default, **d0[part]), dict(default, **d1[part])
                for key in set(e0) | set(e1):
                    if key not in allowed:
                        require(key in e0 and key in e1 and same(flat(e0[key]), flat(e1[key]), 0, 0), "a data step leaves the other settings of the band alone", key=key, **where)
                if act["k"] != "calibrate_images":
                    l0, l1 = band_logl(conf, fs, args, bands_before, b, kw), band_logl(conf, fs, args, fs.multi_band_list, b, kw)
                    require(l1 >= l0 - 1e-6 * max(1, abs(l0)), "the data step does not make the band less likely", band=b, before=float(l0), after=float(l1), **where)
                if act["k"] == "psf_iteration":
                    k0 = d1[1]["kernel_point_source"]
                    require(abs(np.sum(k0) - 1) < 1e-6, "the new PSF is normalized", **where)
            if act["k"] == "calibrate_images":
                require(joint >= lk_before - 1e-6 * max(1, abs(lk_before)), "flux calibration does not make the data less likely", before=lk_before, after=joint, **where)
            if act["k"] == "psf_iteration":
                mem = fs.psf_iteration_memory[memory:]
                require([m["band"] for m in mem] == sorted(b - 1 for b in act["s"]) and all(m["sequence"] == nseq for m in mem), "PSF iterations are recorded", got=[(m["sequence"], m["band"]) for m in mem], **where)
                for m in mem:
                    require(same(flat(m["psf_before"]), flat(bands_before[m["band"]][1]), 0, 0) and same(flat(m["psf_after"]), flat(fs.multi_band_list[m["band"]][1]), 0, 0), "PSF record", **where)
                memory += len(mem)
                nseq += 1
        else:
            require(same(flat(fs.multi_band_list), flat(bands_before), 0, 0), "only data steps change the data", **where)
        for b in range(len(bands0)):
            require(np.array_equal(fs.multi_band_list[b][0]["image_data"], bands0[b][0]["image_data"]), "the images are never altered", **where)
        require(same(flat(list(args[1:])), flat(list(keep)), 0, 0), "input of the user is not altered", **where)
        for a, b in handed:
            require(same(flat(a), flat(b), 0, 0), "models handed out earlier are not altered", **where)
    require(abs(fs.bic - (-2 * fs.best_fit_likelihood() + np.log(fs.likelihood_class.num_data) * (fs.param_class.num_param()[0] + fs.param_class.num_param_linear()))) < 1e-6 * abs(fs.bic) + 1e-9, "Bayesian information criterion")
    # the same steps in one list
    if any(h["err"] for h in hist) or any(h["act"]["op"] == "fit" and h["act"]["s"] not in ("PSO", "SIMPLEX") for h in hist):
        return
    np.random.seed(seed % 2 ** 31)
    fs2, _ = build(conf, seed)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        out2 = fs2.fit_sequence(copy.deepcopy(entries))
    require([e[0] for e in out2] == hist[-1]["results"], "result entries in the order of the steps", got=[e[0] for e in out2], want=hist[-1]["results"])
    require(same(flat(fs2.best_fit(bijective=True)), flat(fs.best_fit(bijective=True)), 1e-12, 1e-12), "steps in one list or in several give the same result", conf=conf)
    require(same(flat(fs2.multi_band_list), flat(fs.multi_band_list), 1e-12, 1e-12), "steps in one list or in several give the same data", conf=conf)
    require(same(flat(out2), flat([e for o in outcomes for e in o]), 1e-12, 1e-12), "steps in one list or in several give the same result entries", conf=conf)


CASES = dict(sequence=sequence_case)


def main(pid):
    import lenstronomy.Workflow.fitting_sequence, lenstronomy.LightModel.Profiles.gaussian, lenstronomy.LensModel.Profiles.sis, emcee  # noqa
    import lenstronomy.ImSim.MultiBand.joint_linear, lenstronomy.ImSim.MultiBand.multi_linear, lenstronomy.ImSim.MultiBand.single_band_multi_model  # noqa
    ck = Check(pid)
    jobs, tags = [], []
    k = 6 if THOROUGH else 1
    inv = ["TypeOK", "OneEntryPerFit", "OnlyFitsMove", "DataOnly", "HeldHold", "RefusedChangesNothing", "Emit"]
    for conf in CONF:
        for name, samplers, num, depth in (("opt", {"PSO", "SIMPLEX"}, 20 * k, 8), ("mcmc", {"PSO", "SIMPLEX", "emcee", "MCMC", "zeus"}, 20 * k, 9), ("nested", {"PSO", "emcee", "dynesty", "nested_sampling", "Nautilus"}, 6 * k, 5)):
            ps = params_of(conf)
            jobs.append(("FittingSequence", dict(P=set(ps), SetP=set(ps), Fixed0=set(FIXED0), Bands=set(range(1, CONF[conf]["bands"] + 1)), Samplers=samplers, DataSteps=set(CONF[conf]["data"]), Depth=depth),
                         dict(invariants=inv), dict(sim=dict(num=num, depth=depth + 1, seed=ck.rng.randrange(10 ** 6)))))
            tags.append(conf)
    cases = []
    for conf, r in zip(tags, ck.mc_all(jobs, nproc=6)):
        for rec in behaviours(r.records):
            cases.append(dict(conf=conf, hist=rec["hist"], seed=ck.rng.randrange(10 ** 6)))
    ck.rng.shuffle(cases)
    ck.run_cases(sequence_case, cases, "sequence")
    ck.assumptions = ["11x11 pixel images, Gaussian light, SIS lens, two fixed point sources; few particles, walkers and iterations"]
    return ck.finish()
