"""C17, C18: optimisers and samplers (specs/Swarm.tla, specs/Chains.tla, specs/SamplerTrace.tla)."""
import contextlib, io, json, math, os, shutil, tempfile, warnings
import numpy as np
from common import *

warnings.filterwarnings("ignore")
NAMES = ["theta_E_lens0", "e1_lens0", "ra_image", "ra_image", "dec_image", "dec_image", "gamma_lens1", "center_x_lens1"]


class _Param(object):
    def __init__(self, chain):
        self._c = chain

    def num_param(self):
        return self._c.n, list(NAMES[:self._c.n])

    def param_limits(self):
        return self._c.param_limits

    def args2kwargs(self, args, bijective=False):
        return {}


class Chain(object):
    """a likelihood with the interface of lenstronomy's Likelihood class that remembers what it was asked"""

    def __init__(self, n, seed, kind="gauss", script=None):
        r = np.random.RandomState(seed)
        self.n, self.kind, self.script = n, kind, script
        self.low = r.uniform(-2, 0, n)
        self.high = self.low + r.uniform(0.5, 3, n)
        self.mean = self.low + (self.high - self.low) * r.uniform(0.1, 0.9, n)
        self.sigma = (self.high - self.low) * r.uniform(0.1, 0.4, n)
        self.calls = []
        self.only = None        # nothing but these points is acceptable
        self.param = _Param(self)

    @property
    def param_limits(self):
        return self.low.copy(), self.high.copy()

    def value(self, x):
        x = np.array(x, float)
        d = (x - self.mean) / self.sigma
        v = -0.5 * np.sum(d ** 2)
        if self.kind == "rugged":
            v += np.sum(np.cos(7 * d))
        if self.kind == "wall" and (np.any(x < self.low) or np.any(x > self.high)):
            v = -1e15 - v ** 2
        return float(v)

    def logL(self, args, verbose=False):
        x = np.array(args, float)
        if self.script is not None:
            v = self.script[len(self.calls)] if len(self.calls) < len(self.script) else -np.inf
        else:
            v = self.value(x)
            if self.only is not None and tuple(x) not in self.only:
                v = -1e30
        self.calls.append((x.copy(), v))
        return v

    __call__ = likelihood = logL

    def negativelogL(self, a):
        return -self.logL(a)

    def effective_num_data_points(self, **kwargs):
        return 10

    def inside(self, x, low=None, high=None):
        low, high = self.low if low is None else low, self.high if high is None else high
        t = 1e-12 * (1 + np.abs(high))
        return bool(np.all(x >= low - t) and np.all(x <= high + t))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="lensverif-s-")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ----------------------------------------------------------------------------- C17: the swarm
def swarm_case(c):
    from lenstronomy.Sampling.Samplers.pso import ParticleSwarmOptimizer
    b = c["beh"]
    N, n = c["n"], c["dim"]
    bot = lambda v: -np.inf if v <= -1000000 else float(v)
    script = [bot(v) for v in b["val"][1:]]
    ch = Chain(n, c["seed"], script=script)
    np.random.seed(c["seed"])
    start = ch.low + (ch.high - ch.low) * np.random.uniform(size=n)
    where = dict(n=N, dim=n, end=b["end"])
    if c["via"] == "sampler":
        from lenstronomy.Sampling.sampler import Sampler
        ch.script = [bot(b["val"][0])] + script
        lo, hi = (ch.low - 0.3, ch.high + 0.2) if c["wide"] else (ch.mean - ch.sigma, ch.mean + ch.sigma)
        with quiet():
            pos, (L, P, V) = Sampler(ch).pso(N, c["iter"], lo.copy(), hi.copy(), init_pos=start.copy(), print_key="x", verbose=bool(c["seed"] % 2))
        ev = ch.calls
        require(len(ev) == 1 + N * (b["it"] + 1), "every particle is evaluated once per iteration", got=len(ev), want=1 + N * (b["it"] + 1), **where)
        first = [k for k, (x, v) in enumerate(ev) if np.array_equal(x, start)]
        require(first, "the starting point is evaluated", **where)
        # the start can be evaluated before or after the first swarm: name evaluations as in the specification
        ev = [ev[0]] + ev[1:]
        lo, hi = np.maximum(lo, ch.low), np.minimum(hi, ch.high)
        require(all(ch.inside(x, lo, hi) for x, v in ev[1:N + 1]), "particles start within the start range and the limits", **where)
        swarm = None
    else:
        kw = dict(c["kw"])
        pso = ParticleSwarmOptimizer(ch.logL, ch.low.copy(), ch.high.copy(), N)
        pso.set_global_best(start.tolist(), [0.0] * n, bot(b["val"][0]))
        par = dict(max_iter=c["iter"], verbose=False, m=0.0, n=0.0, early_stop_tolerance=c["tol"] or None, **kw)
        before = np.array([p.position for p in pso.swarm])
        require(all(ch.inside(x) for x in before), "particles start within the start range and the limits", **where)
        c1, c2 = kw.get("c1", 1.193), kw.get("c2", 1.193)
        L, P, V = [], [], []
        with quiet():
            if c["via"] == "optimize":
                pos, (L, P, V) = pso.optimize(**par)
                swarm = None
            else:
                vel = np.zeros((N, n))
                pb = before.copy()
                for k, sw in enumerate(pso.sample(**par)):
                    now = np.array([p.position for p in sw])
                    ev = [(start, None)] + ch.calls
                    own = [None] * N
                    for p in range(N):
                        # best visited by this particle before this move
                        hist = [(ev[1 + j * N + p][1], j) for j in range(k + 1)]
                        vb, jb = hist[0]
                        for v_, j_ in hist:
                            if v_ > vb:
                                vb, jb = v_, j_
                        own[p] = ev[1 + jb * N + p][0]
                    g = b["gbs"][k]
                    gpos = ev[g][0]
                    step = now - before
                    for p in range(N):
                        a = np.array([0.5 * vel[p], vel[p]])
                        lo = np.minimum(a[0], a[1]) + np.minimum(0, c1 * (own[p] - before[p])) + np.minimum(0, c2 * (gpos - before[p]))
                        hi = np.maximum(a[0], a[1]) + np.maximum(0, c1 * (own[p] - before[p])) + np.maximum(0, c2 * (gpos - before[p]))
                        t = 1e-9 * (1 + np.abs(lo) + np.abs(hi))
                        require(np.all(step[p] >= lo - t) and np.all(step[p] <= hi + t), "a particle moves by inertia, towards its own best and towards the best of the swarm",
                                iteration=k, particle=p, step=step[p].tolist(), low=lo.tolist(), high=hi.tolist(), **where)
                    require(np.allclose([p.fitness for p in sw], [ev[1 + (k + 1) * N + p][1] for p in range(N)]), "fitness of the particles", **where)
                    require(np.allclose(now, [ev[1 + (k + 1) * N + p][0] for p in range(N)]), "positions of the particles are the evaluated ones", **where)
                    vel, before = step, now
                pos = pso.global_best.position
                swarm = pso.swarm
        ev = [(start, bot(b["val"][0]))] + ch.calls
        require(len(ev) == 1 + N * (b["it"] + 1), "the swarm stops when it should", got=len(ev), want=1 + N * (b["it"] + 1), **where)
        require(pso.global_best.fitness == ev[b["gb"]][1], "the best fit is the best position evaluated", got=pso.global_best.fitness, want=ev[b["gb"]][1], **where)
    require(np.array_equal(np.array(pos, float), ev[b["gb"]][0]), "the best fit is the best position evaluated", got=list(pos), want=ev[b["gb"]][0].tolist(), evaluation=b["gb"], **where)
    if c["via"] in ("sampler", "optimize"):
        require(len(L) == len(P) == len(V) == b["it"], "one entry in the history per iteration", got=len(L), want=b["it"], **where)
        last = -np.inf
        for k in range(len(L)):
            ok = [g for g in b["gbs"][k:k + 2] if ev[g][1] == L[k]]
            require(ok, "the history is that of the best of the swarm", iteration=k, got=L[k], want=[ev[g][1] for g in b["gbs"][k:k + 2]], **where)
            require(any(np.array_equal(np.array(P[k], float), ev[g][0]) for g in ok), "the history is that of the best of the swarm", iteration=k, got=list(P[k]), **where)
            require(L[k] >= last, "the history never gets worse", **where)
            last = L[k]
    elif swarm is not None:
        for p, q in zip(swarm, b["pb"]):
            require(p.personal_best.fitness == ev[q][1] and np.array_equal(np.array(p.personal_best.position, float), ev[q][0]), "a particle remembers the best position it has visited",
                    got=p.personal_best.fitness, want=ev[q][1], **where)


# ----------------------------------------------------------------------------- traces of real runs
def record(c):
    """run a sampler and write down what it evaluates and reports"""
    ch = Chain(c["dim"], c["seed"], c["kind"])
    np.random.seed(c["seed"])
    n = c["dim"]
    mean = ch.low + (ch.high - ch.low) * np.random.uniform(0.2, 0.8, n)
    sig = (ch.high - ch.low) * 0.2
    reports, bounded, first, lim = [], 0, 0, (ch.low, ch.high)
    from lenstronomy.Sampling.sampler import Sampler
    S = Sampler(ch)
    k = c["sampler"]
    with scratch(), quiet():
        if k == "pso":
            first = c["n"] + 1
            pos, (L, P, V) = S.pso(c["n"], c["iter"], init_pos=mean.copy() if c["seed"] % 2 else None)
            reports = [("sample", x, v, None) for x, v in zip(P, L)] + [("best", pos, None, "all"), ("count", len(L))]
            require(len(L) <= c["iter"], "number of iterations", got=len(L), want=c["iter"])
        elif k == "simplex":
            ch.logL(mean)
            pos = S.simplex(mean.copy(), c["iter"], c.get("method", "Nelder-Mead"))
            reports = [("best", pos, None, "all" if c.get("method", "Nelder-Mead") == "Nelder-Mead" else "start")]
        elif k in ("emcee", "zeus"):
            first = c["n"]
            init = None
            if c["seed"] % 3 == 0:
                init = np.array([ch.low + (ch.high - ch.low) * np.random.uniform(0.3, 0.6, n) for _ in range(c["n"])])
            try:
                x, v = getattr(S, "mcmc_" + k)(c["n"], c["iter"], c["burn"], mean, sig, initpos=None if init is None else init.copy())
            except RuntimeError as e:
                if k == "zeus" and "expansions" in str(e):
                    return None
                raise
            require(np.shape(x) == (c["n"] * c["iter"], n) and np.shape(v) == (c["n"] * c["iter"],), "one sample per walker and step after the burn-in", got=[np.shape(x), np.shape(v)], want=[c["n"], c["iter"], n])
            if init is not None:
                got = {tuple(a) for a, _ in ch.calls[:c["n"]]}
                require(got == {tuple(a) for a in init}, "walkers start at the positions given")
            reports = [("sample", a, b, None) for a, b in zip(x, v)]
        elif k == "dynesty":
            bounded = 1
            from lenstronomy.Sampling.Samplers.dynesty_sampler import DynestySampler
            d = DynestySampler(ch, prior_type=c["prior"], prior_means=mean, prior_sigmas=sig, width_scale=c["width"], sigma_scale=1.5)
            ch.calls.clear()
            x, mu, lz, ez, v, res = d.run(dict(nlive_init=25, nlive_batch=10, maxiter_init=c["iter"], maxiter_batch=30, maxbatch=1, print_progress=False))
            prior_check(d, ch, c, mean, sig * 1.5)
            lim = limits(ch, c)
            reports = [("sample", a, b, None) for a, b in zip(res.samples, res.logl)] + [("sample", a, b, None) for a, b in zip(x, v)] + [("count", len(x) + len(res.samples))]
            require(len(x) == len(v), "one likelihood per sample")
            w = np.exp(res.logwt - np.max(res.logwt))
            require(np.allclose(mu, np.average(res.samples, weights=w, axis=0), 1e-6, 1e-8), "means are those of the weighted samples", got=list(mu))
        elif k == "nautilus":
            bounded = 1
            from lenstronomy.Sampling.Samplers.nautilus_sampler import NautilusSampler
            d = NautilusSampler(ch, prior_type=c["prior"], prior_means=mean, prior_sigmas=sig, width_scale=c["width"], sigma_scale=1.5, n_live=c["n"], n_networks=0, seed=c["seed"])
            x, mu, lz, ez, v, res = d.run(f_live=0.5, n_eff=30, verbose=False)
            prior_check(d, ch, c, mean, sig * 1.5)
            lim = limits(ch, c)
            reports = [("sample", a, b, None) for a, b in zip(res["points"], res["log_l"])] + [("sample", a, b, None) for a, b in zip(x, v)] + [("count", len(x) + len(res["points"]))]
            w = np.exp(res["log_w"] - np.max(res["log_w"]))
            require(np.allclose(mu, np.average(res["points"], weights=w, axis=0), 1e-6, 1e-8), "means are those of the weighted samples", got=list(mu))
            require(len(x) == len(v), "one likelihood per sample")
        elif k == "cobaya":
            bounded = 1
            from lenstronomy.Sampling.Samplers.cobaya_sampler import CobayaSampler
            import logging
            logging.disable(logging.CRITICAL)
            info, samp, best = CobayaSampler(ch, mean, sig * 0.3).run(Rminus1_stop=1e9, max_samples=c["iter"], proposal_widths=list(0.1 * sig), seed=c["seed"])
            cols = list(info["params"])
            require(len(cols) == n, "every parameter is sampled", got=cols, want=NAMES[:n])
            col = samp.collection
            x, v = col[cols].values.astype(float), -0.5 * np.array(col["chi2"].values, float)
            reports = [("sample", a, b, None) for a, b in zip(x, v)] + [("best", best, None, "samples"), ("count", len(x))]
    return trace(ch, reports, bounded, first, lim)


def limits(ch, c):
    if c["prior"] == "uniform" and c["width"] < 1:
        m, h = (ch.low + ch.high) / 2, (ch.high - ch.low) * c["width"] / 2
        return m - h, m + h
    return ch.low, ch.high


def prior_check(d, ch, c, mean, sig):
    lo, hi = limits(ch, c)
    Phi = lambda z: 0.5 * (1 + np.array([math.erf(t / math.sqrt(2)) for t in z]))
    r = np.random.RandomState(c["seed"])
    for u in [np.full(ch.n, 0.0), np.full(ch.n, 1.0), np.full(ch.n, 0.5)] + [r.uniform(size=ch.n) for _ in range(5)]:
        p = np.array(d.prior(u.copy()), float)
        require(np.shape(p) == (ch.n,) and ch.inside(p, lo, hi), "the prior stays within the limits", u=u.tolist(), got=p.tolist(), low=lo.tolist(), high=hi.tolist())
        if c["prior"] == "uniform":
            back = (p - lo) / (hi - lo)
        else:
            a, b = Phi((lo - mean) / sig), Phi((hi - mean) / sig)
            back = (Phi((p - mean) / sig) - a) / (b - a)
        require(np.allclose(back, u, 1e-6, 1e-6), "the unit cube is mapped by the inverse of the prior's distribution function", u=u.tolist(), got=back.tolist(), prior=c["prior"])
    require(d.log_likelihood(mean) == ch.value(mean), "likelihood of the nested sampler")
    ch.calls.pop()


def trace(ch, reports, bounded, first, lim):
    vals = sorted({v for _, v in ch.calls})
    rank = {v: i for i, v in enumerate(vals)}
    pos, ev = {}, []
    for x, v in ch.calls:
        ev.append(dict(k="eval", v=rank[v], inside=int(ch.inside(x, *lim)), j=0, of=""))
        pos.setdefault(tuple(x), (len(ev), v))
    for r in reports:
        if r[0] == "count":
            ev.append(dict(k="count", v=r[1], inside=1, j=0, of=""))
            continue
        j, v = pos.get(tuple(np.array(r[1], float)), (0, None))
        if j == 0:
            e = dict(k=r[0], v=-2, inside=1, j=0)
        else:
            same = r[2] is None or abs(v - r[2]) <= 1e-9 * (1 + abs(v))
            e = dict(k=r[0], v=rank[v] if same else -2, inside=1, j=j)
        e["of"] = r[3] or ""
        ev.append(e)
    return dict(bounded=bounded, first=first, events=ev)


def judge(traces, ck=None):
    d = tempfile.mkdtemp(prefix="lensverif-t-")
    try:
        f = os.path.join(d, "traces.json")
        with open(f, "w") as h:
            json.dump(traces, h)
        job = ("SamplerTrace", dict(File=f), dict(invariants=["Sane", "Emit"]), dict(workers=NPROC))
        if ck is None:
            ck = Check("trace")
        res = ck.mc(job[0], job[1], job[2], **job[3])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {r["t"] - 1: r for r in res.records}


def trace_case(c):
    """record only (judged together in main), or record and judge (replay)"""
    t = record(c)
    if t is None:
        return
    if c.get("out"):
        with open(c["out"], "w") as f:
            json.dump(t, f)
    else:
        v = judge([t])[0]
        require(v["bad"] == "", v["bad"], event=v["i"], what=t["events"][v["i"] - 1] if v["i"] else None)


# ----------------------------------------------------------------------------- chains that are kept in files
def chain_case(c):
    import emcee
    from lenstronomy.Sampling.sampler import Sampler
    n, W = c["dim"], c["n"]
    ch = Chain(n, c["seed"], c["kind"])
    np.random.seed(c["seed"])
    mean = ch.low + (ch.high - ch.low) * np.random.uniform(0.2, 0.8, n)
    sig = (ch.high - ch.low) * 0.2
    block = {}
    with scratch() as d, quiet():
        for st, h in enumerate(c["hist"]):
            where = dict(step=st, op=h["op"], burn=h["burn"], run=h["run"])
            ch.calls.clear()
            kw = {} if h["op"] == "plain" else dict(backend_filename=os.path.join(d, h["f"] + ".h5"), start_from_backend=h["op"] == "resume")
            hold = h["op"] == "resume" and (c["seed"] + st) % 2
            last = block[h["kept"][len(h["kept"]) - h["run"] - 1]] if h["op"] == "resume" else None
            ch.only = {tuple(a) for a in last} if hold else None
            x, v = Sampler(ch).mcmc_emcee(W, h["run"], h["burn"], mean, sig, **kw)
            out = h["out"]
            require(np.shape(x) == (W * len(out), n) if out else len(x) == 0, "number of samples of a run", got=np.shape(x), want=[W * len(out), n], **where)
            for k, s in enumerate(out):
                b = np.array(x[k * W:(k + 1) * W])
                L = np.array(v[k * W:(k + 1) * W])
                require(np.allclose(L, [ch.value(a) for a in b], 1e-10, 1e-10), "each sample comes with its likelihood", **where)
                if s in block:
                    require(np.array_equal(block[s], b), "a chain that is carried on begins with what was kept", which=s, **where)
                block[s] = b
            if h["op"] != "plain":
                kept = emcee.backends.HDFBackend(os.path.join(d, h["f"] + ".h5"), name="lenstronomy_mcmc_emcee", read_only=True)
                X = kept.get_chain()
                require(X.shape == (len(h["kept"]), W, n), "the file keeps all steps", got=X.shape, want=[len(h["kept"]), W, n], **where)
                for k, s in enumerate(h["kept"]):
                    if s in block:
                        require(np.array_equal(block[s], X[k]), "the file keeps the samples that are returned", which=s, **where)
                    block[s] = X[k].copy()
                old = len(h["kept"]) - h["run"]
                if hold:
                    require(all(np.array_equal(X[k], last) for k in range(old, len(X))), "walkers that find nothing acceptable stay where the chain ended", **where)
                elif h["op"] == "resume":
                    # walkers continue from their last position: most of them stay or move relative to it
                    prev, new = X[old - 1], X[old]
                    moved = [k for k in range(W) if not np.array_equal(prev[k], new[k])]
                    seen = {tuple(a) for a, _ in ch.calls}
                    require(all(tuple(new[k]) in seen for k in moved), "a chain that is carried on continues from its last step", **where)
            if h["op"] != "resume":
                require(all(ch.inside(a) for a, _ in ch.calls[:W]), "walkers start within the limits", **where)


# ----------------------------------------------------------------------------- several processes
def pool_case(c):
    """a swarm that is evaluated by several processes is the swarm evaluated by one"""
    import poolchain
    from lenstronomy.Sampling.sampler import Sampler
    out = []
    for t in (1, 2):
        ch = poolchain.Pooled(3, c["seed"])
        np.random.seed(c["seed"])
        with quiet():
            out.append(Sampler(ch).pso(5, 3, init_pos=ch.mean * 0.5, threadCount=t))
    a, b = out
    require(np.allclose(a[0], b[0]) and np.allclose(a[1][0], b[1][0]) and np.allclose(a[1][1], b[1][1]), "several processes give the answer of one", one=list(a[0]), two=list(b[0]))


CASES = dict(swarm=swarm_case, trace=trace_case, chain=chain_case, pool=pool_case)


def main(pid):
    import lenstronomy.Sampling.sampler, emcee  # noqa
    ck = Check(pid)
    rng = ck.rng
    T = THOROUGH
    R = lambda: rng.randrange(10 ** 6)
    if pid == "C17":
        jobs, conf = [], []
        for N in ([1, 2, 3, 5, 8] if T else [1, 2, 3, 5]):
            for it in ([0, 1, 2, 4, 6] if T else [0, 1, 4]):
                for tol in (0, 12, 40) if it else (0,):
                    if N * (it + 1) > 50:
                        continue
                    conf.append((N, it, tol))
                    jobs.append(("Swarm", dict(N=N, MaxIter=it, Tol=tol, Starts={-1000000, -61, -30, 0}), dict(invariants=["BestOfAll", "OwnBest", "SwarmBest", "NeverWorse", "Stops", "Emit"]),
                                 dict(sim=dict(num=40 if T else 8, depth=it + 4, seed=R()))))
        cases = []
        for (N, it, tol), res in zip(conf, ck.mc_all(jobs)):
            for b in res.records:
                via = rng.choice(["sample", "sample", "optimize"] + (["sampler"] if tol == 0 else []))
                cases.append(dict(beh=b, n=N, iter=it, tol=tol, dim=rng.choice([1, 2, 4]), via=via, seed=R(), wide=rng.random() < 0.5,
                                  kw=rng.choice([{}, {}, dict(c1=0.0), dict(c2=0.0), dict(c1=0.4, c2=2.0)])))
        ck.run_cases(swarm_case, cases, "swarm")
        ck.run_cases(pool_case, [dict(seed=R())], "pool", nproc=1)
        plan = [("pso", 30), ("simplex", 12)]
    else:
        jobs = [("Chains", dict(Files={"a", "b"}, MaxRun=4, MaxBurn=4, Depth=6), dict(invariants=["InOrder", "Suffix", "Carried", "Emit"]), dict(sim=dict(num=300 if T else 60, depth=7, seed=R())))]
        cases = []
        for res in ck.mc_all(jobs):
            for b in behaviours(res.records):
                cases.append(dict(hist=b["hist"], dim=rng.choice([1, 2, 3]), n=rng.choice([8, 10]), kind=rng.choice(["gauss", "wall", "rugged"]), seed=R()))
        ck.run_cases(chain_case, cases, "chain")
        plan = [("emcee", 16), ("zeus", 8), ("dynesty", 14), ("nautilus", 8), ("cobaya", 8)]
    cases = []
    for s, num in plan:
        for k in range(num * (5 if T else 1)):
            c = dict(sampler=s, seed=R(), dim=rng.choice([1, 2, 3, 6] if s in ("pso", "simplex", "cobaya") else [1, 2, 3]), kind=rng.choice(["gauss", "wall", "rugged"]), iter=rng.choice([1, 3, 8]), n=10, burn=0)
            if s in ("emcee", "zeus"):
                c.update(n=rng.choice([8, 12]), iter=rng.choice([1, 4, 7]), burn=rng.choice([0, 1, 3]))
            if s == "pso":
                c.update(n=rng.choice([2, 4, 8]), iter=rng.choice([1, 5, 20]))
            if s == "simplex":
                c.update(method=rng.choice(["Nelder-Mead", "Nelder-Mead", "Powell"]), iter=rng.choice([3, 10, 40]))
            if s in ("dynesty", "nautilus"):
                c.update(prior=rng.choice(["uniform", "gaussian"]), width=rng.choice([1, 1, 0.5]), iter=rng.choice([60, 120]), n=40, kind=rng.choice(["gauss", "rugged"]), dim=rng.choice([2, 3]))
            if s == "cobaya":
                c.update(iter=rng.choice([15, 40]), kind="gauss")
            cases.append(c)
    d = tempfile.mkdtemp(prefix="lensverif-r-")
    try:
        rec = [dict(c, out=os.path.join(d, "%d.json" % i)) for i, c in enumerate(cases)]
        order = list(rec)
        rng.shuffle(order)
        ck.run_cases(trace_case, order, "trace", chunk=1)
        traces, of = [], []
        for c, r in zip(cases, rec):
            if os.path.exists(r["out"]):
                traces.append(json.load(open(r["out"])))
                of.append(c)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if traces:
        for i, v in sorted(judge(traces, ck).items()):
            if v["bad"]:
                ck._add("trace", of[i], (v["bad"], dict(sampler=of[i]["sampler"], event=v["i"], what=traces[i]["events"][v["i"] - 1])))
    ck.assumptions = ["likelihoods of one to six parameters with known values"]
    return ck.finish()
