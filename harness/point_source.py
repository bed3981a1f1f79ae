"""C05: point sources.  Sessions (specs/Session.tla) and the image bookkeeping of one evaluation
(specs/PointImages.tla)."""
import copy
import numpy as np
from common import *
from session import *

LENS = {1: ["SIS", "SHEAR"], 2: ["POINT_MASS", "SHEAR"]}
KW_LENS = {1: [dict(theta_E=1.2, center_x=0.05, center_y=-0.03), dict(gamma1=0.06, gamma2=-0.04)],
           2: [dict(theta_E=0.9, center_x=-0.1, center_y=0.08), dict(gamma1=-0.05, gamma2=0.08)]}
WIN = {1: (6.0, 0.0, 0.0), 2: (2.1, 0.3, 0.2)}


class PS(Target):
    queries = ["image_position", "image_position_add", "source_position", "image_amplitude",
               "point_source_list", "point_source_list_noamp", "point_source_list_k", "linear_response", "linear_response_amp",
               "num_basis", "check"]
    slots = {"lens": [1, 2], "window": [1, 2]}
    clearing = ["lens"]
    cache = True
    cached_queries = ("image_position", "image_position_add", "source_position")
    types = ["UNLENSED", "LENSED_POSITION", "SOURCE_POSITION"]
    fixed = [False, False, False]
    add = [False, False, False]
    flux = None
    mag_limit = None
    redshifts = None
    multi = False
    rtol, atol = 1e-7, 1e-8

    def match(self, got, want):
        if len(want) == 1:
            return same(got, want[0], self.rtol, self.atol)
        # the components are cached separately: each one is as asked for under the cache
        n = len(self.types)
        return len(got) == 2 and len(got[0]) == len(got[1]) == n and all(
            any(same([got[0][i], got[1][i]], [w[0][i], w[1][i]], self.rtol, self.atol) for w in want) for i in range(n))

    def lens_model(self, v):
        from lenstronomy.LensModel.lens_model import LensModel
        if self.multi:
            return LensModel(LENS[v], lens_redshift_list=[0.4, 0.7], z_source=2.0, z_source_convention=3.0, multi_plane=True)
        return LensModel(LENS[v])

    def kw_ps(self, a):
        out = []
        for t, f in zip(self.types, self.fixed):
            s = -1 if a == 2 else 1
            if t == "UNLENSED":
                k = dict(ra_image=np.array([0.3 * s, -0.7]), dec_image=np.array([0.2, 0.4 * s]), point_amp=np.array([1.0 * a, 2.0]))
            elif t == "LENSED_POSITION":
                k = dict(ra_image=np.array([1.3 * s, -0.9, 0.2]), dec_image=np.array([0.3, 0.5 * s, -0.8]))
                k.update(dict(source_amp=1.5 * a) if f else dict(point_amp=np.array([1.0, 2.0, 3.0 * a])))
            else:
                k = dict(ra_source=0.06 * s, dec_source=0.04)
                k.update(dict(source_amp=2.5 * a) if f else dict(point_amp=np.array([4.0, 3.0, 2.0, 1.0 * a, 5.0])))
            out.append(k)
        return out

    def build(self, cur):
        from lenstronomy.PointSource.point_source import PointSource
        w = WIN[cur["window"]]
        return PointSource(list(self.types), lens_model=self.lens_model(cur["lens"]),
                           fixed_magnification_list=list(self.fixed), additional_images_list=list(self.add),
                           flux_from_point_source_list=self.flux, magnification_limit=self.mag_limit,
                           redshift_list=self.redshifts, save_cache=bool(self.start_on),
                           kwargs_lens_eqn_solver=dict(search_window=w[0], x_center=w[1], y_center=w[2], min_distance=0.1))

    def set(self, obj, name, value, cur):
        if name == "lens":
            obj.update_lens_model(self.lens_model(value))
        else:
            w = WIN[value]
            obj.update_search_window(w[0], w[1], w[2])

    def switch(self, obj, value):
        obj.set_save_cache(value)

    def clear(self, obj):
        obj.delete_lens_model_cache()

    def ask(self, obj, q, a):
        kp, kl = self.kw_ps(a), copy.deepcopy(KW_LENS[a])
        keep = flat([kp, kl])
        lm = obj._lens_model
        before = lm.ray_shooting(0.7, 0.4, kl)
        out = self.answer(obj, q, kp, kl)
        out = copy.deepcopy(out)
        require(same(flat(lm.ray_shooting(0.7, 0.4, kl)), flat(before), 1e-12, 1e-14), "the lens model of the user is left as it was", question=q)
        require(same(flat([kp, kl]), keep, 0, 0), "parameters handed in are not altered", question=q)
        return out

    def answer(self, obj, q, kp, kl):
        if q == "image_position":
            return obj.image_position(kp, kl)
        if q == "image_position_add":
            return obj.image_position(kp, kl, additional_images=True)
        if q == "image_position_orig":
            return obj.image_position(kp, kl, additional_images=True, original_position=True)
        if q == "image_position_wide":
            return obj.image_position(kp, kl, additional_images=True, width_search_factor=2)
        if q == "source_position":
            return obj.source_position(kp, kl)
        if q == "image_amplitude":
            return obj.image_amplitude(kp, kl)
        if q == "source_amplitude":
            return obj.source_amplitude(kp, kl)
        if q == "point_source_list":
            return obj.point_source_list(kp, kl)
        if q == "point_source_list_noamp":
            return obj.point_source_list(kp, kl, with_amp=False)
        if q == "point_source_list_k":
            return obj.point_source_list(kp, kl, k=len(self.types) - 1)
        if q == "linear_response":
            return obj.linear_response_set(kp, kl)
        if q == "linear_response_amp":
            return obj.linear_response_set(kp, kl, with_amp=True)
        if q == "num_basis":
            return obj.num_basis(kp, kl)
        if q == "check":
            return obj.check_image_positions(kp, kl, tolerance=0.05)
        raise MachineryError(q)


class PSOff(PS):
    """never cached: also questions with their own search settings"""
    cache = False
    queries = PS.queries + ["image_position_orig", "image_position_wide"]


class PSFixed(PS):
    types = ["SOURCE_POSITION", "LENSED_POSITION"]
    fixed = [True, True]
    queries = [q for q in PS.queries if q not in ("point_source_list_noamp",)] + ["source_amplitude"]


class PSAdd(PSOff):
    add = [False, True, False]
    fixed = [False, True, False]
    flux = [True, True, False]
    mag_limit = 0.5


class PSMulti(PSOff):
    types = ["LENSED_POSITION", "SOURCE_POSITION", "SOURCE_POSITION"]
    fixed = [True, False, True]
    multi = True
    redshifts = [0.6, 1.3, 2.0]


class PSMixed(PSMulti):
    """a component without redshift is at the redshift of the lens model"""
    redshifts = [0.6, None, 1.3]


class PSOn(PS):
    start_on = True


TARGETS = {"plain": PS(), "off": PSOff(), "fixed": PSFixed(), "additional": PSAdd(), "multiplane": PSMulti(), "mixed": PSMixed(), "on": PSOn()}


def ps_session(c):
    session_case(TARGETS, c)


# --------------------------------------------------------------------------- one evaluation

def images_case(c):
    """c: record of PointImages.tla: components with type, fixed, number of images, flux flag, parameters"""
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.LensModel.lens_model import LensModel
    rec = c["rec"]
    comps = rec["comps"]
    zs = [c["z"][i] if c["z"] else None for i in range(len(comps))]

    def lens(z):
        if not c["z"]:
            return LensModel(LENS[1])
        return LensModel(LENS[1], z_lens=0.5, z_source=z or 1.5, z_source_convention=1.5)
    shared = lens(None)
    lms = [lens(z) for z in zs]
    kl = KW_LENS[1]
    src = {1: (0.06, 0.04), 2: (-0.5, 0.35)}        # inside / outside the caustic
    opts = dict(search_window=6.0, x_center=0.0, y_center=0.0, min_distance=0.05)
    kp, types = [], []
    images, amps = [], []
    for i, m in enumerate(comps):
        lm = lms[i]
        t = m["type"]
        types.append(t)
        n = m["n"]
        if t == "SOURCE_POSITION":
            k = dict(ra_source=src[n][0], dec_source=src[n][1])
            x, y = solve(lm, kl, *src[n])
        else:
            k = dict(ra_image=0.4 * np.arange(1, n + 1) + 0.1 * i + 0.3, dec_image=0.3 - 0.2 * np.arange(n) + 0.05 * i)
            x, y = k["ra_image"], k["dec_image"]
        mu = 1 / det(lm, kl, x, y)
        if m["fixed"]:
            k["source_amp"] = 1.5 + i
            amp = (1.5 + i) * np.abs(mu)
        else:
            k["point_amp"] = 2.0 + i + 0.5 * np.arange(len(x))
            amp = k["point_amp"]
        kp.append(k)
        images.append((np.array(x), np.array(y), np.array(mu)))
        amps.append(np.array(amp))
    flux = [m["flux"] for m in comps]
    ps = PointSource(types, lens_model=shared, redshift_list=zs if c["z"] else None, fixed_magnification_list=[m["fixed"] for m in comps],
                     flux_from_point_source_list=flux, kwargs_lens_eqn_solver=opts, save_cache=c["cache"])
    keep = copy.deepcopy(kp)

    def eq(got, want, clause):
        ok = len(got) == len(want) and all(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-4, atol=1e-5)
                                           for a, b in zip(got, want))
        require(ok, clause, got=str(flat(got)), want=str(flat(want)))

    x, y = ps.image_position(kp, kl)
    order = []
    for i in range(len(comps)):
        # images of a solved source may come in any order: match by position
        require(len(x[i]) == len(images[i][0]), "number of images of a component", component=i, got=flat(x[i]))
        d = (np.asarray(x[i])[:, None] - images[i][0][None]) ** 2 + (np.asarray(y[i])[:, None] - images[i][1][None]) ** 2
        o = np.argmin(d, axis=1)
        require(sorted(o) == list(range(len(o))) and np.max(np.min(d, axis=1), initial=0) < 1e-8, "image positions of a component",
                component=i, got=[flat(x[i]), flat(y[i])], want=flat(images[i][:2]))
        if types[i] != "SOURCE_POSITION":
            require(list(o) == list(range(len(o))), "given positions keep their order", component=i)
        order.append(o)
    X = [images[i][0][order[i]] for i in range(len(comps))]
    Y = [images[i][1][order[i]] for i in range(len(comps))]
    MU = [images[i][2][order[i]] for i in range(len(comps))]
    A = [amps[i][order[i]] if comps[i]["fixed"] else amps[i] for i in range(len(comps))]
    eq(ps.image_amplitude(kp, kl), [a if f else 0 * a for a, f in zip(A, flux)], "image amplitudes")
    # the list of all images in the order of the specification
    ra, dec, amp = ps.point_source_list(kp, kl)
    want = [(X[i][j - 1], Y[i][j - 1], A[i][j - 1]) for i, j in pairs(rec["all"], X)]
    eq([ra, dec, amp], [[w[n] for w in want] for n in range(3)] if want else [[], [], []], "list of all images")
    for k in range(len(comps)):
        ra, dec, amp = ps.point_source_list(kp, kl, k=k)
        want = [(X[i][j - 1], Y[i][j - 1], A[i][j - 1]) for i, j in pairs(rec["all"], X) if i == k]
        eq([ra, dec, amp], [[w[n] for w in want] for n in range(3)] if want else [[], [], []], "images of one component")
    # linear responses
    ra, dec, amp, n = ps.linear_response_set(kp, kl)
    want = []
    for r in expand(rec["responses"], X, comps):
        i = r[0][0]
        want.append([[X[i][j] for i, j in r], [Y[i][j] for i, j in r],
                     [abs(MU[i][j]) if comps[i]["fixed"] else 1.0 for i, j in r]])
    require(n == len(want) == ps.num_basis(kp, kl), "number of linear responses", got=[n, ps.num_basis(kp, kl)], want=len(want))
    eq(ra, [w[0] for w in want], "positions of the linear responses")
    eq(dec, [w[1] for w in want], "positions of the linear responses")
    eq(amp, [w[2] for w in want], "amplitudes of the linear responses")
    ra, dec, amp, n = ps.linear_response_set(kp, kl, with_amp=True)
    eq(amp, [[A[i][j] for i, j in r] for r in expand(rec["responses"], X, comps)], "amplitudes of the responses with amplitude")
    # the linear parameters belong to the responses
    par = [7.0 + 0.25 * m for m in range(len(want))]
    new, nxt = ps.update_linear([-1.0] + par + [99.0], 1, copy.deepcopy(kp), kl)
    require(nxt == 1 + len(want), "next linear parameter", got=nxt)
    rs = expand(rec["responses"], X, comps)
    for i, m in enumerate(comps):
        if not m["flux"]:
            require(same(flat(new[i]), flat(kp[i]), 0, 0), "component without flux keeps its amplitudes", component=i)
        elif m["fixed"]:
            require(new[i]["source_amp"] == par[[r[0][0] for r in rs].index(i)], "linear amplitude of a component", component=i)
        else:
            w = [p for p, r in zip(par, rs) if r[0][0] == i]
            require(close(new[i]["point_amp"], w), "linear amplitudes of a component", component=i)
    require(close(ps.linear_param_from_kwargs(new), par), "linear parameters read back")
    total = []
    a2 = ps.image_amplitude(new, kl)
    for p, r in zip(par, rs):
        for i, j in r:
            total.append(a2[i][j] - p * (abs(MU[i][j]) if comps[i]["fixed"] else 1.0))
    require(np.allclose(total, 0, atol=1e-3), "amplitude times response is the image amplitude", got=flat(total))
    # source positions and amplitudes
    sx, sy = ps.source_position(kp, kl)
    for i, m in enumerate(comps):
        if m["type"] == "SOURCE_POSITION":
            w = src[m["n"]]
        elif m["type"] == "UNLENSED":
            w = (X[i], Y[i])
        else:
            bx, by = lms[i].ray_shooting(X[i], Y[i], kl)
            w = (np.mean(bx), np.mean(by))
        eq([sx[i], sy[i]], list(w), "source position of a component")
    sa = ps.source_amplitude(kp, kl)
    for i, m in enumerate(comps):
        if m["fixed"]:
            w = 1.5 + i
        elif m["type"] == "UNLENSED":
            w = A[i]
        else:
            w = np.mean(A[i] / np.abs(MU[i]))
        if m["type"] == "SOURCE_POSITION" and not m["fixed"]:
            continue     # default search window, not the one of the model
        eq([sa[i]], [np.asarray(w) * (1 if m["flux"] else 0)], "intrinsic amplitude of a component")
    lens_ok = all(np.ptp(lms[i].ray_shooting(X[i], Y[i], kl)[0]) < 1e-3 and np.ptp(lms[i].ray_shooting(X[i], Y[i], kl)[1]) < 1e-3
                  for i, m in enumerate(comps) if m["type"] != "UNLENSED")
    require(bool(ps.check_image_positions(kp, kl, tolerance=0.01)) == bool(lens_ok), "lens equation check of the images")
    require(ps.check_positive_flux(kp), "positive amplitudes")
    neg = copy.deepcopy(kp)
    j = c["neg"] % len(comps)
    if comps[j]["fixed"]:
        neg[j]["source_amp"] = -1.0
    else:
        neg[j]["point_amp"][-1] = -1.0
    require(not ps.check_positive_flux(neg), "a negative amplitude is reported")
    amps_new = [5.0 + i if m["fixed"] else 6.0 + i + np.arange(len(X[i])) for i, m in enumerate(comps)]
    st = ps.set_amplitudes(amps_new, kp)
    for i, m in enumerate(comps):
        key = "source_amp" if m["fixed"] else "point_amp"
        w = amps_new[i] if m["flux"] else kp[i][key]
        require(close(st[i][key], w), "set_amplitudes", component=i)
    require(same(flat(kp), flat(keep), 0, 0), "parameters handed in are not altered")
    require(same(flat(shared.ray_shooting(0.7, 0.4, kl)), flat(lens(None).ray_shooting(0.7, 0.4, kl)), 1e-12, 1e-14), "the lens model of the user is left as it was")


def pairs(seq, X):
    """<<component, image>> pairs of the specification; image 0 stands for 'every image of the solution'"""
    for i, j in seq:
        if j:
            yield i - 1, j
        else:
            for m in range(len(X[i - 1])):
                yield i - 1, m + 1


def expand(resp, X, comps):
    out = []
    for r in resp:
        if r["joint"]:
            i = r["comp"] - 1
            out.append([(i, j) for j in range(len(X[i]))])
        elif r["image"] == 0:
            i = r["comp"] - 1
            out += [[(i, j)] for j in range(len(X[i]))]
        else:
            out.append([(r["comp"] - 1, r["image"] - 1)])
    return out


def solve(lm, kl, sx, sy):
    """all images of a source, by a fine scan with Newton steps (independent of the solver of the code)"""
    g = np.linspace(-3, 3, 241)
    gx, gy = [v.ravel() for v in np.meshgrid(g, g)]
    bx, by = lm.ray_shooting(gx, gy, kl)
    d = np.hypot(bx - sx, by - sy)
    x, y = gx[d < 0.15], gy[d < 0.15]
    for _ in range(60):
        bx, by = lm.ray_shooting(x, y, kl)
        fxx, fxy, fyx, fyy = lm.hessian(x, y, kl)
        a, b, c, e = 1 - fxx, -fxy, -fyx, 1 - fyy
        dt = a * e - b * c
        rx, ry = bx - sx, by - sy
        dx, dy = (e * rx - b * ry) / dt, (a * ry - c * rx) / dt
        st = np.minimum(1, 0.05 / np.maximum(np.hypot(dx, dy), 1e-12))
        x, y = x - st * dx, y - st * dy
    bx, by = lm.ray_shooting(x, y, kl)
    ok = (np.hypot(bx - sx, by - sy) < 1e-9) & (np.abs(x) < 3) & (np.abs(y) < 3)
    x, y = x[ok], y[ok]
    keepx, keepy = [], []
    for u, v in zip(x, y):
        if all(np.hypot(u - p, v - q) > 1e-5 for p, q in zip(keepx, keepy)):
            keepx.append(u)
            keepy.append(v)
    return np.array(keepx), np.array(keepy)


def det(lm, kl, x, y):
    fxx, fxy, fyx, fyy = lm.hessian(np.asarray(x, float), np.asarray(y, float), kl)
    return (1 - fxx) * (1 - fyy) - fxy * fyx


CASES = {"session": ps_session, "images": images_case}


def main(pid):
    import lenstronomy.LensModel.lens_model, lenstronomy.PointSource.point_source  # noqa
    ck = Check(pid)
    long = (16, 16) if not THOROUGH else (40, 1500)
    plan = {k: (2 if not THOROUGH else 3, long) for k in TARGETS}
    plan["on"] = (3, long)
    plan["off"] = (3, long)
    run_sessions(ck, TARGETS, ps_session, plan, deep_limit={k: 450 if k == "on" else 160 for k in TARGETS} if not THOROUGH else 20000)
    r = ck.mc("PointImages", dict(MaxComp=3, Emitting=True), dict(invariants=["OnePerAmplitude", "ListIsConcatenation", "Emit"]))
    recs = list(r.records)
    ck.rng.shuffle(recs)
    recs = recs[:200] if not THOROUGH else recs
    ck.run_cases(images_case, [dict(rec=x, cache=bool(i % 2), neg=i, z=[ck.rng.choice([None, 1.0, 1.5, 3.0]) for _ in range(3)] if ck.rng.random() < 0.4 else None) for i, x in enumerate(recs)], "images")
    ck.assumptions = ["SIS, point mass and shear lenses, single-plane and multi-plane", "answers with a cache switched on and changed "
                      "arguments: any answer asked for since the cache was cleared is accepted (documented)"]
    return ck.finish()
