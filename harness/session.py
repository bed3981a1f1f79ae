"""Replay of sessions generated from specs/Session.tla into real objects.

A target describes one kind of object: its settings, the questions that can be asked and how a
fresh object with given settings is built.  The answer of the object with a history must be the
answer of an object without one (or, under a cache the user switched on, one of the answers the
specification allows)."""
import copy
import numpy as np
from common import *


class Target:
    slots = {}           # name -> list of versions (first = initial)
    args = [1, 2]
    queries = []
    clearing = []
    cache = False
    freeze = False
    start_on = False
    while_frozen = ()    # settings that may be updated in static mode
    cached_queries = ()  # questions whose whole answer comes from the cache
    rtol, atol = 1e-9, 1e-11

    def build(self, cur):
        raise NotImplementedError

    def set(self, obj, name, value, cur):
        raise NotImplementedError

    def ask(self, obj, q, a):
        raise NotImplementedError

    def switch(self, obj, value):
        raise NotImplementedError

    def clear(self, obj):
        raise NotImplementedError

    def do_freeze(self, obj, a):
        """returns the token passed as argument while frozen"""
        raise NotImplementedError

    def thaw(self, obj):
        raise NotImplementedError

    def match(self, got, want):
        return any(same(got, w, self.rtol, self.atol) for w in want)

    def ask_frozen(self, obj, q, a, token):
        return self.ask(obj, q, a)


def flat(x):
    """answers as nested lists of floats"""
    if isinstance(x, (list, tuple)):
        return [flat(y) for y in x]
    if isinstance(x, dict):
        return {k: flat(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.tolist() if x.dtype != object else [flat(y) for y in x]
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    return x


def same(a, b, rtol, atol):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        if a and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in a) and \
                all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in b):
            return bool(np.allclose(np.array(a, float), np.array(b, float), rtol=rtol, atol=atol, equal_nan=True))
        return all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(float(a), float(b), rtol, atol)
    return a == b


_FRESH = {}


def fresh(name, target, q, version):
    k = (name, q, canon(version))
    if k not in _FRESH:
        obj = target.build(dict(version["set"]) if version["set"] else {})
        np.random.seed(42)
        _FRESH[k] = flat(target.ask(obj, q, version["arg"]))
    return _FRESH[k]


def session_case(targets, c):
    t = targets[c["target"]]
    cur = {s: min(v) for s, v in t.slots.items()}
    obj = t.build(dict(cur))
    if t.cache and t.start_on:
        t.switch(obj, True)
    token, frozen = None, 0
    done = []
    for st in c["hist"]:
        op = st["op"]
        if op == "set":
            cur = dict(cur, **{st["name"]: st["value"]})
            obj = t.set(obj, st["name"], st["value"], dict(cur)) or obj
            done.append("%s=%s" % (st["name"], st["value"]))
        elif op == "switch":
            t.switch(obj, st["value"])
            done.append("cache %s" % st["value"])
        elif op == "clear":
            t.clear(obj)
            done.append("clear")
        elif op == "freeze":
            token, frozen = t.do_freeze(obj, st["a"]), st["a"]
            done.append("freeze %d" % st["a"])
        elif op == "thaw":
            t.thaw(obj)
            token, frozen = None, 0
            done.append("thaw")
        else:
            done.append("%s(%d)" % (st["q"], st["a"]))
            np.random.seed(42)
            got = flat(t.ask_frozen(obj, st["q"], st["a"], token) if frozen else t.ask(obj, st["q"], st["a"]))
            allowed = st["allowed"]
            if len(allowed) > 1 and st["q"] not in t.cached_queries:
                continue
            want = [fresh(c["target"], t, st["q"], v) for v in allowed]
            require(t.match(got, want),
                    "answer to '%s' is that of a fresh object" % st["q"], target=c["target"], history=done,
                    settings=cur, got=str(got)[:600], want=str(want)[:600])


def session_jobs(name, t, deep=(3, None), long=(25, 100)):
    """TLC jobs: all sessions of length deep[0], long[1] random sessions of length long[0]."""
    defs = dict(Slots=fn_tla({k: Raw(tla(set(v))) for k, v in t.slots.items()}) if t.slots else Raw("<<>>"),
                Args=set(t.args), Queries=set(t.queries), Clearing=set(t.clearing) if t.clearing else Raw("{}"),
                WhileFrozen=set(t.while_frozen) if t.while_frozen else Raw("{}"),
                HasCache=t.cache, HasFreeze=t.freeze, StartOn=bool(t.start_on), Emitting=True)
    inv = dict(invariants=["NoMemory", "CacheHonest", "Emit"])
    return [("Session", dict(defs, Depth=deep[0]), inv, dict(timeout=600)),
            ("Session", dict(defs, Depth=long[0]), inv,
             dict(sim=dict(num=long[1], depth=long[0] + 1, seed=SEED), timeout=600))]


def stratified(rng, recs, limit, special=()):
    """a sample that covers every shape of history (which operations, settings and arguments in which order) before
    it repeats one with other questions; a special question asked twice makes a shape of its own"""
    groups = {}
    for r in recs:
        k = tuple((h["op"], h.get("a"), h.get("name"), str(h.get("value"))) for h in r["hist"])
        q = [h["q"] for h in r["hist"] if h["op"] == "ask"]
        if len(q) > 1 and q[-1] in special and q[-1] in q[:-1]:
            k += (q[-1],)
        groups.setdefault(k, []).append(r)
    keys = sorted(groups, key=str)
    rng.shuffle(keys)
    for k in keys:
        rng.shuffle(groups[k])
    out, depth = [], 0
    while len(out) < limit and any(len(g) > depth for g in groups.values()):
        out += [groups[k][depth] for k in keys if len(groups[k]) > depth]
        depth += 1
    return out[:limit]


def run_sessions(ck, module_targets, case_fn, plan, deep_limit=None):
    """plan: {target: (deep, long)}; targets with the same alphabet share the TLC runs"""
    jobs, index, use = [], {}, []
    for name, (deep, long) in plan.items():
        js = session_jobs(name, module_targets[name], (deep, None), long)
        k = canon([str(j[1]) for j in js] + [str(j[3]) for j in js])
        if k not in index:
            index[k] = (len(jobs), [n for n in plan if n == name])
            jobs += js
        else:
            index[k][1].append(name)
    res = ck.mc_all(jobs, nproc=6)
    cases = []
    for pos, names in index.values():
        deep = [x for x in res[pos].records if x["hist"][-1]["op"] == "ask"]
        long = behaviours(res[pos + 1].records)
        for name in names:
            recs = deep
            if deep_limit:
                recs = stratified(ck.rng, recs, (deep_limit or {}).get(name, 160) if isinstance(deep_limit, dict) else deep_limit,
                                  module_targets[name].cached_queries)
            for rec in recs + long:
                cases.append(dict(target=name, hist=rec["hist"]))
    ck.rng.shuffle(cases)
    ck.run_cases(case_fn, cases, "session")
