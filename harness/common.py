"""Shared machinery: run TLC on a specification, collect what it emits, walk state graphs,
report verdicts and write evidence.

Verdict discipline: everything that the code under test does (wrong value, unexpected
exception, hang inside a case) becomes a *violation* with the failing clause named; only a
failure of the machinery itself (TLC missing, a specification that does not parse, a
specification whose own invariants fail) ends as an error exit.
"""
import json, os, re, subprocess, sys, time, traceback, hashlib, random, math
from collections import defaultdict, deque
import multiprocessing as mp

HOME = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPECS = os.path.join(HOME, "specs")
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp/lensverif-adhoc")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 1)
JAR = "/opt/veriftools/tla/tla2tools.jar"


class MachineryError(Exception):
    """The check itself is broken (not the code under test)."""


# ----------------------------------------------------------------------------- TLC

class TLCRun:
    def __init__(self):
        self.records = []
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.stdout = ""
        self.ok = False
        self.wall = 0.0
        self.error = ""


_MARK = '"@@'


def _parse_records(line, out):
    # PrintT("@@" \o ToJson(x)) prints a TLA+ string literal: quotes escaped
    s = line.strip()
    if not s.startswith(_MARK) or not s.endswith('"'):
        return False
    body = s[3:-1].replace('\\"', '"').replace("\\\\", "\\")
    out.append(json.loads(body))
    return True


def write_cfg(path, spec=None, init=None, next_=None, constants=None, invariants=(),
              properties=(), action_constraints=(), constraints=(), postcondition=None,
              deadlock=False, view=None, symmetry=None, extra=""):
    L = []
    if spec:
        L.append("SPECIFICATION %s" % spec)
    else:
        L.append("INIT %s" % (init or "Init"))
        L.append("NEXT %s" % (next_ or "Next"))
    if constants:
        L.append("CONSTANTS")
        for k, v in constants.items():
            if isinstance(v, str) and v.startswith("<-"):
                L.append("  %s <- %s" % (k, v[2:].strip()))
            else:
                L.append("  %s = %s" % (k, tla(v)))
    for i in invariants:
        L.append("INVARIANT %s" % i)
    for i in properties:
        L.append("PROPERTY %s" % i)
    for i in constraints:
        L.append("CONSTRAINT %s" % i)
    for i in action_constraints:
        L.append("ACTION_CONSTRAINT %s" % i)
    if postcondition:
        L.append("POSTCONDITION %s" % postcondition)
    if view:
        L.append("VIEW %s" % view)
    if symmetry:
        L.append("SYMMETRY %s" % symmetry)
    L.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
    if extra:
        L.append(extra)
    with open(path, "w") as f:
        f.write("\n".join(L) + "\n")


class Raw(str):
    """A TLA+ expression passed through verbatim."""


def tla(v):
    """Python value -> TLA+ literal (for cfg CONSTANTS; cfg files allow only simple literals)."""
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise MachineryError("cannot express %r in TLA+" % (v,))


def mc(base, defs, **cfg):
    """Model-checking instance of a specification: module MC extends `base` and defines the
    constants.  Returns (module name, cfg dict, extra files) to pass to tlc()."""
    body = ["---- MODULE MC ----", "EXTENDS " + base]
    cons = {}
    for k, v in defs.items():
        body.append("mc_%s == %s" % (k, tla(v)))
        cons[k] = "<-mc_" + k
    body.append("====")
    c = dict(cfg)
    c["constants"] = cons
    return "MC", c, {"MC.tla": "\n".join(body) + "\n"}


def fn_tla(d):
    """Python dict with string/int keys -> TLA+ function."""
    if not d:
        return Raw("<<>>")
    return Raw("(" + " @@ ".join("(%s :> %s)" % (tla(k), tla(v)) for k, v in d.items()) + ")")


import itertools
_tlc_n = itertools.count(1)


def tlc(module, cfg=None, workers=1, timeout=800, env=None, sim=None, heap="3g",
        allow_invariant_failure=False, extra_files=None, args=(), coverage=False):
    """Run TLC on specs/<module>.tla with the given cfg (dict of write_cfg kwargs or a path).

    Returns a TLCRun with every record the specification emitted through Emit(...).
    Raises MachineryError if the specification violates its own invariants or TLC fails:
    that is a defect of the model, never a verdict about the code.
    """
    wd = os.path.join(SCRATCH, "tlc_%s_%d_%d" % (module, os.getpid(), next(_tlc_n)))
    os.makedirs(wd, exist_ok=True)
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPECS, f), os.path.join(wd, f))
    for name, content in (extra_files or {}).items():
        p = os.path.join(wd, name)
        if os.path.islink(p):
            os.unlink(p)
        with open(p, "w") as fh:
            fh.write(content)
    if isinstance(cfg, dict):
        cfgp = os.path.join(wd, "MC.cfg")
        write_cfg(cfgp, **cfg)
    else:
        cfgp = os.path.join(SPECS, cfg or (module + ".cfg"))
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp",
           JAR + ":" + _community(), "tlc2.TLC",
           "-config", cfgp, "-workers", str(workers), "-metadir", os.path.join(wd, "states"),
           "-noGenerateSpecTE"]
    if coverage:
        cmd += ["-coverage", "1"]
    if sim:
        cmd += ["-simulate", "num=%d" % sim["num"], "-depth", str(sim["depth"]),
                "-seed", str(sim.get("seed", SEED))]
    cmd += list(args) + [module + ".tla"]
    r = TLCRun()
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    e["TMPDIR"] = wd
    lines = []
    p = subprocess.Popen(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, env=e)
    import threading
    killed = []
    tm = threading.Timer(timeout, lambda: (killed.append(1), p.kill()))
    tm.start()
    try:
        for line in p.stdout:
            if line.startswith(_MARK):
                if not _parse_records(line, r.records):
                    lines.append(line)
            else:
                lines.append(line)
        p.wait()
    finally:
        tm.cancel()
    r.wall = time.time() - t0
    r.stdout = "".join(lines)
    m = re.findall(r"([\d,]+) states generated(?:.*?), ([\d,]+) distinct states", r.stdout)
    if m:
        r.generated = int(m[-1][0].replace(",", ""))
        r.distinct = int(m[-1][1].replace(",", ""))
    m = re.findall(r"number of states generated: ([\d,]+)", r.stdout)  # simulation
    if m and not r.generated:
        r.generated = r.distinct = int(m[-1].replace(",", ""))
    m = re.findall(r"depth of the complete state graph search is (\d+)", r.stdout)
    if m:
        r.depth = int(m[-1])
    if killed:
        raise MachineryError("TLC timed out after %ss on %s" % (timeout, module))
    r.ok = "No error has been found" in r.stdout or (sim and p.returncode == 0)
    if not r.ok:
        r.error = r.stdout[-6000:]
        if not allow_invariant_failure:
            raise MachineryError("TLC failed on %s:\n%s" % (module, r.error))
    import shutil
    shutil.rmtree(wd, ignore_errors=True)
    return r


def _community():
    d = os.path.dirname(JAR)
    js = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and "ommunity" in f]
    return ":".join(js)


# ----------------------------------------------------------------------------- graphs

def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class LTS:
    """Labelled transition system from records {pre, act, post} (+ {init: s})."""

    def __init__(self, records):
        self.succ = defaultdict(list)
        self.state = {}
        self.inits = []
        seen = set()
        self.n_trans = 0
        for r in records:
            if "init" in r:
                k = canon(r["init"])
                self.state[k] = r["init"]
                if k not in self.inits:
                    self.inits.append(k)
                continue
            a, b = canon(r["pre"]), canon(r["post"])
            key = (a, canon(r["act"]), b)
            if key in seen:
                continue
            seen.add(key)
            self.state[a] = r["pre"]
            self.state[b] = r["post"]
            self.succ[a].append((r["act"], b))
            self.n_trans += 1

    def walks(self, rng, max_len=40, max_walks=100000):
        """Walks from initial states that together take every reachable transition."""
        todo = {(s, i) for s in self.succ for i in range(len(self.succ[s]))}
        covered = set()
        # BFS distance helper from a node to the nearest uncovered edge
        out = []
        reach = self._reachable()
        todo = {t for t in todo if t[0] in reach}
        while todo and len(out) < max_walks:
            progress = False
            init = rng.choice(self.inits)
            cur, walk = init, []
            while len(walk) < max_len:
                path = self._to_uncovered(cur, todo, max_len - len(walk))
                if path is None:
                    break
                for (s, i) in path:
                    act, nxt = self.succ[s][i]
                    walk.append((act, nxt))
                    if (s, i) in todo:
                        todo.discard((s, i))
                        progress = True
                    cur = nxt
            if walk:
                out.append((init, walk))
            if not progress:
                # unreachable within max_len from this init: try the others once, else stop
                got = False
                for init in self.inits:
                    path = self._to_uncovered(init, todo, 10 ** 6)
                    if path is not None:
                        walk = []
                        for (s, i) in path:
                            act, nxt = self.succ[s][i]
                            walk.append((act, nxt))
                            todo.discard((s, i))
                        out.append((init, walk))
                        got = True
                        break
                if not got:
                    break
        self.uncovered = len(todo)
        return out

    def _reachable(self):
        q, seen = deque(self.inits), set(self.inits)
        while q:
            s = q.popleft()
            for _, t in self.succ[s]:
                if t not in seen:
                    seen.add(t)
                    q.append(t)
        return seen

    def _to_uncovered(self, cur, todo, limit):
        q = deque([cur])
        par = {cur: None}
        d = {cur: 0}
        while q:
            s = q.popleft()
            if d[s] >= limit:
                continue
            for i, (_, t) in enumerate(self.succ[s]):
                if (s, i) in todo:
                    path = [(s, i)]
                    while par[s] is not None:
                        path.append(par[s])
                        s = par[s][0]
                    return path[::-1]
                if t not in par:
                    par[t] = (s, i)
                    d[t] = d[s] + 1
                    q.append(t)
        return None

    def random_walks(self, rng, n, length):
        out = []
        for _ in range(n):
            init = rng.choice(self.inits)
            cur, walk = init, []
            for _ in range(length):
                if not self.succ[cur]:
                    break
                act, nxt = rng.choice(self.succ[cur])
                walk.append((act, nxt))
                cur = nxt
            if walk:
                out.append((init, walk))
        return out


def behaviours(records, key="hist"):
    """Behaviours emitted by simulation: TLC evaluates the emitting invariant on every successor of
    the last state, so keep one behaviour per distinct prefix."""
    seen, out = set(), []
    for r in records:
        if key not in r:
            continue
        k = hashlib.md5(canon(r[key][:-1]).encode()).hexdigest()
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


# ----------------------------------------------------------------------------- comparing

def close(a, b, rtol=1e-8, atol=1e-10):
    import numpy as np
    if isinstance(a, (float, int)) and isinstance(b, (float, int)):
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * abs(b)
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return a == b
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


# ----------------------------------------------------------------------------- checks

class Violation(Exception):
    """Raised inside a case: the code under test broke the named clause."""

    def __init__(self, clause, **detail):
        Exception.__init__(self, clause)
        self.clause = clause
        self.detail = detail


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.extra = {}
        self.known = load_known(pid)
        self.known_hit = {}
        self.rng = random.Random(SEED * 7919 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))

    # -- model side
    def mc(self, base, defs, cfg, **kw):
        """TLC on an instance of specification `base` with the given constants."""
        m, c, files = mc(base, defs, **cfg)
        return self.tlc(m, c, extra_files=files, name=base, **kw)

    def mc_all(self, jobs, nproc=None):
        """Several TLC runs side by side: jobs = [(base, defs, cfg, kw)], results in order."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(nproc or NPROC) as ex:
            return list(ex.map(lambda j: self.mc(j[0], j[1], j[2], **(j[3] if len(j) > 3 else {})), jobs))

    def tlc(self, module, cfg=None, name=None, **kw):
        r = tlc(module, cfg, **kw)
        module = name or module
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("models", []).append(
            dict(module=module, distinct=r.distinct, generated=r.generated, depth=r.depth,
                 emitted=len(r.records), wall=round(r.wall, 1)))
        return r

    # -- code side
    def run_cases(self, fn, cases, label="case", chunk=None, nproc=None, case_timeout=None):
        """fn(case) -> None or raises Violation; any other exception of the code is a violation too."""
        cases = list(cases)
        nproc = nproc or NPROC
        results = []
        if nproc == 1 or len(cases) < 4:
            for c in cases:
                results.append(_one(fn, c))
        else:
            ctx = mp.get_context("fork")
            chunk = chunk or max(1, len(cases) // (nproc * 8))
            global _FN
            _FN = fn
            with ctx.Pool(nproc, initializer=_quiet) as pool:
                for res in pool.imap(_worker, cases, chunksize=chunk):
                    results.append(res)
        nv = 0
        for c, res in zip(cases, results):
            self.traces += 1
            if res is None:
                continue
            self._add(label, c, res)
            nv += 1
        if cases and len(self.samples) < 12:
            self.samples.append({"kind": label, "case": _short(self.rng.choice(cases))})
        self.extra.setdefault("replayed", {})[label] = self.extra.get("replayed", {}).get(label, 0) + len(cases)
        return nv

    def _add(self, label, case, res):
        clause, detail = res
        for k in self.known:
            if k.get("clause") == clause and all(
                    canon(_dig(case, kk)) == canon(vv) for kk, vv in k.get("case", {}).items()):
                self.known_hit.setdefault(k["id"], k)
                return
        self.violations.append({"label": label, "clause": clause, "case": case, "detail": detail})

    def fail(self, clause, case=None, **detail):
        self._add("direct", case or {}, (clause, detail))

    def finish(self):
        wall = time.time() - self.t0
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or [{"kind": "none"}],
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": cov, "wall_s": round(wall, 2), "violations": len(self.violations),
            "assumptions": self.assumptions,
        }
        d = os.path.join(HOME, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if not self.violations:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.pid, self.states, self.transitions, self.traces, wall))
            return 0
        rd = os.path.join(d, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in self.violations:
            if v["clause"] in seen:
                continue
            seen.add(v["clause"])
            if len(seen) > 20:
                break
            path = os.path.join(rd, "%s-%s.json" % (self.pid, hashlib.md5(
                canon(v["clause"]).encode()).hexdigest()[:8]))
            with open(path, "w") as f:
                json.dump(dict(v, property=self.pid, seed=SEED, tier=TIER), f, indent=1, default=str)
            n = sum(1 for w in self.violations if w["clause"] == v["clause"])
            print("clause failed (%d case(s)): %s" % (n, v["clause"]))
            print("   detail: %s" % json.dumps(v["detail"], default=str)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        return 1


def _dig(case, path):
    cur = case
    for p in path.split("."):
        if isinstance(cur, dict) and p in cur:
            cur = cur[p]
        elif isinstance(cur, list) and p.isdigit() and int(p) < len(cur):
            cur = cur[int(p)]
        else:
            return None
    return cur


_FN = None


def _quiet():
    sys.stdout = open(os.devnull, "w")


CASE_TIMEOUT = 400


def _alarm(signum, frame):
    raise Violation("a call of the code under test did not return within %d s" % CASE_TIMEOUT)


def _worker(c):
    return _one(_FN, c)


def _one(fn, c):
    so = sys.stdout
    import signal
    old = None
    try:
        try:
            old = signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(CASE_TIMEOUT)
        except ValueError:
            pass
        sys.stdout = open(os.devnull, "w")
        fn(c)
        return None
    except Violation as v:
        return (v.clause, v.detail)
    except MachineryError:
        raise
    except Exception as e:  # the code under test raised where the specification allows the call
        tb = traceback.format_exc(limit=-6)
        return ("unexpected exception: %s" % type(e).__name__, {"message": str(e)[:500], "traceback": tb[-2500:]})
    finally:
        signal.alarm(0)
        if old is not None:
            signal.signal(signal.SIGALRM, old)
        try:
            sys.stdout.close()
        except Exception:
            pass
        sys.stdout = so


def _short(x, n=1500):
    s = canon(x)
    return x if len(s) <= n else s[:n] + "..."


def load_known(pid):
    p = os.path.join(HOME, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid and k.get("status") == "known"]


def require(cond, clause, **detail):
    if not cond:
        raise Violation(clause, **detail)
