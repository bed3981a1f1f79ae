"""Write /verif/seeded/<id>/ from a definition: edits (file, old, new) against /repo HEAD plus a demo program."""
import json, os, subprocess, sys, tempfile, shutil, textwrap
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the planted change; run with cwd = repository
HERE=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
export PYTHONPATH="$PWD" PYTHONPYCACHEPREFIX="$S/pyc" NUMBA_CACHE_DIR="$S/numba" XDG_CONFIG_HOME="$S/cfg" XDG_CACHE_HOME="$S/cache"
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore PYTHONHASHSEED=0 JAX_PLATFORMS=cpu
mkdir -p "$S/numba" "$S/cfg" "$S/cache"
cd "$S"
timeout 280 /opt/venv/bin/python "$HERE/demo.py"
'''


def bug(id, prop, needs, breaks, edits, demo):
    d = os.path.join(H, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkbug")
    try:
        subprocess.check_call("git -C %s archive HEAD lenstronomy | tar x -C %s && cd %s && git init -q && git add -A && "
                              "git -c user.email=a -c user.name=a commit -qm x" % (os.environ.get("VERIF_REPO", "/repo"), t, t), shell=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
        assert diff
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(textwrap.dedent(demo).lstrip())
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", id)
