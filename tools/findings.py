#!/usr/bin/env python3
"""Writes known-findings.json: findings that are recorded, and the repairs made in /repo (git log)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [dict(id="C01-mgauss", property="C01", status="known", clause="number of sampled parameters", case={"conf": "mgauss", "amp_free": True},
    what="free amplitudes of the lens models MULTI_GAUSSIAN / MULTI_GAUSSIAN_ELLIPSE_KAPPA / MULTI_GAUSSIAN_ELLIPSE_POTENTIAL are sampled as a single scalar "
         "(LensParam compares with profile names that no longer exist); not repaired because test_lens_param.py::test_num_params pins the wrong count")]
DEF = dict(alpha_x='["dx","potential"]', alpha_y='["dy","potential"]', f_xx='["dx","alpha_x"]', f_xy='["dy","alpha_x"]', f_yx='["dx","alpha_y"]', f_yy='["dy","alpha_y"]')
for name, qs, what in [
        ("SHIFT", ["alpha_x", "alpha_y"], "the profile SHIFT deflects but its potential is zero everywhere (the tests pin the zero potential)"),
        ("DIPOLE", list(DEF), "deflection and second derivatives of the (experimental) profile DIPOLE are not the derivatives of its potential (the tests pin the values)"),
        ("SHAPELETS_POLAR", ["alpha_y", "f_xx", "f_xy", "f_yx", "f_yy"], "deflection and second derivatives of the profile SHAPELETS_POLAR are not the derivatives of its potential (the tests pin the values)")]:
    for q in qs:
        FINDINGS.append(dict(id="C07-%s-%s" % (name.lower(), q), property="C07", status="known", clause="%s derives from %s" % (q, DEF[q]),
                             case={"names": [name], "q": q}, what="%s: %s" % (q, what)))
OF = {}
for pid, hs in dict(
        C03="d6ade8b 5e6c69f 8aa8494 d97de41", C06="652493d 78ca8c3 8e94aae 2261cde 8f04cd8 0d9c63a 9ad60e3 3cd2d16 4246273", C07="8fa325a 2660731 160d508",
        C08="fad5bbc 8528152 814af1c 5d93dbb 4d5685c", C11="508085e 3dbc568 4bf3bf8 a449a05 030f8d6 47e65fc 25b6c28 2665a45 0a982f7 c6b7231 61aea52", C09="304b79b", C12="ba9743c b61a514 f8f207c 2eb5573", C13="02b2a62 6cd80a8",
        C05="213a0c7 8543250 7cb973e 8a6ee0f f109ea2 8654db7 b6f7561 8166223 5eaa94c a64eaac 07081e9 5af6ee0", C14="bd1d7bf 723da6d 795e1e7 e6d34e1 50b577c 29344c1 db749c9 6031592 52c0fc8", C10="a8fc3ec 7a5597f d5f3185 ab9365f 9ab32a9",
        C15="4554e94 586f083 7c060cb 1f21800 d18fbb7", C21="cde8615 0d338bf", C22="2ff9816 602bd86 489562b", C23="dfce12a d147694 f1febc5 ebcaef8 e6a08a8 d3c6cc1 a04d2a1 37710e3 97a6f0a", C16="8c2b3d6", C17="84a24d9", C18="e22d812 4c10984", C19="b2856e7 47cbc7b 85bea48 980ff53", C20="a5820c6 b05cc4b", C01="8314942 c52c34f 3180029 2426be8 ed10bbe 9055b7c 5438ba8", C02="18dc20c b25f4af 8f96010", C04="c5d7ad8 b909a25 5f911a1 c86b8d6 098d2e9",
        ).items():
    for h in hs.split():
        OF[h] = pid
log = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s", "96a81ed..HEAD"], capture_output=True, text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        if h not in OF:
            raise SystemExit("no property recorded for %s" % line)
        fixed.append("fixed: property=%s %s %s" % (OF[h], h, s[5:]))
with open(H + "/known-findings.json", "w") as f:
    json.dump(dict(findings=FINDINGS, fixed=fixed), f, indent=1)
    f.write("\n")
