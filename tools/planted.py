#!/usr/bin/env python3
"""planted.py [ID...] -- run every check on a scratch copy of /repo with each planted bug; prints the table for DESIGN.md."""
import concurrent.futures as cf, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANTED_SCRATCH", "/tmp/planted-scratch")
PROPS = [c["property"] if "property" in c else c["id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


if not os.path.exists(S):
    sh("cp -a /repo %s" % S)
env = dict(os.environ, CAMGEOM_REPO=S, CAMGEOM_CACHE=S + "-cache", CAMGEOM_EVIDENCE=S + "-evidence")
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
print("| planted bug | breaks | caught by | what it does |\n|---|---|---|---|")
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=S)
    rc, out = sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=S)
    assert rc == 0, out
    own = m["property"]
    first = sh("timeout 880 python3 %s/analyser/run.py %s" % (V, own), env=env)
    with cf.ThreadPoolExecutor(6) as ex:
        res = dict(zip(PROPS, ex.map(lambda p: first if p == own else sh("timeout 880 python3 %s/analyser/run.py %s" % (V, p), env=env), PROPS)))
    hit = [p for p in PROPS if res[p][0] == 1 and "VIOLATION property=" + p in res[p][1]]
    odd = [p for p in PROPS if res[p][0] not in (0, 1)]
    print("| %s | %s | %s%s | %s |" % (i, own, ", ".join("**%s**" % p if p == own else p for p in hit) or "none", (" (no answer: %s)" % ", ".join(odd)) if odd else "", m["what_it_breaks"].replace("|", "/")), flush=True)
sh("git checkout -q -- .", cwd=S)
