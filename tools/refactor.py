#!/usr/bin/env python3
"""refactor.py SPEC.py... -- behaviour-preserving edits must leave every check quiet.
A spec holds several edits: REFACTORS = {name: [(file, old, new), ...]}. Each is applied alone to a scratch copy, built, tested (stable tests),
and all checks are run on it. Prints alarms and undetermined obligations. An edit whose name starts with property ids (P04-x, P04P18-x) is a bug in the other direction:
only those checks are run on it, and they should alarm."""
import concurrent.futures, json, os, re, runpy, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("REF_SCRATCH", "/tmp/ref-scratch")
PROPS = os.environ.get("REF_CHECKS", "").split(",") if os.environ.get("REF_CHECKS") else ["P%02d" % i for i in range(1, 30)]


def sh(cmd, cwd=None, env=None, t=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def main():
    if not os.path.exists(S):
        sh("cp -a /repo %s" % S)
    stable = json.load(open("/opt/vp/BASELINE.json"))
    only = os.environ.get("REF_ONLY", "").split(",") if os.environ.get("REF_ONLY") else None
    env = dict(os.environ, CAMGEOM_REPO=S, CAMGEOM_CACHE=S + "-cache", CAMGEOM_EVIDENCE=S + "-evidence", CARGO_TARGET_DIR=S + "-target")
    for spec in sys.argv[1:]:
        for name, edits in runpy.run_path(spec)["REFACTORS"].items():
            if only and name not in only:
                continue
            sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=S)
            why = None
            for f, a, b in edits:
                p = os.path.join(S, f)
                t = open(p).read()
                if t.count(a) != 1:
                    why = "%s: %d matches of %r" % (f, t.count(a), a[:80])
                    break
                open(p, "w").write(t.replace(a, b))
            if not why and not os.environ.get("REF_NOTEST"):
                rc, out = sh("cargo test --offline --features serde-serialize 2>&1", cwd=S, env=env)
                if rc:
                    why = "build or tests fail: " + " | ".join(l for l in out.splitlines() if l.startswith("error") or "FAILED" in l or " --> src" in l)[:400]
            if why:
                print("== %s: NOT USABLE: %s" % (name, why), flush=True)
                continue
            sh("mkdir -p %s/verif-refs" % "/tmp")
            rc, d = sh("git diff", cwd=S)
            open("/tmp/verif-refs/%s.diff" % name, "w").write(d)
            t0 = time.time()
            fx = []
            for cfg in ("full", "none"):
                rc, out = sh("""python3 -c "
import sys; sys.path.insert(0,'%s/analyser')
import build,shutil
p=build.facts('%s'); shutil.move(p,'%s')" """ % (V, cfg, S + "-facts" + ("" if cfg == "full" else "_none") + ".json"), env={k: v for k, v in env.items() if k != "CARGO_TARGET_DIR"})
                if rc:
                    fx.append(out[-800:])
            if fx:
                print("== %s: FACTS: %s" % (name, fx), flush=True)
                continue
            e2 = {k: v for k, v in env.items() if k != "CARGO_TARGET_DIR"}
            e2["CAMGEOM_FACTS"] = S + "-facts.json"
            sh("python3 %s/analyser/run.py P22" % V, env=e2)

            def one(p):
                t = time.time()
                rc, out = sh("timeout 900 python3 %s/analyser/run.py %s" % (V, p), env=e2)
                return p, rc, out, time.time() - t
            with concurrent.futures.ThreadPoolExecutor(6) as ex:
                own = re.findall(r"P\d\d", name.split("-")[0]) if re.match(r"P\d\d", name) else None
                res = list(ex.map(one, own or PROPS))
            bad = [(p, rc, out) for p, rc, out, t in res if rc]
            und = [(p, re.search(r"(\d+) undetermined", out), out) for p, rc, out, t in res]
            u = sum(int(m.group(1)) for p, m, o in und if m)
            slow = max(res, key=lambda r: r[3])
            print("== %s: %s, %d undetermined, %.0f s, slowest %s %.0f s" % (name, "quiet" if not bad else "ALARM " + ",".join(p for p, _, _ in bad), u, time.time() - t0, slow[0], slow[3]), flush=True)
            for p, rc, out in bad:
                print("\n".join("   %s: %s" % (p, l.strip()[:400]) for l in out.splitlines() if "violated" in l)[:900] or out[-600:], flush=True)
            for p, m, out in und:
                if m and int(m.group(1)):
                    ls = [l.strip()[:330] for l in out.splitlines() if "UNDETERMINED" in l]
                    print("   %s %s undetermined: %s" % (p, m.group(1), ls[0] if ls else ""), flush=True)


main()
