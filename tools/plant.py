#!/usr/bin/env python3
"""plant.py SPEC.py... -- create and validate planted bugs in a scratch copy of /repo.
A spec defines ID, PROPERTY, EDITS=[(file, old, new)], MAIN (rust main of the demonstration), NEEDS, BREAKS and optionally FEATURES.
A bug is kept in /verif/seeded/<ID> only if it builds, passes the stable tests, and its demo tells it apart."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant-scratch"
DEMO = '''#!/bin/bash
# builds main.rs beside this file against the cam-geom in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cam-geom = { path = "$R", %s }
nalgebra = { version = "0.33", default-features = false }
%s[workspace]
EOF
cd "$T" && CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}" cargo run --offline -q
'''


def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def main():
    if not os.path.exists(S):
        sh("cp -a /repo %s" % S)
    stable = json.load(open("/opt/vp/BASELINE.json"))
    bad = 0
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec)
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=S)
        d = os.path.join(V, "seeded", s["ID"])
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(s["MAIN"])
        feats = s.get("FEATURES", "features = []")
        open(d + "/demo.sh", "w").write(DEMO.replace("cargo run --offline -q\n", s.get("RUN", "cargo run --offline -q") + "\n") % (feats, s.get("DEPS", "")))
        for k, v in s.get("FILES", {}).items():
            open(d + "/" + k, "w").write(v)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        env = dict(os.environ, DEMO_TARGET="/tmp/plant-target")
        why = None
        rc, out = sh("bash %s/demo.sh" % d, cwd=S, env=env)
        if rc:
            why = "demo fails on the unchanged tree:\n" + out[-1500:]
        else:
            for f, a, b in s["EDITS"]:
                p = os.path.join(S, f)
                t = open(p).read()
                if t.count(a) != 1:
                    why = "%s: %d matches of %r" % (f, t.count(a), a)
                    break
                open(p, "w").write(t.replace(a, b))
        if not why:
            rc, out = sh("git diff", cwd=S)
            open(d + "/patch.diff", "w").write(out)
            rc, out = sh("cargo test --offline --all-features 2>&1 | tail -40", cwd=S, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/plant-test-target"))
            if "test result: ok" not in out or "FAILED" in out or "error" in out:
                why = "tests: " + out[-1500:]
        if not why:
            rc, out = sh("bash %s/demo.sh" % d, cwd=S, env=env)
            if rc == 0:
                why = "demo passes with the change"
            elif "error: could not compile" in out and not s.get("COMPILE_FAIL_OK"):
                why = "demo does not compile with the change: " + out[-800:]
        if why:
            bad += 1
            shutil.rmtree(d)
            print("REJECTED %s: %s" % (s["ID"], why))
            continue
        caught = []
        for pid in (os.environ.get("PLANT_CHECKS") or s["PROPERTY"]).split(","):
            rc, out = sh("python3 %s/analyser/run.py %s quick" % (V, pid), cwd=V, env=dict(os.environ, CAMGEOM_REPO=S))
            caught.append((pid, rc, out.strip().split("\n")[-1] if rc == 1 else out.strip().replace("\n", " / ")[:500]))
        print("KEPT %s: %s" % (s["ID"], caught))
        sh("git checkout -q -- .", cwd=S)
    return bad


if __name__ == "__main__":
    sys.exit(main())
