#!/usr/bin/env python3
"""mutate.py OUT SHARD/N [FILTER] -- systematic small edits of the library's non-test code; each must make some check report a violation, or be
looked at by hand (it may change nothing). Prints one line per mutant: killed by which check, or SURVIVED, or undetermined only."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["extrinsics", "intrinsics_perspective", "intrinsics_orthographic", "camera", "ray_bundle_types", "ray_intersection", "linearize", "lib", "intrinsic_test_utils"]
ORDER = {"extrinsics": "P05 P06 P07 P08 P09", "intrinsics_perspective": "P01 P02 P15 P17 P09", "intrinsics_orthographic": "P03 P02 P17 P09", "camera": "P12 P13 P14 P01 P04",
         "ray_bundle_types": "P08 P04 P05 P09 P10", "ray_intersection": "P11 P12 P18 P10", "linearize": "P16 P09", "lib": "P20 P09 P08 P17", "intrinsic_test_utils": "P25"}
ALL = ["P%02d" % i for i in range(1, 30)]
RULES = [
    (r"\(i, ([012])\)", lambda m: ["(i, %d)" % ((int(m[1]) + 1) % 3)]),
    (r"\(([012]), ?([0123])\)", lambda m: ["(%d, %s)" % ((int(m[1]) + 1) % 3, m[2]), "(%s, %d)" % (m[1], (int(m[2]) + 1) % 3)]),
    (r"\[([012])\](?!\[)", lambda m: ["[%d]" % ((int(m[1]) + 1) % 3)]),
    (r"\[([012])\]\[0\]", lambda m: ["[%d][0]" % ((int(m[1]) + 1) % 3)]),
    (r" \+ ", lambda m: [" - "]), (r" - ", lambda m: [" + "]), (r" \* ", lambda m: [" / "]), (r" / ", lambda m: [" * "]),
    (r"(?<![\w)])-(?=[\w(])", lambda m: [""]),
    (r" < ", lambda m: [" <= ", " > "]), (r" > ", lambda m: [" >= ", " < "]), (r" == ", lambda m: [" != "]), (r" != ", lambda m: [" == "]),
    (r"\bif (?!let)", lambda m: ["if !(true) && ", "if true || "]),
    (r"\b0\.0\b", lambda m: ["1.0", "1e-3"]), (r"(?<!-)\b1\.0\b", lambda m: ["2.0", "-1.0"]), (r"-1\.0", lambda m: ["1.0"]), (r"1(?:\.0)?e-7", lambda m: ["1e-2", "1e-12"]), (r", 100\)", lambda m: [", 1)"]),
    (r"R::zero\(\)", lambda m: ["R::one()"]), (r"(?<!-)R::one\(\)", lambda m: ["R::zero()", "-R::one()"]), (r"-R::one\(\)", lambda m: ["R::one()"]),
    (r"0\.\.3\b", lambda m: ["0..2", "1..3"]), (r"\bfor i in 0\.\.(.*) \{", lambda m: ["for i in 1..%s {" % m[1], "for i in 0..%s - 1 {" % m[1]]),
    (r"\.transpose\(\)", lambda m: [""]), (r"\.inverse\(\)", lambda m: [""]), (r"transform_vector", lambda m: ["inverse_transform_vector"]), (r"transform_point", lambda m: ["inverse_transform_point"]),
    (r"\.powi\(2\)", lambda m: [".powi(3)", ".powi(1)"]), (r"\.powi\(-2\)", lambda m: [".powi(-1)"]), (r"\.sqrt\(\)", lambda m: [""]),
    (r"cache\.pose\b", lambda m: ["cache.pose_inv"]), (r"cache\.pose_inv\b", lambda m: ["cache.pose"]), (r"cache\.q\b", lambda m: ["cache.q_inv"]),
    (r"\.fx\b", lambda m: [".fy"]), (r"\.fy\b", lambda m: [".fx"]), (r"\.cx\b", lambda m: [".cy"]), (r"\.cy\b", lambda m: [".cx"]), (r"\.skew\b", lambda m: [".cx"]), (r"\.sx\b", lambda m: [".sy"]), (r"\.sy\b", lambda m: [".sx"]),
    (r"remove_column\((\d)\)", lambda m: ["remove_column(%d)" % ((int(m[1]) + 1) % 4)]),
    (r"\bcolumn\((\d)\)", lambda m: ["column(%d)" % ((int(m[1]) + 1) % 3)]),
    (r"\bn([xyz])\.iter", lambda m: ["n%s.iter" % {"x": "y", "y": "z", "z": "x"}[m[1]]]), (r"\bp([xyz])\n?\.iter", lambda m: ["p%s.iter" % {"x": "y", "y": "z", "z": "x"}[m[1]]]),
    (r"\b(xx|yy|zz)m1\.iter\(\)", lambda m: ["%sm1.iter()" % {"xx": "yy", "yy": "zz", "zz": "xx"}[m[1]]]), (r"\b(xy|xz|yz)\.iter\(\)", lambda m: ["%s.iter()" % {"xy": "xz", "xz": "yz", "yz": "xy"}[m[1]]]),
    (r"S([XYZ])([XYZ]),", lambda m: ["S%s," % {"XX": "YY", "YY": "ZZ", "ZZ": "XX", "XY": "XZ", "XZ": "YZ", "YZ": "XY"}.get(m[1] + m[2], "XX")]),
    (r"look_at_lh", lambda m: ["look_at_rh"]), (r"f64::consts::PI", lambda m: ["f64::consts::TAU", "f64::consts::FRAC_PI_2"]),
    (r'_field\("(\w+)"\)', lambda m: ['_field("x%s")' % m[1]]), (r'\.field\("(\w+)", &self', lambda m: ['.field("x%s", &self' % m[1]]),
    (r"relative_ne", lambda m: ["relative_eq", "abs_diff_ne", "ulps_ne"]), (r"Error::(InvalidInput|SvdFailed|MinimumTwoRaysNeeded)", lambda m: ["Error::" + {"InvalidInput": "SvdFailed", "SvdFailed": "InvalidInput", "MinimumTwoRaysNeeded": "InvalidInput"}[m[1]]]),
    (r"step, ?border|border, ?step", lambda m: [m[0].replace("step", "1")]), (r"height - border|width - border", lambda m: [m[0].split(" ")[0], m[0].replace("-", "+")]), (r"range_step\(border", lambda m: ["range_step(0"]),
    (r"row as f64", lambda m: ["col as f64"]), (r"col as f64", lambda m: ["row as f64"]), (r"rays\.len\(\) < 2", lambda m: ["rays.len() < 1", "rays.len() < 3"]),
    (r"true, true", lambda m: ["false, true"]), (r"assert_abs_diff_eq", lambda m: ["assert_relative_eq", "assert_abs_diff_ne"]),
    (r"derive\(([\w, ]*)PartialEq", lambda m: ["derive(%sPartialEq, PartialOrd" % m[1]]),
    (r"rename_all = \"lowercase\"", lambda m: ["rename_all = \"UPPERCASE\""]), (r"serde\(skip\)", lambda m: ["serde(rename = \"c\")"]),
]


def mutants():
    for f in FILES:
        p = "src/%s.rs" % f
        t = open("/repo/" + p).read()
        end = t.find("#[cfg(test)]\nmod tests")
        if f == "linearize":
            end = t.find("#[test]")
        end = len(t) if end < 0 else end
        skip = [m.span() for m in re.finditer(r"#\[cfg\(test\)\]\npub fn .*?\n}\n", t, re.S)]
        seen = set()
        for rx, fn in RULES:
            for m in re.finditer(rx, t[:end]):
                ls = t.rfind("\n", 0, m.start()) + 1
                line = t[ls:t.find("\n", m.start())]
                if line.strip().startswith(("//", "#!", "use ", "#[doc")) or any(a <= m.start() < b for a, b in skip):
                    continue
                cpos = line.find("//")
                if 0 <= cpos < m.start() - ls:
                    continue
                for r in fn(m):
                    k = (m.start(), m.end(), r)
                    if r != m[0] and k not in seen:
                        seen.add(k)
                        yield f, p, m.start(), m.end(), r, t.count("\n", 0, m.start()) + 1, line.strip()


def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def main():
    out, sh_ = sys.argv[1:3]
    k, n = map(int, sh_.split("/"))
    flt = sys.argv[3] if len(sys.argv) > 3 else None
    S = "/tmp/mut-scratch%d" % k
    if not os.path.exists(S):
        sh("cp -a /repo %s" % S)
    env = {a: b for a, b in os.environ.items() if a not in ("CARGO_TARGET_DIR",)}
    env.update(CAMGEOM_REPO=S, CAMGEOM_CACHE=S + "-cache", CAMGEOM_EVIDENCE=S + "-evidence", CAMGEOM_FACTS=S + "-facts.json")
    todo = [m for i, m in enumerate(x for x in mutants() if not flt or x[0] in flt.split(",")) if i % n == k]
    done = set()
    if os.path.exists(out):
        done = {l.split("|")[0].strip() for l in open(out)}
    print(len(todo), flush=True)
    for f, p, a, b, r, ln, line in todo:
        key = "%s:%d %d %r -> %r" % (f, ln, a, "", r)
        if key in done:
            continue
        sh("git checkout -q -- .", cwd=S)
        t = open("/repo/" + p).read()
        open(os.path.join(S, p), "w").write(t[:a] + r + t[b:])
        t0 = time.time()
        res = None
        for cfg in ("full", "none"):
            rc, o = sh("""python3 -c "
import sys; sys.path.insert(0,'%s/analyser')
import build,shutil
p=build.facts('%s'); shutil.move(p,'%s')" """ % (V, cfg, S + "-facts" + ("" if cfg == "full" else "_none") + ".json"), env={x: y for x, y in env.items() if x != "CAMGEOM_FACTS"})
            if rc:
                res = "nobuild"
                break
        if not res:
            order = ORDER[f].split() + [x for x in ALL if x not in ORDER[f].split() and x != "P24"] + ["P24"]
            kill, und = [], 0
            procs = {}

            def one(q):
                if kill:
                    return q, 0, ""
                if kill:
                    return q, 0, ""
                rc, o = sh("timeout 900 python3 %s/analyser/run.py %s" % (V, q), env=env)
                if rc:
                    kill.append((q, rc))
                return q, rc, o
            with cf.ThreadPoolExecutor(int(os.environ.get("MUT_J", "4"))) as ex:
                for q, rc, o in ex.map(one, order):
                    m = re.search(r"(\d+) undetermined", o)
                    und += int(m.group(1)) if m else 0
            res = "killed " + ",".join("%s%s" % (q, "" if rc == 1 else "(%d)" % rc) for q, rc in kill) if kill else "SURVIVED und=%d" % und
        with open(out, "a") as fo:
            fo.write("%s | %s | %.0fs | %s  =>  %s\n" % (key, res, time.time() - t0, line, (t[:a] + r + t[b:])[t.rfind("\n", 0, a) + 1:].split("\n")[0].strip()))


main()
