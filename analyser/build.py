"""Extract facts from /repo's current working tree with the MIR fact extractor."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAMGEOM_REPO", "/repo")
CONFIGS = {
    "full": ["--features", "serde-serialize"],
    "std": [],
    "alloc": ["--no-default-features", "--features", "alloc"],
    "none": ["--no-default-features"],
}


class BuildError(Exception):
    pass


def cache_dir():
    d = os.environ.get("CAMGEOM_CACHE") or os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=d)
        t.close()
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "camgeom-verif-cache")
        os.makedirs(d, exist_ok=True)
        return d


def run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise BuildError("nightly rustc not available: " + out)
    return out.strip()


def base_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTDOCFLAGS"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


class lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    """build (if needed) the fact extractor; returns the binary"""
    tgt = os.path.join(cache_dir(), "driver")
    with lock(os.path.join(cache_dir(), "driver.lock")):
        env = base_env()
        env["CARGO_TARGET_DIR"] = tgt
        rc, out = run(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(VERIF, "driver", "Cargo.toml")], env, os.path.join(VERIF, "driver"))
        if rc:
            raise BuildError("fact extractor does not build:\n" + out[-3000:])
    b = os.path.join(tgt, "debug", "mirfacts")
    if not os.path.exists(b):
        raise BuildError("fact extractor missing after build")
    return b


def facts(config="full", repo=None):
    """path of freshly extracted facts of the library under a feature configuration"""
    repo = repo or REPO
    b = driver()
    tgt = os.path.join(cache_dir(), "target")
    out = os.path.join(cache_dir(), "facts-%s-%d.json" % (config, os.getpid()))
    with lock(os.path.join(cache_dir(), "facts.lock")):
        for p in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "cam-geom-*")) + glob.glob(os.path.join(tgt, "debug", "build", "cam-geom*")):
            shutil.rmtree(p, ignore_errors=True)
        env = base_env()
        env.update(RUSTFLAGS="-Zalways-encode-mir", MIRFACTS_CRATE="cam_geom", MIRFACTS_OUT=out, RUSTC_WORKSPACE_WRAPPER=b, CARGO_TARGET_DIR=tgt,
                   LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"))
        if os.path.exists(out):
            os.unlink(out)
        # functions with a model here; other library code comes with its body
        import models
        mf = os.path.join(cache_dir(), "models.txt")
        with open(mf, "w") as f:
            f.write("\n".join(sorted("%s %s" % k for k in models.T)))
        env["MIRFACTS_MODELS"] = mf
        # (cargo +nightly in the crate's directory, as its own build does)
        rc, log = run(["cargo", "+nightly", "check", "--lib", "--offline"] + CONFIGS[config], env, repo)
        if rc or not os.path.exists(out):
            raise BuildError("fact extraction failed (%s):\n%s" % (config, "\n".join(l for l in log.splitlines() if not l.startswith("{"))[-3000:]))
    return out


ARTS = {}


def artifacts(config="full", repo=None):
    """crate name -> metadata file of the crate and its dependencies, as the default toolchain builds them from the current source"""
    if config in ARTS:
        return ARTS[config]
    repo = repo or REPO
    tgt = os.path.join(cache_dir(), "client-target")
    with lock(os.path.join(cache_dir(), "client.lock")):
        for p in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "cam-geom-*")) + glob.glob(os.path.join(tgt, "debug", "build", "cam-geom*")):
            shutil.rmtree(p, ignore_errors=True)
        env = base_env()
        env["CARGO_TARGET_DIR"] = tgt
        rc, log = run(["cargo", "check", "--lib", "--offline", "--message-format", "json-render-diagnostics"] + CONFIGS[config], env, repo)
        if rc:
            raise BuildError("library does not build (%s):\n%s" % (config, "\n".join(l for l in log.splitlines() if not l.startswith("{"))[-3000:]))
        arts = {}
        for l in log.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("reason") == "compiler-artifact":
                    for fn in d["filenames"]:
                        if fn.endswith(".rmeta"):
                            arts[d["target"]["name"].replace("-", "_")] = fn
        keep = tempfile.mkdtemp(prefix="camgeom-rmeta-")     # another run may rebuild the crate's own file
        c = os.path.join(keep, os.path.basename(arts["cam_geom"]))
        shutil.copy(arts["cam_geom"], c)
        arts["cam_geom"] = c
        ARTS[config] = arts
    return ARTS[config]
