"""Extraction of MIR facts from /repo's current working tree.

Runs `cargo +nightly check` with the mirfacts driver as RUSTC_WORKSPACE_WRAPPER, once per build
configuration, always re-running the driver on the chiwawa crates (their fingerprints are removed
first), and loads the JSON the driver wrote.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CHIWAWA_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

THREADS_ARGS = ('-A explicit_builtin_cfgs_in_flags --cfg target_arch="wasm32" --cfg target_os="wasi" '
                '--cfg target_env="p1" --cfg target_feature="atomics"')
WASM_ARGS = '-A explicit_builtin_cfgs_in_flags --cfg target_arch="wasm32" --cfg target_os="wasi" --cfg target_env="p1"'
CONFIGS = {
    # name: (features, extra rustc args)
    "legacy": ([], ""),
    "tco": (["tco"], ""),
    "instr": (["stats", "trace"], ""),
    "threads": ([], THREADS_ARGS),
}


class ExtractError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def driver():
    """Build (if needed) and return the driver's path."""
    out = os.path.join(BUILD, "driver", "debug", "mirfacts")
    rc, txt = sh(["cargo", "+nightly", "build", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
                 env=base_env(), cwd=os.path.join(VERIF, "driver"))
    if rc != 0 or not os.path.exists(out):
        raise ExtractError("driver build failed:\n" + txt[-3000:])
    return out


def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"),
             os.path.join(VERIF, "driver/src/main.rs"), os.path.abspath(__file__)]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            files.append(os.path.join(d, f))
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def run(configs):
    """Extract facts for the given configurations; returns {config: {crate-kind: json-dict}}."""
    os.makedirs(BUILD, exist_ok=True)
    cache = None
    if os.environ.get("MIRFACTS_DEV_CACHE"):   # developer convenience only; never set by MANIFEST commands
        cache = os.path.join(BUILD, "devcache", source_hash())
    res = {}
    todo = []
    for c in configs:
        if cache and os.path.exists(os.path.join(cache, c, "ok")):
            res[c] = load_dir(os.path.join(cache, c))
        else:
            todo.append(c)
    if not todo:
        return res
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    drv = driver()
    rc, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], env=base_env())
    sysroot = sysroot.strip().splitlines()[-1]
    outroot = tempfile.mkdtemp(prefix="facts-", dir=BUILD)
    try:
        td = os.path.join(BUILD, "target")
        for c in todo:
            feats, args = CONFIGS[c]
            od = os.path.join(outroot, c)
            os.makedirs(od)
            for root, ds, fs in os.walk(td):        # drop every build product of the crate itself
                for x in list(ds):
                    if x == "chiwawa" or x.startswith(("chiwawa-", "libchiwawa")):
                        shutil.rmtree(os.path.join(root, x), ignore_errors=True)
                        ds.remove(x)
                for x in fs:
                    if x.startswith(("chiwawa-", "libchiwawa")):
                        os.unlink(os.path.join(root, x))
            env = base_env()
            env["RUSTC_WORKSPACE_WRAPPER"] = drv
            env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
            env["MIRFACTS_CRATES"] = "chiwawa"
            env["MIRFACTS_OUT"] = od
            env["MIRFACTS_ARGS"] = "-Zmir-opt-level=0 -Cdebuginfo=0 -Awarnings " + args
            cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "--release", "--lib", "--bins",
                   "--target-dir", td]
            if feats:
                cmd += ["--features", ",".join(feats)]
            rc, txt = sh(cmd, env=env, cwd=REPO)
            if rc != 0:
                raise ExtractError("cargo check failed for configuration %s:\n%s" % (c, txt[-3000:]))
            res[c] = load_dir(od)
            for want in ("lib", "bin"):
                if want not in res[c]:
                    raise ExtractError("no facts for %s crate in configuration %s" % (want, c))
            if cache:
                dst = os.path.join(cache, c)
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(od, dst)
                open(os.path.join(dst, "ok"), "w").close()
    finally:
        shutil.rmtree(outroot, ignore_errors=True)
        lock.close()
    return res


def load_dir(d):
    r = {}
    for f in glob.glob(os.path.join(d, "*.json")):
        kind = os.path.basename(f).split(".")[1]
        with open(f) as fh:
            r[kind] = json.load(fh)
    return r


if __name__ == "__main__":
    t = time.time()
    cfgs = sys.argv[1:] or list(CONFIGS)
    r = run(cfgs)
    for c in r:
        for k in r[c]:
            print(c, k, len(r[c][k]["fns"]), "bodies")
    print("%.1fs" % (time.time() - t))
