"""Build the rustc driver (if needed) and dump the type-checked MIR of /repo's working tree."""
import hashlib, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSA_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest_file(h, p):
    with open(p, "rb") as f: h.update(f.read())

def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()

def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(); digest_file(h, src)
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "driver-" + h.hexdigest()[:16])
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = sh(["rustc", "+nightly", "-O", "--edition", "2024", src, "-o", tmp])
        if r.returncode: raise RuntimeError("driver build failed:\n" + r.stdout)
        os.rename(tmp, out)
    return out

def tree_hash():
    h = hashlib.sha256()
    fs = []
    for top, ds, names in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ("target", ".git"))
        for n in sorted(names):
            if n.endswith((".rs", ".toml", ".lock")): fs.append(os.path.join(top, n))
    for f in fs:
        h.update(os.path.relpath(f, REPO).encode()); digest_file(h, f)
    digest_file(h, os.path.join(VERIF, "driver", "main.rs"))
    return h.hexdigest()[:24]

def dumps(comment=False):
    import fcntl
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock-" + tree_hash()[:8]), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return dumps_(comment)

def dumps_(comment=False):
    """-> list of (crate, json path) for the current tree; `comment`: yam-core with feature comment."""
    th = tree_hash()
    out = os.path.join(CACHE, "mir-%s%s" % (th, "-comment" if comment else ""))
    crates = ["yam_core"] if comment else ["yam_core", "yam_serde"]
    if not all(os.path.exists(os.path.join(out, c + ".json")) for c in crates):
        drv = driver()
        tmp = out + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        tgt = tempfile.mkdtemp(prefix="vsa-target-")
        env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), VSA_OUT=tmp,
                   RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0")
        # the whole workspace, so that cargo unifies features exactly as the project's own build does
        cmd = ["cargo", "+nightly", "check", "--workspace", "--lib", "--offline"]
        if comment: cmd += ["--features", "comment"]
        # build from a copy of the tracked sources so that /repo is never written to
        src = tempfile.mkdtemp(prefix="vsa-src-")
        try:
            copy = os.path.join(src, "repo")
            shutil.copytree(REPO, copy, symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
            r = sh(cmd, cwd=copy, env=env)
        finally:
            shutil.rmtree(tgt, ignore_errors=True); shutil.rmtree(src, ignore_errors=True)
        if r.returncode: 
            shutil.rmtree(tmp, ignore_errors=True)
            raise RuntimeError("cargo check under the driver failed:\n" + r.stdout)
        for c in crates:
            if not os.path.exists(os.path.join(tmp, c + ".json")): raise RuntimeError("no dump for " + c)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        old = sorted((d for d in os.listdir(CACHE) if d.startswith("mir-") and ".tmp" not in d), key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in old[:-24]: shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    return [(c, os.path.join(out, c + ".json")) for c in crates]
