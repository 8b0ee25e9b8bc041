#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy of /repo and keep the confirmed ones in seeded/.

usage: mkseed.py SPEC.py [id ...]   (SPEC defines SEEDS: id, prop, needs, breaks, edits [(file, old, new)], demo (Rust main), deps)"""
import sys, os, json, subprocess, shutil, importlib.util, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/seedrepo"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO = '''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
EOF
export CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=stable
cargo build --offline -q --manifest-path "$t/Cargo.toml" || exit 3
timeout 60 "$t/target/debug/demo"
'''
CORE = 'yam-core = { path = "$repo/yam-core" }'
def sh(cmd, cwd=S, **k): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def script(name):
    t = open("/opt/vp/" + name).read().replace("/repo", S); p = "/tmp/seed-" + name; open(p, "w").write(t); return p
def prepare():
    if not os.path.isdir(S): subprocess.check_call(["cp", "-a", "/repo", S])
    sh("git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD && git checkout -q -- . && git clean -qfd")
def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    prepare(); b, t = script("build.sh"), script("test.sh")
    for s in m.SEEDS:
        if only and s["id"] not in only: continue
        sh("git checkout -q -- .")
        d = tempfile.mkdtemp()
        try:
            open(d + "/demo.sh", "w").write(DEMO % s.get("deps", CORE)); open(d + "/main.rs", "w").write(s["demo"])
            r = sh("bash %s/demo.sh" % d)
            if r.returncode: print(s["id"], "REJECT demo fails on the clean tree:", r.stdout[-600:]); continue
            for f, old, new in s["edits"]:
                x = open(os.path.join(S, f)).read()
                if x.count(old) != 1: print(s["id"], "REJECT edit matches %d times in %s" % (x.count(old), f)); break
                open(os.path.join(S, f), "w").write(x.replace(old, new))
            else:
                patch = sh("git diff").stdout
                r = sh("bash %s" % b)
                if r.returncode: print(s["id"], "REJECT build:", r.stdout[-800:]); continue
                sh("bash %s /tmp/seed-out.json" % t)
                o = json.load(open("/tmp/seed-out.json")); bad = [x for x in BASE if x not in o["passed"]]
                if bad: print(s["id"], "REJECT tests fail:", len(bad), bad[:4]); continue
                r = sh("bash %s/demo.sh" % d)
                if not r.returncode: print(s["id"], "REJECT demo passes with the patch"); continue
                out = os.path.join(V, "seeded", s["id"])
                shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
                open(out + "/patch.diff", "w").write(patch)
                shutil.copy(d + "/demo.sh", out); shutil.copy(d + "/main.rs", out); os.chmod(out + "/demo.sh", 0o755)
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
                print(s["id"], "KEPT (%s) demo rc=%d: %s" % (s["prop"], r.returncode, r.stdout.strip()[-160:].replace("\n", " | ")))
        finally:
            shutil.rmtree(d); sh("git checkout -q -- .")
main()
