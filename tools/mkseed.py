"""Plants a bug in a scratch copy of /repo, confirms it, and files it.
usage: mkseed.py SPEC.py [--keep]
SPEC.py defines: id, property, needs, breaks, edits=[(file, old, new[, nth])], demo (Rust main.rs),
optional features (list), optional demo_sh (text)."""
import json, os, shutil, subprocess, sys, runpy

S = "/tmp/scratch/seed"
V = "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
set -e
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
T="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$T"' EXIT
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
%(env)smkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$D/Cargo.lock.txt" "$T/Cargo.lock"
sed "s#@REPO@#$R#" "$D/Cargo.toml.txt" > "$T/Cargo.toml"
cd "$T"
export CARGO_TARGET_DIR="$T/target"
cargo build --offline -q 2> "$T/log" || { cat "$T/log"; exit 3; }
timeout 120 %(run)s"$T/target/debug/demo"
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
funspace = { path = "@REPO@"%s }
ndarray = { version = "0.17", features = ["rayon"] }
num-complex = "0.4"
num-traits = "0.2"
[workspace]
'''


def sh(c, cwd=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def main():
    m = runpy.run_path(sys.argv[1])
    id = m["id"]
    if not os.path.exists(S):
        os.makedirs("/tmp/scratch", exist_ok=True)
        sh("cp -a /repo %s" % S)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", S)
    for e in m["edits"]:
        p = os.path.join(S, e[0])
        s = open(p).read()
        n = s.count(e[1])
        if len(e) > 3:
            parts = s.split(e[1])
            k = e[3]
            s = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
        else:
            if n != 1:
                print("edit matches", n, "times:", e[1]); return 1
            s = s.replace(e[1], e[2])
        open(p, "w").write(s)
    d = sh("git diff", S).stdout
    # tests of the scratch copy (the scripts name /repo)
    r = sh(". /opt/vp/env.inc.sh; cd %s; export CARGO_TARGET_DIR=%s/target; cargo test --workspace --features mpi --no-fail-fast --locked --offline -- --test-threads 8 2>&1" % (S, S), S)
    log = r.stdout
    failed = [l for l in log.splitlines() if l.endswith("... FAILED") or "error" in l[:10]]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [l for l in failed if not l.startswith("error: ")]
    print("tests failing:", bad[:8])
    passed = sum(1 for l in log.splitlines() if l.endswith("... ok"))
    print("tests passing:", passed)
    out = os.path.join(V, id)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, "patch.diff"), "w").write(d)
    open(os.path.join(out, "main.rs"), "w").write(m["demo"])
    ft = m.get("features")
    open(os.path.join(out, "Cargo.toml.txt"), "w").write(TOML % (', features = %s' % json.dumps(ft) if ft else ""))
    lock = open("/verif/witness/Cargo.lock").read().replace('name = "witness"', 'name = "demo"')
    open(os.path.join(out, "Cargo.lock.txt"), "w").write(lock)
    env = m.get("env", "")
    open(os.path.join(out, "demo.sh"), "w").write(m.get("demo_sh") or DEMO_SH % dict(env=env, run=m.get("run", "")))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=m["property"], needs=m["needs"], what_it_breaks=m["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    a = sh("bash %s/demo.sh" % out, "/repo", 300)
    b = sh("bash %s/demo.sh" % out, S, 300)
    print("demo unchanged:", a.returncode, a.stdout[-300:].strip())
    print("demo patched:", b.returncode, b.stdout[-300:].strip())
    ok = a.returncode == 0 and b.returncode not in (0, 3) and passed >= 36 and not bad
    print(id, "KEPT" if ok else "REJECTED")
    if not ok and "--keep" not in sys.argv:
        shutil.rmtree(out)
    sh("git checkout -q -- .", S)


main()
