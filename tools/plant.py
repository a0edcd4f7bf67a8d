#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from tools/bugs.py: plant.py [id ...]

Each bug is applied to a scratch copy of /repo, must pass the tests there, and its demo must pass
without it and fail with it. Nothing is kept of a bug for which that is not so."""
import importlib.util, json, os, shutil, subprocess, sys, concurrent.futures as cf, re, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
spec = importlib.util.spec_from_file_location("bugs", os.path.join(HERE, "bugs.py"))
bugs = importlib.util.module_from_spec(spec); spec.loader.exec_module(bugs)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

SH = r'''#!/bin/bash
# usage: cd <repo> && demo.sh    exit 0: the property holds for the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable PATH=/root/.cargo/bin:$PATH
rustc --edition 2018 --cap-lints allow @OPT@ --crate-type rlib --crate-name micromath --cfg 'feature="vector"' --cfg 'feature="quaternion"' --cfg 'feature="statistics"' src/lib.rs -o "$d/libmicromath.rlib" || exit 3
rustc --edition 2021 --cap-lints allow @OPT@ "$here/demo.rs" --extern micromath="$d/libmicromath.rlib" -o "$d/demo" || exit 3
"$d/demo"
'''
CARGO = r'''#!/bin/bash
# usage: cd <repo> && demo.sh    exit 0: the property holds for the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable PATH=/root/.cargo/bin:$PATH CARGO_TARGET_DIR=$d/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
micromath = { path = "$repo", features = [@FEATURES@] }
@DEPS@
EOF
cp "$repo/Cargo.lock" "$d/" 2>/dev/null
(cd "$d" && cargo build --offline --quiet) || exit 3
"$d/target/debug/demo"
'''
PRE = '''#![allow(unused_imports)]
use micromath::statistics::{trim::Trim, *};
use micromath::vector::*;
use micromath::{F32Ext as Ext, Quaternion, F32};

fn main() {
'''

def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)

def demo_files(b, d):
    os.makedirs(d, exist_ok=True)
    if "sh" in b:
        open(d + "/demo.sh", "w").write(b["sh"])
        if "demo" in b: open(d + "/demo.rs", "w").write(b["demo"])
    elif "features" in b:
        sh = CARGO.replace("@FEATURES@", ", ".join('"%s"' % f for f in b["features"])).replace("@DEPS@", b.get("deps", ""))
        open(d + "/demo.sh", "w").write(sh); open(d + "/demo.rs", "w").write(b["demo"])
    else:
        open(d + "/demo.sh", "w").write(SH.replace("@OPT@", b.get("opt", "-O")))
        body = "".join("    " + l + "\n" if l.strip() else "\n" for l in b["demo"].strip("\n").split("\n"))
        open(d + "/demo.rs", "w").write(PRE + body + "}\n")
    os.chmod(d + "/demo.sh", 0o755)

def one(b):
    w = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = w + "/repo"
        # the committed tree, whatever a check may be doing in the working tree
        r = run(f"git clone -q /repo {repo}; cp /repo/Cargo.lock {repo}/ 2>/dev/null; cp -a /repo/target {repo}/target", "/")
        d = w + "/elsewhere"; demo_files(b, d)
        r = run(d + "/demo.sh", repo, timeout=300)
        if r.returncode != 0: return b, "demo fails unpatched: %s %s" % (r.stdout[-1500:], r.stderr[-1500:])
        for f, old, new in b["edits"]:
            p = repo + "/" + f; s = open(p).read()
            if s.count(old) != 1: return b, "%s: old text found %d times" % (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = run("git diff", repo).stdout
        r = run(d + "/demo.sh", repo, timeout=300)
        if r.returncode == 0: return b, "demo passes with the patch"
        msg = (r.stdout + r.stderr).strip()
        env = {"CARGO_TARGET_DIR": repo + "/target", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTUP_TOOLCHAIN": "stable"}
        r = run("cargo test --workspace --all-features --offline 2>&1; cargo check --no-default-features --offline && cargo check --no-default-features --features num-traits --offline", repo, env)
        passed = set(re.findall(r"^test (\S+) \.\.\. ok", r.stdout, re.M)); failed = re.findall(r"^test (.+) \.\.\. FAILED", r.stdout, re.M)
        if failed or r.returncode != 0 or "test result: ok" not in r.stdout:
            return b, "tests: %s\n%s" % (failed, "" if failed else r.stdout[-1500:] + r.stderr[-1500:])
        o = f"{SEEDED}/{b['id']}"
        if os.path.isdir(o): shutil.rmtree(o)
        demo_files(b, o)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        return b, None, msg.split("\n")[0][:150] if "panicked" not in msg else next((l for l in msg.split("\n") if l and "panicked" not in l), "")[:150]
    except Exception as e:
        return b, repr(e)
    finally:
        shutil.rmtree(w)

sel = [b for b in bugs.BUGS if not sys.argv[1:] or b["id"] in sys.argv[1:]]
assert len({b["id"] for b in bugs.BUGS}) == len(bugs.BUGS)
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, sel):
        if r[1]: print("FAIL", r[0]["id"], r[1])
        else: print("ok  ", r[0]["id"], r[2])
