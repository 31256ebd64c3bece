#!/usr/bin/env python3
"""Planted bugs (development tool; no check uses it).

  plant.py make SPEC.py [id...]   write /verif/seeded/<id>/ from a spec file
  plant.py verify [id...]         confirm in scratch copies: applies, builds, passes the stable tests,
                                  demo fails with the patch and passes without, then run the check

A spec file defines BUGS: a list of dicts with id, property, needs, what,
edits [(file, old, new)...], demo (main.rs), and optionally demo_sh, default_features.
"""
import concurrent.futures as cf
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import time

ROOT = "/verif"
SEEDED = ROOT + "/seeded"
SCRATCH = "/tmp/pl"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")

DEMO_SH = r'''#!/bin/bash
# Builds main.rs against the cmaes crate in the current directory and runs it.
# Exit 0: the library behaves; nonzero: the property is broken.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS
D="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
cp "$HERE/demo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cmaes = { path = "$REPO"@FEATURES@ }
rayon = "1"
[profile.release]
opt-level = 1
debug = false
[workspace]
TOML
cd "$D" || exit 3
cargo build --release --offline > build.log 2>&1 || { tail -30 build.log; exit 3; }
timeout 200 ./target/release/demo
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")


def repo_copy(n):
    d = f"{SCRATCH}/w{n}/repo"
    if not os.path.isdir(d):
        os.makedirs(os.path.dirname(d), exist_ok=True)
        sh(f"cp -a /repo {d}")
    sh("git checkout -q -- . && git clean -qfd src", cwd=d)
    return d


def make(spec, only):
    bugs = runpy.run_path(spec)["BUGS"]
    d = repo_copy("make")
    head = sh("git rev-parse HEAD", cwd="/repo").stdout.strip()
    sh(f"git fetch -q /repo && git reset -q --hard {head}", cwd=d)
    for b in bugs:
        if only and b["id"] not in only:
            continue
        sh("git checkout -q -- .", cwd=d)
        for f, old, new in b["edits"]:
            p = f"{d}/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit(f"{b['id']}: {t.count(old)} matches in {f} for {old!r}")
            open(p, "w").write(t.replace(old, new))
        out = f"{SEEDED}/{b['id']}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(sh("git diff", cwd=d).stdout)
        feat = "" if b.get("default_features", True) else ", default-features = false"
        open(out + "/demo.sh", "w").write(b.get("demo_sh") or DEMO_SH.replace("@FEATURES@", feat))
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/main.rs", "w").write(b["demo"])
        shutil.copy(f"{SCRATCH}/demo.lock", out + "/demo.lock")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(out + "/meta.json", "w"), indent=1)
        sh("git checkout -q -- .", cwd=d)
        print("made", b["id"])


def verify_one(bid, n, seeds=(1,)):
    d = repo_copy(n)
    s = f"{SEEDED}/{bid}"
    prop = json.load(open(s + "/meta.json"))["property"]
    res = {"id": bid, "property": prop}
    t = sh(f"git apply --check {s}/patch.diff", cwd=d)
    if t.returncode:
        res["error"] = "does not apply: " + t.stdout[-300:]
        return res
    # the demo on the unchanged tree
    t0 = time.time()
    r = sh(f"bash {s}/demo.sh", cwd=d)
    res["demo_clean"] = r.returncode
    res["demo_s"] = round(time.time() - t0)
    if r.returncode:
        res["error"] = "demo fails on the unchanged tree: " + r.stdout[-600:]
        return res
    sh(f"git apply {s}/patch.diff", cwd=d)
    # stable tests
    env = dict(ENV, CARGO_TARGET_DIR=d + "/target")
    log = f"{d}/target/vp-test.log"
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for _ in range(3):
        try:
            t = sh(f"touch src/lib.rs; timeout -k 5 600 cargo test --release --workspace --no-fail-fast --offline -- --test-threads 8 > {log} 2>&1; "
                   f"python3 /opt/vp/results.py {d}/target/out.json cargo:{log}", cwd=d, env=env)
            out = json.load(open(d + "/target/out.json"))
        except Exception as e:
            res["error"] = f"tests: {e}"
            return res
        missing = sorted(base - set(out["passed"]))
        # test_rastrigin is unseeded and fails about 3 times in 100 on any tree
        if missing != ["general:tests/general.rs::test_rastrigin"]:
            break
    if missing:
        txt = open(log, errors="replace").read()
        err = re.findall(r"^error.*(?:\n.*){0,6}", txt, re.M)[:2]
        res["error"] = f"{len(missing)} stable tests lost: {missing[:3]} {err}"
        return res
    r = sh(f"bash {s}/demo.sh", cwd=d)
    res["demo_patched"] = r.returncode
    res["demo_out"] = r.stdout[-200:]
    if r.returncode in (0, 3):
        res["error"] = "demo does not fail with the patch: " + r.stdout[-300:]
        return res
    # the check, from a copy of the harness that points at the patched tree
    h = f"{SCRATCH}/w{n}/verif"
    os.makedirs(h, exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude target-noplot --exclude .git --exclude evidence --exclude replays --exclude seeded {ROOT}/ {h}/")
    for f in ("harness/Cargo.toml", "run.sh"):
        t = open(f"{h}/{f}").read()
        open(f"{h}/{f}", "w").write(re.sub(r'(?<=[ "])/repo(?=[ "])', d, t))
    res["check"] = []
    for seed in seeds:
        t0 = time.time()
        r = sh(f"bash run.sh check {prop}", cwd=h, env=dict(ENV, VERIF_SEED=str(seed), VERIF_TIER="quick"), timeout=1200)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        ok = r.returncode == 1 and any(f"property={prop}" in l for l in v)
        res["check"].append({"rc": r.returncode, "caught": ok, "s": round(time.time() - t0),
                             "tail": r.stdout[-700:] if ok else r.stdout[-400:]})
    res["caught"] = all(c["caught"] for c in res["check"])
    return res


def verify(ids, workers=2):
    import queue
    q = queue.Queue()
    for i in range(workers):
        q.put(i)
    results = {}
    path = f"{SCRATCH}/results.json"
    if os.path.exists(path):
        results = json.load(open(path))

    def job(b):
        n = q.get()
        try:
            return verify_one(b, n)
        except Exception as e:  # noqa
            return {"id": b, "error": repr(e)}
        finally:
            q.put(n)

    with cf.ThreadPoolExecutor(workers) as ex:
        for f in cf.as_completed([ex.submit(job, b) for b in ids]):
            r = f.result()
            results[r["id"]] = r
            json.dump(results, open(path, "w"), indent=1)
            c = r.get("check", [{}])[0]
            print(r["id"], r.get("property"), "ERROR " + r["error"] if "error" in r else
                  f"demo {r['demo_clean']}/{r['demo_patched']} ({r['demo_s']} s) "
                  f"{'CAUGHT' if r['caught'] else 'MISSED'} {c.get('s')} s\n      " + c.get("tail", "").strip().replace("\n", "\n      ")[-500:],
                  flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        verify(ids, int(os.environ.get("WORKERS", "2")))
