#!/usr/bin/env python3
"""Development tool for planted bugs (not used by any check).

plant.py make SPEC.py   apply the edits of a spec to the scratch copy /tmp/plant, write seeded/<id>/,
                        confirm: it builds, the stable tests pass, the demo fails (and passes without)
plant.py try ID [C..]   apply seeded/<id>/patch.diff to /repo, run checks (default: its property's), undo
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def scratch():
    if not os.path.isdir(S):
        assert sh(f"cp -a /repo {S}").returncode == 0
    # cargo and rustc only see paths below the scratch copy
    for n in ("build", "test"):
        t = open(f"/opt/vp/{n}.sh").read().replace("/repo", S)
        open(f"/tmp/plant-{n}.sh", "w").write(t)
    assert sh(f"git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD").returncode == 0

DEMO = """#!/bin/bash
# Run with the repository as working directory. Fails when the property is broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
rm -rf /tmp/demo-@ID@
mkdir -p /tmp/demo-@ID@/src || exit 99
trap 'rm -rf /tmp/demo-@ID@' EXIT
cp "$here/main.rs" /tmp/demo-@ID@/src/main.rs
cat > /tmp/demo-@ID@/Cargo.toml <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
blake2b_simd = { path = "$repo/blake2b"@FEAT@ }
blake2s_simd = { path = "$repo/blake2s"@FEAT@ }
[profile.@PROFILE@]
@PROFOPTS@
[workspace]
EOT
cd /tmp/demo-@ID@ || exit 99
unset CARGO_TARGET_DIR RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true RUSTFLAGS="@RUSTFLAGS@"
@RUN@
"""

CLIDEMO = """#!/bin/bash
# Run with the repository as working directory. Fails when the property is broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
rm -rf /tmp/demo-@ID@
mkdir -p /tmp/demo-@ID@/w || exit 99
trap 'rm -rf /tmp/demo-@ID@' EXIT
unset CARGO_TARGET_DIR RUSTC_WRAPPER RUSTFLAGS
cargo +stable build -q --offline --manifest-path "$repo/blake2_bin/Cargo.toml" --target-dir /tmp/demo-@ID@/t || exit 99
cd /tmp/demo-@ID@/w || exit 99
BLAKE2=/tmp/demo-@ID@/t/debug/blake2 python3 "$here/demo.py"
"""

def make(spec):
    g = {}
    exec(open(spec).read(), g)
    id, prop = g["id"], g["prop"]
    scratch()
    for f, old, new in g["edits"]:
        p = f"{S}/{f}"
        t = open(p).read()
        n = t.count(old)
        want = g.get("count", {}).get(f, 1)
        assert n == want, f"{f}: {n} matches of {old!r}"
        open(p, "w").write(t.replace(old, new))
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    diff = sh(f"git -C {S} diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    if "demo_py" in g:
        open(f"{d}/demo.py", "w").write(g["demo_py"])
        t = CLIDEMO.replace("@ID@", id)
    else:
        open(f"{d}/main.rs", "w").write(g["main"])
        prof = g.get("profile", "release")
        feat = g.get("feat", "")
        t = DEMO.replace("@ID@", id).replace("@FEAT@", feat).replace("@RUSTFLAGS@", g.get("rustflags", ""))
        t = t.replace("@PROFILE@", prof).replace("@PROFOPTS@", g.get("profopts", "opt-level = 3" if prof == "release" else "opt-level = 1"))
        t = t.replace("@RUN@", g.get("run", "cargo +stable run -q --offline" + (" --release" if prof == "release" else "")))
    for n, x in g.get("extra", {}).items():
        open(f"{d}/{n}", "w").write(x)
    open(f"{d}/demo.sh", "w").write(t)
    os.chmod(f"{d}/demo.sh", 0o755)
    confirm(id)

def confirm(id):
    d = f"{V}/seeded/{id}"
    r = sh(f"bash /tmp/plant-build.sh")
    if r.returncode:
        print(id, "DOES NOT BUILD", r.stderr[-3000:]); return False
    sh("bash /tmp/plant-test.sh /tmp/plant-out.json")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = json.load(open("/tmp/plant-out.json"))
    missing = stable - set(out["passed"])
    t = time.time()
    r = sh(f"bash {d}/demo.sh", cwd=S)
    t1 = time.time() - t
    c = sh(f"bash {d}/demo.sh", cwd="/repo")
    ok = not missing and r.returncode not in (0, 99) and c.returncode == 0
    print(id, "OK" if ok else "REJECT", f"tests missing: {sorted(missing)[:6]}" if missing else "tests pass",
          f"demo patched {r.returncode} ({t1:.0f}s) clean {c.returncode}", flush=True)
    if not ok:
        print("patched:", r.stdout[-600:], r.stderr[-1500:], "clean:", c.stdout[-300:], c.stderr[-600:])
    else:
        print("   ", (r.stdout + r.stderr).strip()[-300:])
    return ok

def note(id, check, caught):
    p = f"{V}/tools/caught.json"
    t = json.load(open(p)) if os.path.exists(p) else {}
    have = set(t.get(id, "").split()) - {"none"}
    have = have | {check} if caught else have - {check}
    t[id] = " ".join(sorted(have)) or "none"
    json.dump(t, open(p, "w"), indent=1, sort_keys=True)

def try_(id, checks):
    d = f"{V}/seeded/{id}"
    checks = checks or [json.load(open(f"{d}/meta.json"))["property"]]
    assert sh("git -C /repo status --short").stdout == "", "repo not clean"
    r = sh(f"git -C /repo apply {d}/patch.diff")
    assert r.returncode == 0, r.stderr
    try:
        for c in checks:
            t = time.time()
            r = sh(f"VERIF_SEED={os.environ.get('VERIF_SEED','1')} VERIF_TIER=quick ./check {c}", cwd=V)
            lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            what = [l for l in r.stdout.splitlines() if "is violated" in l]
            print(id, c, "CAUGHT" if r.returncode == 1 and lines else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", (what or [r.stderr[-300:] if r.returncode == 2 else ""])[0][:300], flush=True)
            note(id, c, r.returncode == 1 and bool(lines))
    finally:
        sh("git -C /repo checkout -q -- .")

if sys.argv[1] == "make":
    for s in sys.argv[2:]:
        try:
            make(s)
        except AssertionError as e:
            print(s, "FAILED", e)
elif sys.argv[1] == "try":
    ids, cs = [a for a in sys.argv[2:] if not (a[0] == "C" and a[1:].isdigit())], [a for a in sys.argv[2:] if a[0] == "C" and a[1:].isdigit()]
    for i in ids:
        try_(i, cs)
