#!/usr/bin/env python3
"""seed.py verify ID... | matrix ID... : development helper for /verif/seeded.

Works in a scratch copy of /repo under /tmp/plant. `verify` confirms that a
planted bug builds, passes the tests, and that its demo tells it apart;
`matrix` runs checks against it (the one of its property, or all: ALL=1).
"""
import json, os, shutil, subprocess, sys
P = "/tmp/plant"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")

def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)

def setup():
    os.makedirs(P, exist_ok=True)
    sh(f"rsync -a --delete --exclude target /repo/ {P}/repo/ 2>/dev/null || (mkdir -p {P}/repo && cd /repo && git archive HEAD | tar x -C {P}/repo)")
    if not os.path.exists(f"{P}/repo/src"):
        sh(f"mkdir -p {P}/repo && cd /repo && git archive HEAD | tar x -C {P}/repo")
    sh(f"cp -r /repo/.git {P}/repo/.git") if not os.path.exists(f"{P}/repo/.git") else None
    sh(f"git -C {P}/repo fetch -q /repo HEAD && git -C {P}/repo reset -q --hard FETCH_HEAD")
    sh(f"mkdir -p {P}/sim {P}/root && cp -r {V}/sim/Cargo.toml {V}/sim/Cargo.lock {V}/sim/src {V}/sim/below {V}/sim/fine-rustc.sh {P}/sim/ && cp {V}/known-findings.txt {P}/root/ && sed -i 's#\"[./]*/repo\"#\"{P}/repo\"#' {P}/sim/Cargo.toml")
    if os.path.exists(f"{V}/sim/build.rs"): shutil.copy(f"{V}/sim/build.rs", f"{P}/sim/")
    if os.path.isdir(f"{V}/sim/.cargo"): sh(f"cp -r {V}/sim/.cargo {P}/sim/")

def reset():
    sh(f"git -C {P}/repo checkout -q -- . && git -C {P}/repo clean -qfd -e target")

def apply(i):
    reset()
    r = sh(f"git -C {P}/repo apply {V}/seeded/{i}/patch.diff")
    assert r.returncode == 0, (i, r.stdout)

def tests():
    e = ENV | {"CARGO_TARGET_DIR": f"{P}/target"}
    doc = subprocess.run("bash -c '. /opt/vp/env.sh; echo -n \"$DOC_RUSTFLAGS\"'", shell=True, text=True, stdout=subprocess.PIPE).stdout
    a = sh("cargo test --workspace --all-targets --all-features --no-fail-fast --offline 2>&1", cwd=f"{P}/repo", env=e)
    b = sh("cargo test --workspace --doc --all-features --no-fail-fast --offline 2>&1", cwd=f"{P}/repo", env=e | {"RUSTFLAGS": doc})
    c = sh("cargo check --workspace --all-targets --no-default-features --offline && cargo check --workspace --all-targets --no-default-features --features serde-edits --offline", cwd=f"{P}/repo", env=e)
    ok = (a.stdout + b.stdout).count("... ok")
    failed = [l for l in (a.stdout + b.stdout).splitlines() if "... FAILED" in l or l.startswith("error")]
    if c.returncode: failed.append("check: " + c.stdout[-800:])
    return ok, failed

def demo(i):
    d = f"{P}/demo-{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f"{V}/seeded/{i}", d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(f"bash {d}/demo.sh", cwd=f"{P}/repo", timeout=300)
    shutil.rmtree(d)
    return r

def blame(i):
    "Removed lines of a patch which are not the original repository's."
    base = sh("git -C /repo log --reverse --format=%H").stdout.split()[0]
    bad, n, f = [], 0, None
    for l in open(f"{V}/seeded/{i}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip(); src = sh(f"git -C /repo show {base}:{f}").stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if l[1:].rstrip("\n") not in src: bad.append(l.rstrip())
    return n, bad

def verify(i):
    n, bad = blame(i)
    reset(); r0 = demo(i)
    apply(i); ok, failed = tests(); r1 = demo(i); reset()
    good = ok >= 188 and not failed and r0.returncode == 0 and r1.returncode != 0 and n > len(bad)
    print(i, "OK" if good else "BAD", f"tests {ok} {failed[:6]} demo {r0.returncode}/{r1.returncode} removed {n} not original {len(bad)}")
    if r0.returncode: print("  clean demo:", r0.stdout[-1500:])
    else: print("  demo:", " ".join(l for k, l in enumerate(r1.stdout.splitlines()) if 'panicked' in l or (k and 'panicked' in r1.stdout.splitlines()[k-1]))[:250])
    return good

def matrix(i):
    apply(i)
    prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    props = [f"C{n:02}" for n in range(1, 14)] if os.environ.get("ALL") else [prop]
    out = []
    for p in props:
        e = ENV | {"CARGO_TARGET_DIR": f"{P}/sim-target"}
        if p == "C11":
            e |= {"CARGO_TARGET_DIR": f"{P}/sim-target/fine", "RUSTC_WRAPPER": f"{P}/sim/fine-rustc.sh"}
        if p in (props[0], "C11", "C12"):
            b = sh("cargo build --release --offline --quiet", cwd=f"{P}/sim", env=e)
            assert b.returncode == 0, b.stdout[-3000:]
        r = sh(f"timeout 900 {e['CARGO_TARGET_DIR']}/release/ndsim check {p}", env=e | {"NDSIM_ROOT": f"{P}/root"})
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        hit = r.returncode == 1 and v
        runs = [l.split()[0] for l in r.stdout.splitlines() if " runs (" in l]
        out.append(f"{p}:{'CAUGHT@' + (runs[0] if runs else '?') if hit else 'quiet' if r.returncode == 0 else 'EXIT%d' % r.returncode}")
        if hit and p == prop:
            out.append("[" + next((l for l in r.stdout.splitlines() if l.startswith("run ")), "")[:160] + "]")
    reset()
    print(i, prop, " ".join(out), flush=True)

cmd, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(f"{V}/seeded"))
setup()
for i in ids:
    (verify if cmd == "verify" else matrix)(i)
