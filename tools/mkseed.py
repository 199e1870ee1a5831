#!/usr/bin/env python3
"""mkseed.py [-n] [id...]: writes /verif/seeded/<id> from tools/seed, and confirms in a
scratch copy that the change builds, passes the repository's tests and that its
demonstration tells it from the unchanged tree. -n: only write."""
import sys, os, subprocess, shutil, json, re, runpy
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
W = "/tmp/wseed"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]
def sh(cmd, cwd=None, timeout=1500):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout
args = sys.argv[1:]
only = "-n" in args
notest = "-t" in args
names = [a for a in args if a[0] != "-"]
if not os.path.isdir(W):
    sh(f"cp -a /repo {W}")
sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", cwd=W)
seeds = runpy.run_path(f"{HERE}/seed/spec.py")["SEEDS"]
for s in seeds:
    sid, prop, edits, needs, breaks = s
    if names and sid not in names: continue
    D = f"{ROOT}/seeded/{sid}"
    os.makedirs(D, exist_ok=True)
    sh("git checkout -q -f .", cwd=W)
    err = None
    for f, a, b in edits:
        p = f"{W}/src/{f}"; t = open(p).read()
        if t.count(a) != 1: err = f"{f}: {t.count(a)} matches {a[:50]!r}"; break
        open(p, "w").write(t.replace(a, b))
    if err: print(sid, "ERROR", err, flush=True); continue
    sh(f"git diff > {D}/patch.diff", cwd=W)
    # which original lines does it touch
    for x in ("demo.sh", "k.rs", "Cargo.toml.in", "Cargo.lock"):
        shutil.copy(f"{HERE}/seed/{x}", f"{D}/{x}")
    shutil.copy(f"{HERE}/seed/mains/{sid}.rs", f"{D}/main.rs")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{D}/meta.json", "w"), indent=1)
    if only: continue
    sh(f"rm -rf /tmp/wdemo && cp -a {D} /tmp/wdemo && rm -f /tmp/wdemo/patch.diff /tmp/wdemo/meta.json")
    rc1, o1 = sh("/tmp/wdemo/demo.sh", cwd=W)
    sh("git checkout -q -f .", cwd=W)
    rc0, o0 = sh("/tmp/wdemo/demo.sh", cwd=W)
    res = f"base={rc0} patched={rc1}"
    ok = rc0 == 0 and rc1 not in (0, 8, 9)
    if ok and not notest:
        sh(f"git apply {D}/patch.diff", cwd=W)
        rc, o = sh("timeout 900 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=W)
        m = re.findall(r"(\d+) passed; (\d+) failed", o)
        p, f = sum(int(a) for a, _ in m), sum(int(b) for _, b in m)
        res += f" tests={p}/{f}"; ok = ok and p >= 138 and f == 0
    print(sid, prop, "OK" if ok else "BAD", res, flush=True)
    if not ok: print(o0[-1500:], o1[-1500:])
    else: print("   ", [l for l in o1.splitlines() if "demo" not in l and l.strip() and "note:" not in l][-1:])
sh("git checkout -q -f .", cwd=W)
