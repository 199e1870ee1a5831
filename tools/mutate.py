#!/usr/bin/env python3
"""mutate.py MUTANTS.py [-l LANE] [-o OUT] [name...]: plants each change in a scratch
copy of /repo (under /tmp), builds a scratch copy of the simulator against it, runs the
named properties' quick checks and the repository's tests, and reports who noticed.
Development tool; no check uses it."""
import sys, os, subprocess, shutil, json, re, runpy, time, concurrent.futures as cf

args = sys.argv[1:]
lane, out, workers = "0", None, "4"
names, src, notests = [], None, False
while args:
    a = args.pop(0)
    if a == "-l": lane = args.pop(0)
    elif a == "-o": out = args.pop(0)
    elif a == "-t": notests = True
    elif a == "-w": workers = args.pop(0)
    elif src is None: src = a
    else: names.append(a)
W, V, K = f"/tmp/w{lane}", f"/tmp/vs{lane}", f"/tmp/kv{lane}"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]

def sh(cmd, cwd=None, env=None, timeout=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout

def setup():
    if not os.path.isdir(W):
        sh(f"cp -a /repo {W}")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", cwd=W)
    os.makedirs(K, exist_ok=True)
    shutil.copy("/verif/known_findings.txt", K)
    if not os.path.isdir(V):
        sh(f"mkdir -p {V} && cp -a /verif/sim/. {V}/")
    sh(f"rm -rf {V}/src && cp -a /verif/sim/src {V}/src && cp /verif/sim/Cargo.toml {V}/ && cp /verif/sim/Cargo.lock {V}/")
    s = open(f"{V}/Cargo.toml").read()
    s = re.sub(r'path = "[^"]*repo"', f'path = "{W}"', s)
    open(f"{V}/Cargo.toml", "w").write(s)

def check(pid):
    t = time.time()
    rc, o = sh(f"./target/release/kyber-sim check {pid}", cwd=V, env={"VERIF_DIR": K, "VERIF_TIER": "quick",
               "VERIF_SEED": "1", "SIM_WORKERS": workers, "SIM_SECS": "400",
               "CARGO_TARGET_DIR": f"{V}/target"}, timeout=1500)
    v = [l for l in o.splitlines() if "VIOLATION" in l]
    why = [l for l in o.splitlines() if l.strip()][-4:] if rc else []
    return pid, rc, round(time.time() - t), v, why

def tests():
    if notests: return 0, 0, [], ""
    rc, o = sh("timeout 800 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=W,
               env={"CARGO_INCREMENTAL": "1"}, timeout=900)
    m = re.findall(r"(\d+) passed; (\d+) failed", o)
    ok, bad = sum(int(a) for a, _ in m), sum(int(b) for _, b in m)
    fails = sorted(set(re.findall(r"^test (\S+) \.\.\. FAILED", o, re.M)))
    return ok, bad, fails, o if ok == 0 else ""

def main():
    muts = runpy.run_path(src)["MUTANTS"]
    setup()
    for m in muts:
        name, props, edits = m[0], m[1], m[2]
        if names and not any(n == name or (n.endswith("*") and name.startswith(n[:-1])) for n in names): continue
        sh("git checkout -q -f .", cwd=W)
        bad = None
        for f, old, new in edits:
            p = f"{W}/src/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"{f}: {s.count(old)} matches of {old[:60]!r}"; break
            open(p, "w").write(s.replace(old, new))
        if bad:
            rep(dict(name=name, error=bad)); continue
        _, diff = sh("git diff", cwd=W)
        with cf.ThreadPoolExecutor(2) as ex:
            tf = ex.submit(tests)
            rc, o = sh("cargo build --release --offline", cwd=V, env={"CARGO_TARGET_DIR": f"{V}/target"})
            if rc:
                tf.result()
                rep(dict(name=name, error="no build: " + "\n".join(l for l in o.splitlines() if l.startswith("error"))[:300])); continue
            res = [check(p) for p in props]
            t = tf.result()
        rep(dict(name=name, caught=[r[0] for r in res if r[1] == 1], missed=[(r[0], r[1], r[2]) for r in res if r[1] != 1],
                 secs=[r[2] for r in res], why=[r[4] for r in res if r[1]], tests=f"{t[0]} ok {t[1]} bad", fails=t[2], tlog=t[3][-500:]))
    sh("git checkout -q -f .", cwd=W)

def rep(d):
    d = {k: v for k, v in d.items() if v not in ("", [])}
    line = json.dumps(d)
    print(line, flush=True)
    if out: open(out, "a").write(line + "\n")

main()
