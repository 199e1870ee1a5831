#!/usr/bin/env python3
"""automut.py -l LANE -o OUT -m K/N [FILE...]: plants small mechanical changes (comparisons,
conditions, deleted statements, constants) in a scratch copy of /repo, one at a time, runs the
checks of the properties the file is behind until one notices, and reports those nobody noticed,
with what the repository's tests say. Development tool; no check uses it."""
import sys, os, re, json, random, shutil, subprocess, time
sys.argv, argv = [sys.argv[0], "/dev/null"], sys.argv[1:]
lane, out, part, files, dry, only = "0", None, (0, 1), [], False, None
while argv:
    a = argv.pop(0)
    if a == "-l": lane = argv.pop(0)
    elif a == "-o": out = argv.pop(0)
    elif a == "-m": part = tuple(map(int, argv.pop(0).split("/")))
    elif a == "-n": dry = True
    elif a == "-k": only = argv.pop(0).split(",")
    else: files.append(a)
W, V, K = f"/tmp/w{lane}", f"/tmp/vs{lane}", f"/tmp/kv{lane}"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]
CHECKS = {
 "share/vss/pedersen/vss.rs": "C03 C01 C10 C12 C11 C17 C05 C04 C06 C13 C14",
 "share/vss/rabin/vss.rs": "C03 C02 C10 C12 C11 C17 C08 C07 C13 C14",
 "share/dkg/pedersen/dkg.rs": "C04 C06 C05 C10 C12 C11 C17 C20 C22 C13 C14",
 "share/dkg/pedersen/structs.rs": "C04 C10 C12 C11 C06",
 "share/dkg/rabin/dkg.rs": "C07 C08 C10 C12 C11 C17 C20 C22 C13 C14",
 "share/poly.rs": "C18 C22 C06 C09 C12 C14 C01 C20",
 "sign/dss/dss_sig.rs": "C09 C10 C12 C11 C17 C20 C22 C13",
 "sign/eddsa/eddsa_sig.rs": "C19 C14 C13 C12",
 "sign/schnorr/schnorr_sig.rs": "C19 C14 C12 C10",
 "encrypt/ecies/ecies_impl.rs": "C13 C14 C12",
 "dh/dh_impl.rs": "C13 C12 C14",
 "encoding/encodings.rs": "C16 C12 C13 C19",
 "xof/blake3/xof.rs": "C15 C14",
 "util/random/random_stream.rs": "C14 C15",
 "util/key/key_pair.rs": "C14 C13 C19",
 "group/edwards25519/point.rs": "C16 C21 C12 C19 C13 C10",
 "group/edwards25519/suite.rs": "C16 C15 C14 C21",
 "group/edwards25519/curve.rs": "C16 C19 C14 C21 C12",
 "group/internal/marshalling/marshal.rs": "C16",
 "group/integer_field/integer.rs": "C16 C19 C14",
}
SW = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
      (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", ""), (r" - 1\b", ""),
      (r"\bif !", "if "), (r"\bif (?!let)(?!.*\bif\b)(.*) \{$", r"if false && (\1) {"), (r"\bif (?!let)(?!.*\bif\b)(.*) \{$", r"if true || (\1) {"),
      (r"(?<=[\w)]) \+ (?=[\w(&])", " - "), (r"(?<=[\w)]) \* (?=[\w(&])", " + "), (r"(?<=[\w)]) - (?=[\w(&])", " + ")]

def sh(cmd, cwd=None, env=None, timeout=None):
    try:
        p = subprocess.run(["bash", "-c", "ulimit -v 14000000; " + cmd], cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", f"^{V}/target"])
        return 124, "timeout"

def mutants(f):
    lines = open(f"{W}/src/{f}").read().split("\n")
    skip = depth = 0
    res = []
    for i, l in enumerate(lines):
        s = l.strip()
        if skip:
            skip += l.count("{") - l.count("}")
            if skip <= 0 and "}" in l: skip = 0
            continue
        if re.match(r"impl.*\b(Display|Debug|Default)\b.* for ", s) or re.match(r"#\[cfg\(test\)\]", s) or s.startswith("mod test"):
            skip = l.count("{") - l.count("}") or (1 if "{" not in l else 0)
            if "{" not in l: skip = 0
            continue
        if s.startswith("//") or s.startswith("#") or s.startswith("use ") or not s: continue
        code = l.split(" // ")[0]
        for a, b in SW:
            for m in list(re.finditer(a, code))[:3]:
                if "fn " in code or "impl" in code or "where" in code: continue
                if a.startswith(r" <") or a.startswith(r" >"):
                    if "::<" in code and False: continue
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                res.append((i, n))
        if s.endswith(";") and not re.match(r"(let|return|use|pub|const|type|break|continue|\}|\)|\]|mod|fn|static)\b|^[})\]]", s) and (s.count("(") == s.count(")")):
            if i and lines[i-1].strip()[-1:] in ("{", ";", "}", "") or lines[i-1].strip().startswith("//"):
                res.append((i, ""))
    return lines, res

def setup():
    if not os.path.isdir(W): sh(f"cp -a /repo {W}")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", cwd=W)
    os.makedirs(K, exist_ok=True); shutil.copy("/verif/known_findings.txt", K)
    if not os.path.isdir(V): sh(f"mkdir -p {V} && cp -a /verif/sim/. {V}/")
    sh(f"rm -rf {V}/src && cp -a /verif/sim/src {V}/src && cp /verif/sim/Cargo.toml {V}/ && cp /verif/sim/Cargo.lock {V}/")
    s = open(f"{V}/Cargo.toml").read()
    open(f"{V}/Cargo.toml", "w").write(re.sub(r'path = "[^"]*repo"', f'path = "{W}"', s))

def main():
    setup()
    done = set()
    if out and os.path.exists(out):
        for l in open(out): done.add(json.loads(l)["name"])
    allm = []
    for f in files or CHECKS:
        lines, ms = mutants(f)
        for k, (i, n) in enumerate(ms): allm.append((f, lines, i, n, f"{f}:{i+1}:{k}"))
    random.Random(7).shuffle(allm)
    allm = [m for j, m in enumerate(allm) if j % part[1] == part[0]]
    if dry:
        c = {}
        for m in allm: c[m[0]] = c.get(m[0], 0) + 1
        print(c, len(allm)); return
    for f, lines, i, n, name in allm:
        if name in done: continue
        if only and name not in only: continue
        L = list(lines); L[i] = n
        open(f"{W}/src/{f}", "w").write("\n".join(L))
        d = dict(name=name, old=lines[i].strip(), new=n.strip())
        rc, o = sh("cargo build --release --offline", cwd=V, env={"CARGO_TARGET_DIR": f"{V}/target"}, timeout=600)
        if rc: d["res"] = "nobuild"
        else:
            d["res"] = "missed"; t0 = time.time()
            for c in CHECKS[f].split():
                rc, o = sh(f"timeout -k 5 300 ./target/release/kyber-sim check {c}", cwd=V, env={"VERIF_DIR": K, "VERIF_TIER": "quick", "VERIF_SEED": "1", "SIM_WORKERS": os.environ.get("LANE_WORKERS", "3"), "SIM_SHRINK": "0"}, timeout=400)
                if rc:
                    d["res"] = "caught"; d["by"] = c; d["rc"] = rc
                    break
            d["secs"] = round(time.time() - t0)
            if d["res"] == "missed":
                rc, o = sh("timeout 800 cargo test --workspace --no-fail-fast --offline -- --test-threads 4", cwd=W, env={"CARGO_INCREMENTAL": "1"}, timeout=900)
                m = re.findall(r"(\d+) passed; (\d+) failed", o)
                d["tests"] = f"{sum(int(a) for a,_ in m)}/{sum(int(b) for _,b in m)}"
        sh("git checkout -q -f .", cwd=W)
        print(json.dumps(d), flush=True)
        if out: open(out, "a").write(json.dumps(d) + "\n")
main()
