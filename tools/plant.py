#!/usr/bin/env python3
"""plant.py SPEC...: turns a spec (python file defining ID, PROPERTY, EDITS [(file, old, new)], MAIN, NEEDS, BREAKS)
into seeded/<ID>/ after confirming in a scratch copy that it compiles, passes the tests and that the demo tells it apart."""
import json, os, re, subprocess, sys, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", RUSTFLAGS="-Ctarget-cpu=x86-64-v3", CARGO_TARGET_DIR=WT + "/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
DEMO = '''#!/bin/bash
# cwd: /repo.  Builds main.rs (beside this script) against it in a scratch directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Ctarget-cpu=x86-64-v3 RUSTC_WRAPPER=
d="$(mktemp -d)"; trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/" 2>/dev/null
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nredstone-ml = { path = "%s" }\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 60 "$d/target/debug/demo"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def tests():
    r = sh(f"cd {WT} && cargo nextest run --workspace --no-fail-fast --offline --test-threads 8 2>&1 | tail -60; timeout 300 cargo test --workspace --doc --offline 2>&1 | tail -15", env=ENV)
    return r.stdout
def plant(f):
    s = runpy.run_path(f)
    i = s["ID"]; d = f"{V}/seeded/{i}"
    if not os.path.isdir(WT): sh(f"cp -a /repo {WT}")
    sh(f"git -C {WT} checkout -q -- . && git -C {WT} fetch -q /repo && git -C {WT} reset -q --hard $(git -C /repo rev-parse HEAD)")
    for file, old, new in s["EDITS"]:
        p = f"{WT}/{file}"; t = open(p).read()
        n = t.count(old)
        if n != 1: return print(i, "EDIT matches", n, "times in", file)
        open(p, "w").write(t.replace(old, new))
    diff = sh(f"git -C {WT} diff").stdout
    out = tests()
    m = re.search(r"Summary.*", out); bad = re.findall(r"^\s*FAIL.*|^\s*SIGSEGV.*|^\s*SIGABRT.*|error(?:\[.*)?:.*", out, re.M)
    doc = re.findall(r"test result: .*", out)
    if not m or bad or not doc or any("ok." not in x for x in doc): return print(i, "TESTS FAIL", m and m.group(0), bad[:6], doc)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff); open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(s["MAIN"])
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
    a = sh(f"cd {WT} && bash {d}/demo.sh")
    sh(f"git -C {WT} checkout -q -- .")
    b = sh(f"cd {WT} && bash {d}/demo.sh")
    ok = a.returncode not in (0, 3) and b.returncode == 0
    print(i, "OK" if ok else "DEMO WRONG", "patched rc", a.returncode, "clean rc", b.returncode, m.group(0))
    if not ok: print(a.stdout[-1500:], a.stderr[-1500:], b.stdout[-1500:], b.stderr[-1500:]); shutil.rmtree(d)
for f in sys.argv[1:]: plant(f)
