#!/usr/bin/env python3
"""mkseed.py ID: (re)build and confirm /verif/seeded/ID from seedtools/specs/ID.py

A spec defines prop, needs, breaks, edits = [(file, old, new)...] and either
py (the body of a demo that talks to a server) or rs (a test program linked
against the repository's crates)."""
import json, os, shutil, subprocess, sys
T = "/tmp/seed/repo"
H = os.path.dirname(os.path.abspath(__file__))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    if not os.path.exists(T):
        os.makedirs("/tmp/seed", exist_ok=True)
        sh("cp -a /repo /tmp/seed/repo")
    sh("git checkout -q -- . && git fetch -q /repo && git checkout -q --detach FETCH_HEAD && git clean -qfd", cwd=T)
    a = sh("git rev-parse HEAD", cwd=T).stdout
    assert a == sh("git rev-parse HEAD", cwd="/repo").stdout, a


CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
common = { path = "$repo/component/common" }
dict = { path = "$repo/component/dict" }
db = { path = "$repo/component/db" }
server = { path = "$repo/component/server" }
pd = { path = "$repo/component/pd" }
keys = { path = "$repo/component/keys" }
tokio = { version = "1", features = ["full"] }
bincode = "*"
parking_lot = "*"
'''


def main(id):
    ns = {}
    exec(open(f"{H}/specs/{id}.py").read(), ns)
    copy()
    d = f"/verif/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f, old, new in ns["edits"]:
        p = f"{T}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=T).stdout
    open(d + "/patch.diff", "w").write(diff)
    # lines added by our own commits must not be the ones changed
    base = sh("git rev-list --max-parents=0 HEAD", cwd=T).stdout.strip()
    for f in {e[0] for e in ns["edits"]}:
        orig = set(sh(f"git show {base}:{f}", cwd=T).stdout.splitlines())
        for l in sh(f"git diff -U0 {f}", cwd=T).stdout.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                print("WARNING: changes a line that is not original:", l)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "py" in ns:
        shutil.copy(H + "/resp.py", d)
        open(d + "/demo.py", "w").write("from resp import *\n\n" + ns["py"].lstrip() + '\nprint("ok")\n')
        open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cargo build --offline %s >/dev/null 2>&1 || exit 3
PYTHONDONTWRITEBYTECODE=1 exec timeout 120 python3 "$here/demo.py"
''' % ns.get("bins", "--bin server"))
    else:
        open(d + "/main.rs", "w").write(ns["rs"].lstrip())
        open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=$PWD
w=$(mktemp -d)
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<E
%sE
cd "$w" || exit 3
cargo build --offline --target-dir "$repo/target" >"$w/log" 2>&1 || { tail -20 "$w/log"; rm -rf "$w"; exit 3; }
timeout 120 "$repo/target/debug/demo"
rc=$?
rm -rf "$w"
exit $rc
''' % CARGO)
    os.chmod(d + "/demo.sh", 0o755)
    r = sh("bash -c '. /opt/vp/env.sh; cargo test --workspace --no-run --offline 2>&1 | tail -30'", cwd=T)
    if "error" in r.stdout:
        sys.exit("does not build: " + r.stdout)
    r = sh("bash -c '. /opt/vp/env.sh; cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp 2>&1 | tail -12'", cwd=T)
    print("tests:", [l for l in r.stdout.splitlines() if "Summary" in l or "FAIL" in l])
    w = f"/tmp/seed/elsewhere"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(d, w)
    r1 = sh(f"bash {w}/demo.sh", cwd=T)
    sh("git checkout -q -- .", cwd=T)
    sh("bash -c '. /opt/vp/env.sh; cargo test --workspace --no-run --offline'", cwd=T)
    r0 = sh(f"bash {w}/demo.sh", cwd=T)
    ok = r1.returncode not in (0, 3) and r0.returncode == 0
    print(id, "patched rc", r1.returncode, r1.stdout.strip()[-300:], "| clean rc", r0.returncode, r0.stdout.strip()[-300:], "=>", "CONFIRMED" if ok else "NOT CONFIRMED", flush=True)
    sh("git checkout -q -- . && git clean -qfd", cwd=T)


for i in sys.argv[1:]:
    main(i)
