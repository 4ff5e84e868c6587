#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | check.py --setup

Decide one property: compile the harness together with /repo's current source
to LLVM IR, execute the property's jobs symbolically (symx, z3), replay every
counterexample natively against the real code, write evidence/<id>.json.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = "/repo"
CORES = os.cpu_count() or 4


def env(**kw):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", **kw)
    e.pop("RUSTC_WRAPPER", None)
    return e


def run(cmd, what, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print(f"ERROR: {what} failed")
        sys.exit(2)
    return r.stdout


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for p, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "__pycache__"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".pest", ".sh")):
                    q = os.path.join(p, f)
                    h.update(q.encode() + b"\0")
                    h.update(open(q, "rb").read())
    return h.hexdigest()


def fresh(name, want):
    """Is the artefact `name` built from exactly these sources?"""
    try:
        return open(os.path.join(B, name + ".hash")).read() == want
    except OSError:
        return False


def mark(name, want):
    with open(os.path.join(B, name + ".hash"), "w") as f:
        f.write(want)


PKGS = ["common", "dict", "db", "server", "pd", "keys", "macros", "connection", "rpc"]


def clean(crate, target):
    """Forget what was built from /repo (never trust file times)."""
    names = re.findall(r'name = "([^"]+)"\nversion = "[^"]*"\n(?!source)', open(os.path.join(V, crate, "Cargo.lock")).read())
    for n in names:
        subprocess.run(["cargo", "+stable", "clean", "--offline", "--release" if crate == "harness" else "--profile=dev", "-p", n,
                        "--target-dir", target], cwd=os.path.join(V, crate), env=env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def build(which):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if which == "symx":
            h = tree_hash([os.path.join(V, "symx")])
            if not fresh("symx", h):
                run(["cargo", "build", "--release", "--offline", "--target-dir", B + "/symx"], "building symx",
                    cwd=V + "/symx", env=env())
                mark("symx", h)
        elif which == "ht":
            h = tree_hash([os.path.join(V, "harness"), REPO])
            if not fresh("ht", h) or not os.path.exists(B + "/ht/harness.ll"):
                clean("harness", B + "/ht")
                run(["bash", V + "/harness/build.sh", B + "/ht"], "compiling the harness with /repo to LLVM IR", env=env())
                mark("ht", h)
        else:
            h = tree_hash([os.path.join(V, "harness"), os.path.join(V, "replay"), REPO])
            if not fresh("rp", h):
                clean("replay", B + "/rp")
                run(["cargo", "build", "--offline", "--target-dir", B + "/rp"], "building the replay program",
                    cwd=V + "/replay", env=env(RUSTFLAGS="--cfg rudis_verif -Awarnings"))
                mark("rp", h)


def job_list():
    r = []
    for l in run([B + "/rp/debug/replay", "--list"], "listing the jobs").splitlines():
        i, stage, prop, deep, name, bounds = l.split("\t", 5)
        r.append(dict(id=int(i), stage=int(stage), prop=prop, deep=deep == "1", name=name, bounds=bounds))
    assert len({j["name"] for j in r}) == len(r), "two jobs with one name"
    return r


def replay(job, inputs, path, thorough, stress=False):
    with open(path, "w") as f:
        for n, w, v in inputs:
            f.write(f"{n} {w} {v}\n")
    cmd = [B + "/rp/debug/replay", job, path] + (["thorough"] if thorough else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40, env=dict(os.environ, **({"VS_STRESS": "1"} if stress else {})))
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace")


def reproduced(msg, rc, out):
    """Does the native run show the violation?"""
    for l in out.splitlines():
        if l.startswith("ASSERT-FAIL: "):
            return True
        if l.startswith("PANIC: "):
            return True
    if rc in (-6, -11, -4, -7, -8, 134, 139):
        return True
    if rc == "timeout":
        return "hang" in msg or "deadlock" in msg
    return False


def traces(out):
    return [l[7:].rsplit(" ", 1) for l in out.splitlines() if l.startswith("TRACE: ")]


OURS = re.compile(r"(?:^|<|&)(common|dict|db|server|pd|keys|crc)::")


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--job") + 1].split(",") if "--job" in sys.argv else None
    thorough = tier == "thorough"
    for w in ("symx", "ht", "rp"):
        build(w)
    jobs = [j for j in job_list() if j["prop"] == prop and (thorough or not j["deep"]) and (not only or j["name"] in only)]
    if not jobs:
        print(f"ERROR: no jobs for {prop}")
        sys.exit(2)
    out = os.path.join(B, "out", prop)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    built = time.time() - t0
    par = min(CORES, len(jobs))
    waves = (len(jobs) + par - 1) // par
    budget = int(os.environ.get("SYMX_TIME", "700" if thorough else str(max(75, min(300, 450 // waves)))))
    mem = int(26000 / par)
    cmd = [B + "/symx/release/symx", "--ll", B + "/ht/harness.ll", "--jobs",
           ",".join(f"{j['id']}:{j['stage']}:{j['name']}" for j in jobs), "--out", out, "--par", str(par),
           "--time", str(budget), "--solver-ms", "60000" if thorough else "15000", "--mem-mb", str(min(mem, 8000))]
    if thorough:
        cmd.append("--thorough")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.stdout.strip():
        print(p.stdout.strip()[-4000:])
    known = json.load(open(os.path.join(V, "known-findings.json")))["findings"]
    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    bad, unconfirmed, errors, findings = [], [], [], []
    validated = mismatched = 0
    reports, samples = [], []
    if p.returncode == 3:
        # the code fails before any job starts: one native run decides
        path = os.path.join(rdir, f"{prop}-start.txt")
        rc, o = replay(jobs[0]["name"], [], path, thorough)
        if reproduced("start", rc, o):
            bad.append(("start", "the database cannot even be created: " + o[-300:], path))
        else:
            errors.append("the shared prefix failed in the engine only")
    for j in jobs:
        try:
            d = json.load(open(os.path.join(out, j["name"] + ".json")))
        except (OSError, ValueError):
            if p.returncode != 3:
                errors.append(f"{j['name']}: no report")
            continue
        d["bounds"] = j["bounds"]
        reports.append(d)
        seen = {}
        for v in d["violations"]:
            if seen.setdefault(v["msg"], 0) >= 3 or len(bad) > 12 or bad and time.time() - t0 > 700:
                continue
            seen[v["msg"]] += 1
            m = re.match(r"KNOWN:([A-Z0-9-]+):", v["msg"])
            path = os.path.join(rdir, f"{prop}-{j['name']}-{len(bad) + len(findings) + len(unconfirmed)}.txt")
            rc, o = replay(j["name"], v["inputs"], path, thorough, True)
            ok = reproduced(v["msg"], rc, o)
            if ok and m and any(k["id"] == m.group(1) and k["property"] == prop and k["status"] == "known" for k in known):
                findings.append((m.group(1), v["msg"]))
            elif not ok and v["msg"].startswith("hang"):
                # long, but it ends
                d["incomplete"]["step bound exceeded"] = d["incomplete"].get("step bound exceeded", 0) + 1
            elif ok:
                bad.append((j["name"], v["msg"], path))
            else:
                unconfirmed.append((j["name"], v["msg"], path, str(rc), o[-400:]))
        for s in d["samples"]:
            path = os.path.join(out, "sample.txt")
            rc, o = replay(j["name"], s["inputs"], path, thorough)
            want = [[a, str(b)] for a, b in s["traces"]]
            got = traces(o)
            if rc == 0 and got == want:
                validated += 1
            else:
                mismatched += 1
                if not d["violations"] and mismatched <= 4:
                    errors.append(f"{j['name']}: the native run of a sampled path differs (rc {rc}): inputs {s['inputs']} "
                                  f"symbolic {[x for x in want if x not in got][:4]} native {[x for x in got if x not in want][:4]} {o[-200:] if rc else ''}")
        if d["samples"]:
            s = d["samples"][-1]
            samples.append({"job": j["name"], "inputs": s["inputs"][:40], "observed": s["traces"][:12]})
        if not d["reach"] and not d["violations"] and not d["incomplete"]:
            errors.append(f"{j['name']}: no path reached the end of the harness (vacuous)")
    # a violation confirmed natively outranks one that is not
    for f, msg in sorted(set(findings)):
        print(f"KNOWN-FINDING: property={prop} {msg[len('KNOWN:'):]}")
    shown = {}
    for j, msg, path in bad:
        if shown.setdefault((j, msg), path) == path:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {j}: {msg}")
    tot = lambda k: sum(d[k] for d in reports)
    fn = sorted({f for d in reports for f in d["functions"] if OURS.search(f)})
    inc = {d["job"]: d["incomplete"] for d in reports if d["incomplete"]}
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("forks") + tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples[:8],
            "meaning": "states: symbolic states (path ends and forks); transitions: IR instructions executed symbolically; every path stands for all inputs that satisfy its path condition",
            "paths": tot("paths"),
            "branch_decisions": tot("branches"),
            "assertions_evaluated": tot("asserts"),
            "assertions_sent_to_solver": tot("assert_queries"),
            "queries": tot("queries"), "queries_sent_to_z3": tot("z3"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 2), "max_query_s": max([d["max_query_s"] for d in reports] or [0]),
            "solver": "z3 " + (reports[0]["solver"] if reports else "?"),
            "jobs": [{k: d[k] for k in ("job", "bounds", "paths", "asserts", "assert_queries", "z3", "unsat", "solver_s", "wall_s", "reach")} for d in reports],
            "incomplete": inc,
            "exhausted_within_bounds": not inc,
            "functions_encoded": fn[:400], "functions_encoded_total": len(fn),
            "repo_tree": tree_hash([REPO])[:16],
            "sample_mismatches": mismatched, "unconfirmed": [u[:3] for u in unconfirmed][:10], "known_findings_seen": sorted({f for f, _ in findings}),
            "build_s": round(built, 1),
        },
        "assumptions": ASSUME,
        "violations": len(shown),
        "wall_s": round(time.time() - t0, 2),
    }
    while len(json.dumps(ev)) > 60000 and ev["coverage"]["functions_encoded"]:
        del ev["coverage"]["functions_encoded"][-40:]
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(reports)} jobs, {tot('paths')} paths, {tot('asserts')} assertions ({tot('assert_queries')} by query), "
          f"{tot('z3')} z3 queries, {tot('solver_s'):.1f} s solver, {validated} sampled paths validated natively, {time.time() - t0:.1f} s"
          + (f"; NOT exhausted: {inc}" if inc else "; exhausted within bounds"))
    if bad:
        sys.exit(1)
    for j, msg, path, rc, o in unconfirmed:
        print(f"ERROR: {j}: counterexample not reproduced natively (rc {rc}): {msg} [{path}] {o}")
    for e in errors:
        print("ERROR:", e)
    sys.exit(2 if unconfirmed or errors else 0)


ASSUME = [
    "dev-build semantics (overflow checks on) of the code rustc emits at opt-level 1; hash values of the standard hasher are fixed (ahash with constant keys)",
    "libc and kernel are modelled by the engine: allocation never fails, the clock is what the harness sets, sockets deliver what the harness feeds",
    "everything outside the stated bounds of each job is not covered",
]

if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        for w in ("symx", "ht", "rp"):
            build(w)
        job_list()
    else:
        main()
