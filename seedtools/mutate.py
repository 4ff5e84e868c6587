#!/usr/bin/env python3
"""mutate.py OUT WORKERS [SEED [PER_FILE [REGEX]]]: a sweep of small mechanical changes

Makes copies of /verif (committed state) and /repo under /tmp/mut, applies one
change at a time there and runs the checks of the properties the file belongs to
until one reports a violation.  Survivors are what one has to look at: the change
keeps the behaviour, or a check is too weak."""
import json, os, random, re, shutil, subprocess, sys, threading, time

MAP = [
    (r"connection/parse", "C01 C02 C03 C04 C05"),
    (r"common/src/connection/mod", "C04 C05 C03"),
    (r"common/src/float", "C17 C16 C18 C06 C05"),
    (r"common/src/lib", "C11 C08 C20 C12"),
    (r"options/(freq|idletime)", "C21 C27 C06"),
    (r"options/gt_lt", "C11 C16 C06"),
    (r"options/nx_xx", "C08 C11 C16 C06"),
    (r"options/limit", "C17 C06"),
    (r"options/range", "C17 C18 C06"),
    (r"options/set_cmd", "C08 C06"),
    (r"pd_message", "C26 C24"),
    (r"shutdown", "C29 C04"),
    (r"db/src/expire", "C12 C28"),
    (r"db/src/forward", "C24 C23"),
    (r"db/src/pd_handle", "C24 C22 C26"),
    (r"db/src/slot.rs", "C23 C12 C25 C22 C07 C10 C11 C28"),
    (r"db/src/slot/replica", "C24 C23 C25 C12"),
    (r"db/src/lib", "C20 C25 C19 C12 C23"),
    (r"db/src/child", "C22"),
    (r"dict/src/cmd/deque", "C13 C07 C10 C23 C27 C05"),
    (r"dict/src/cmd/kvp", "C14 C07 C09 C10 C23 C27 C05"),
    (r"dict/src/cmd/set/", "C15 C07 C10 C23 C27"),
    (r"dict/src/cmd/sorted_set", "C16 C17 C18 C07 C10 C23 C27 C05"),
    (r"dict/src/cmd/simple/(expire|ttl)", "C11 C10 C23 C12"),
    (r"dict/src/cmd/simple/get_", "C27"),
    (r"dict/src/cmd/simple/incr", "C09 C07 C10 C23 C27"),
    (r"dict/src/cmd/simple", "C08 C10 C07 C19 C23 C12 C27 C11"),
    (r"dict/src/cmd/server", "C21 C27 C23 C12"),
    (r"dict/src/cmd/mod", "C23 C24"),
    (r"dict/src/data_type/deque", "C13 C21 C22"),
    (r"dict/src/data_type/kvp", "C14 C21"),
    (r"dict/src/data_type/set", "C15 C21"),
    (r"dict/src/data_type/sorted", "C16 C17 C18 C21"),
    (r"dict/src/data_type/mod", "C21 C08 C09 C03 C07 C22 C23"),
    (r"dict/src/lib", "C27 C10 C21 C22 C23 C12"),
    (r"keys|crc", "C20 C19"),
    (r"macros", "C06 C05 C08"),
    (r"component/pd", "C26"),
    (r"cmd/base/(decr|incr)", "C09 C06"),
    (r"cmd/base/p?(expire|ttl)", "C11 C06"),
    (r"cmd/base", "C08 C06 C10 C19 C11"),
    (r"cmd/hash", "C14 C06 C09 C05"),
    (r"cmd/list", "C13 C06 C05"),
    (r"server/src/cmd/set/", "C15 C06"),
    (r"server/src/cmd/sorted", "C17 C16 C18 C06 C05"),
    (r"cmd/others/(dump|restore)", "C21 C27 C06"),
    (r"cmd/others/object", "C27 C06"),
    (r"cmd/others/flush", "C25 C06"),
    (r"cmd/others", "C06 C05"),
    (r"syncsnapshot", "C22 C05"),
    (r"server/src/cmd/mod", "C06 C05 C04 C08 C22"),
    (r"server/src/lib", "C04 C29 C05 C22"),
    (r"server/src/limit", "C29"),
    (r"server/src/frame_parse", "C06 C05"),
]
SKIP = re.compile(r"verif|config\.rs|bin/|options/mod|simple/mod|others/info|others/config|others/debug")
OPS = [
    (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""),
    (r" \+= ", " -= "), (r" -= ", " += "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"),
    (r"\bis_ok\(\)", "is_err()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"push_front", "push_back"), (r"push_back", "push_front"),
    (r"pop_front", "pop_back"), (r"pop_back", "pop_front"), (r"Ordering::Less", "Ordering::Greater"), (r"Ordering::Equal", "Ordering::Less"),
    (r"Ordering::Greater", "Ordering::Equal"), (r"NxXx::Nx\b", "NxXx::Xx"), (r"NxXx::Xx\b", "NxXx::Nx"), (r"GtLt::Gt\b", "GtLt::Lt"), (r"GtLt::Lt\b", "GtLt::Gt"),
    (r"\.rev\(\)", ""), (r"\bif (?!let)(?=.*\{$)", "if !"), (r"\bif (?!let)(?=.*\{$)", "if true || "), (r"\bif (?!let)(?=.*\{$)", "if false && "),
    (r"Bound::Included", "Bound::Excluded"), (r"Bound::Excluded", "Bound::Included"), (r"Unbounded", "Excluded"),
    (r"ExpiresAt::Last\b", "ExpiresAt::Specific(0)"), (r"ExpiresAt::Specific\(0\)", "ExpiresAt::Last"),
    (r"\.checked_add\(", ".checked_sub("), (r"\.checked_sub\(", ".checked_add("), (r"saturating_sub", "wrapping_sub"),
    (r"raw_get\(", "get("), (r"dict\.get\(", "dict.raw_get("), (r"unwrap_or\(0\)", "unwrap_or(1)"), (r"map_or\(0", "map_or(1"), (r"map_or\(true", "map_or(false"), (r"map_or\(false", "map_or(true"),
    (r"Frame::ok\(\)", "Frame::Null"), (r"Frame::Null", "Frame::ok()"), (r"notify_one\(\)", "notify_waiters()"), (r"\.lower\b", ".upper"), (r"\.upper\b", ".lower"),
    (r"\binsert\(", "get_or_insert("), (r"write_all", "write"), (r"Some\((\w+)\) =>", r"Some(\1) if false =>"),
    (r"expires_at: 0", "expires_at: 1"), (r"\.new\b", ".before"), (r"\.before\b", ".new"), (r"\bDEFAULT_FREQ\b", "0"),
]
NUM = re.compile(r"(?<![\w.\"'])(\d[\d_]*)(?![\w.]*[\"'])(?=(?:_?[ui](?:8|16|32|64|size))?\b)")


def mutants(f):
    ls = open("/repo/" + f).read().split("\n")
    out = []
    for i, l in enumerate(ls):
        if "#[cfg(test)]" in l or "#[cfg(rudis_verif)]" in l:
            if "test" in l or i + 3 > len(ls):
                break
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "debug", "info!", "error!", "warn!")):
            continue
        if re.match(r"(pub )?(const )?(async )?(fn|struct|enum|trait|impl|type)\b", s):
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if ("<" in a or ">" in a) and re.search(r"(fn|impl|->|::<|: \w+<)", code):
                    continue
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code:
                    out.append((i, n))
        for m in NUM.finditer(code):
            v = int(m.group(1).replace("_", "")) if m.group(1).strip("_") else 0
            out.append((i, code[:m.start()] + str(v + 1) + code[m.end():]))
            if v > 0:
                out.append((i, code[:m.start()] + str(v - 1) + code[m.end():]))
        if re.match(r"^[\w*&.:()\[\]]+.*;$", s) and not re.match(r"(let|return|pub|const|static|break|continue|type)\b", s):
            out.append((i, "//"))
        if re.match(r"(return|break|continue)\b.*;$", s):
            out.append((i, "//"))
    return [(f, i, n) for i, n in out]


def sh(c, t, **k):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def setup(w):
    d = f"/tmp/mut/w{w}"
    if not os.path.exists(d):
        os.makedirs(d)
        sh(f"git clone -q /repo {d}/repo && mkdir {d}/verif && cd /verif && git archive HEAD | tar -x -C {d}/verif --exclude seeded && cp -a /verif/build {d}/verif/build", 600)
        sh(f"cd {d}/verif && sed -i 's#\"/repo#\"{d}/repo#' check.py harness/Cargo.toml replay/Cargo.toml && sed -i 's/os.cpu_count() or 4/3/; s/26000/6000/' check.py", 60)
        sh(f"rm -f {d}/verif/build/*.hash", 9)
        print(w, sh(f"cd {d}/verif && python3 check.py --setup", 1200)[1][-200:], flush=True)
    return d


def worker(w, q, out, lock):
    d = setup(w)
    while True:
        with lock:
            if not q:
                return
            f, i, n = q.pop()
        clean = sh(f"git show HEAD:{f}", 9, cwd=d + "/repo")[1]
        src = clean.split("\n")
        old = src[i]
        src[i] = n
        p = f"{d}/repo/{f}"
        open(p, "w").write("\n".join(src))
        props = next((ps for r, ps in MAP if re.search(r, f)), "C06").split()
        t0 = time.time()
        res, by = "SURVIVED", ""
        for pr in props:
            rc, o = sh(f"cd {d}/verif && SYMX_TIME=120 python3 check.py {pr}", 700)
            if rc == 1:
                res, by = "caught", pr
                m = re.search(r"VIOLATION.*\n(.*)", o)
                by += " " + (m.group(1).strip() if m else "")
                break
            if rc != 0:
                if "compiling the harness" in o:
                    res = "nocompile"
                else:
                    res, by = f"rc {rc}", pr + " " + " / ".join(l for l in o.splitlines() if "ERROR" in l)[:300]
                    if "ERROR" in o and "vacuous" in o:
                        continue
                break
        open(p, "w").write(clean)
        with lock:
            out.write(json.dumps({"res": res, "by": by, "file": f, "line": i + 1, "old": old.strip(), "new": n.strip(), "t": round(time.time() - t0)}) + "\n")
            out.flush()


def main():
    outp, nw = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    per = int(sys.argv[4]) if len(sys.argv) > 4 else 6
    pat = sys.argv[5] if len(sys.argv) > 5 else "."
    rnd = random.Random(seed)
    q = []
    for f in sh("git ls-files 'component/*.rs'", 9, cwd="/repo")[1].split():
        if SKIP.search(f) or "/tests/" in f or not re.search(pat, f):
            continue
        ms = mutants(f)
        rnd.shuffle(ms)
        q += ms[:per]
    rnd.shuffle(q)
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            x = json.loads(l)
            done.add((x["file"], x["line"], x["new"]))
    q = [m for m in q if (m[0], m[1] + 1, m[2].strip()) not in done]
    print(len(q), "mutants", flush=True)
    lock = threading.Lock()
    with open(outp, "a") as out:
        ts = [threading.Thread(target=worker, args=(w, q, out, lock)) for w in range(nw)]
        [t.start() for t in ts]
        [t.join() for t in ts]


main()
