#!/usr/bin/env python3
"""Measures the checks with mechanical changes to /repo (a tool for development; no check uses it).

mutate.py list DIR            write all candidate changes to DIR/cands.json
mutate.py filter DIR N JOBS   sample N candidates, keep those that build and pass the tests (DIR/alive.json)
mutate.py run DIR JOBS [LIMIT]  run the first LIMIT (5) likely checks on the kept ones (DIR/result.json); in mount namespaces over copies
mutate.py show DIR            what was not caught
"""
import concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, tempfile

REPO, VERIF = "/repo", "/verif"


def sources():
    out = []
    for d in ("runtime/src", "compiler/src"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            if "/swift" in root:
                continue
            for f in fs:
                if f.endswith((".rs", ".template")):
                    out.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(out)


SWAPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
    (r" < ", " > "), (r" > ", " < "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r" && ", " || "), (r" \|\| ", " && "), (r" << ", " >> "), (r" >> ", " << "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bLittle\b", "Big"), (r"\bBig\b", "Little"),
    (r"\b(\w*)LE\b", r"\1BE"), (r"\b(\w*)BE\b", r"\1LE"), (r"_le\b", "_be"), (r"_be\b", "_le"),
    (r"Error::Truncated", "Error::InvalidUtf8"), (r"Error::InvalidUtf8", "Error::Truncated"),
    (r"!(?=[a-z(])", ""), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"checked_mul", "checked_add"), (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"\.join\(\"\\n\"\)", ".join(\"\")"),
    (r"unwrap_or\(0\)", "unwrap_or(1)"), (r"\.skip\(1\)", ""), (r"\.rev\(\)", ""), (r"InvalidType", "InvalidView"),
    (r" as u32", " as u16"), (r" as u16", " as u8"), (r" as i64", " as i32"), (r" as u64", " as u32"), (r" as f64", " as f32"),
    (r"\bu8\b", "u16"), (r"\bu16\b", "u8"), (r"\bu16\b", "u32"), (r"\bu32\b", "u16"), (r"\bu32\b", "u64"), (r"\bu64\b", "u32"), (r"\bu64\b", "u128"),
    (r"Some\((\w+)\) =>", r"Some(\1) if false =>"),
    (r"(?<![\w.])\.\.=", ".."), (r"unsigned", "signed"), (r"from_be", "from_le"), (r"from_le", "from_be"), (r"_offsets\b", ""), (r"\bInt(\d+)\b", r"UInt\1"), (r"\bUInt(\d+)\b", r"Int\1"),
]


def candidates(path):
    text = open(os.path.join(REPO, path)).read()
    lines = text.split("\n")
    out = []
    for n, l in enumerate(lines):
        s = l.strip()
        if "#[cfg(test)]" in s:
            break
        if not s or s.startswith(("//", "use ", "pub use ", "#[", "mod ", "pub mod ")):
            continue
        seen = set()

        def add(new):
            if new != l and new not in seen:
                seen.add(new)
                out.append((path, n, l, new))
        for a, b in SWAPS:
            for m in re.finditer(a, l):
                add(l[:m.start()] + m.expand(b) + l[m.end():])
        for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.])", l):
            v = int(m.group(1))
            add(l[:m.start()] + str(v + 1) + l[m.end():])
            if v > 0:
                add(l[:m.start()] + str(v - 1) + l[m.end():])
        for m in re.finditer(r" (&&|\|\|) ", l):
            # One side only.
            k = re.search(r"[^&|(]*$", l[:m.start()])
            add(l[:m.start()] + re.sub(r"^[^&|){]*", " " if "{" in l[m.end():] else "", l[m.end():], count=1))
        if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ", "pub ", "static ")) and path.endswith(".rs"):
            add(l[:len(l) - len(l.lstrip())] + "();")
        if path.endswith(".template") and not s.startswith("#fragment"):
            add("")
        if re.match(r"^\s*(.*) => (.*),$", l) and path.endswith(".rs"):
            nxt = lines[n + 1] if n + 1 < len(lines) else ""
            m1, m2 = re.match(r"^(\s*.*? => )(.*?),?$", l), re.match(r"^(\s*.*? => )(.*?),?$", nxt)
            if m1 and m2 and not m1.group(2).endswith("{") and not m2.group(2).endswith("{"):
                add(m1.group(1) + m2.group(2) + ",")
    return out


def copy_repo(d):
    subprocess.run(["cp", "-a", REPO, d], check=True)


def apply(repo, c):
    p = os.path.join(repo, c[0])
    lines = open(p).read().split("\n")
    assert lines[c[1]] == c[2], c
    lines[c[1]] = c[3]
    open(p, "w").write("\n".join(lines))


def undo(repo):
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)


def passes(repo, c):
    undo(repo)
    apply(repo, c)
    try:
        r = subprocess.run(["cargo", "test", "--offline", "-q", "--workspace"], cwd=repo, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=180)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        undo(repo)


def filt(d, n, jobs):
    cands = json.load(open(os.path.join(d, "cands.json")))
    done = {tuple(c[:4]) for c in json.load(open(os.path.join(d, "tried.json")))} if os.path.exists(os.path.join(d, "tried.json")) else set()
    cands = [c for c in cands if tuple(c) not in done]
    random.Random(len(done) + 7).shuffle(cands)
    cands = cands[:n]
    alive = json.load(open(os.path.join(d, "alive.json"))) if os.path.exists(os.path.join(d, "alive.json")) else []
    import queue, threading
    q = queue.Queue()
    for c in cands:
        q.put(c)
    lock = threading.Lock()
    count = [0, 0]

    def work(k):
        repo = os.path.join(d, "repo%d" % k)
        if not os.path.exists(repo):
            copy_repo(repo)
        else:
            subprocess.run(["git", "-C", repo, "pull", "-q"], check=False)
        while True:
            try:
                c = q.get_nowait()
            except queue.Empty:
                return
            ok = passes(repo, c)
            with lock:
                count[0] += 1
                if ok:
                    count[1] += 1
                    alive.append(c)
                if count[0] % 20 == 0:
                    print(count, flush=True)
                    json.dump(alive, open(os.path.join(d, "alive.json"), "w"))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump(alive, open(os.path.join(d, "alive.json"), "w"))
    json.dump([list(c) for c in done] + cands, open(os.path.join(d, "tried.json"), "w"))
    print(count)


# Which checks are likely to see a change of a file, in order; the rest follows.
ORDER = {
    "runtime/src/codec/bits.rs": "C01 C02 C03 C04", "runtime/src/codec/bytes.rs": "C01 C02 C03 C04 C18", "runtime/src/codec/arrays.rs": "C07",
    "runtime/src/message": "C09 C10 C12 C14 C15 C17 C16 C08 C11 C13", "runtime/src/util": "C09 C01",
    "compiler/src/gen/template.rs": "C25", "compiler/src/gen/rust/struct": "C01 C02 C06 C05 C07 C04 C21", "compiler/src/gen/base/struct": "C01 C02 C06 C05 C07 C04 C21",
    "compiler/src/gen/rust/union": "C13 C21 C09", "compiler/src/gen": "C21 C09 C12 C13 C24 C22 C10", "compiler/src/compiler": "C20 C21 C01 C09 C13 C05 C19",
    "compiler/src/model": "C20 C19 C21 C09 C03", "compiler/src": "C24 C22 C23 C19 C20",
}
ALL = ["C%02d" % k for k in range(1, 26)]


def order(path):
    for k, v in ORDER.items():
        if path.startswith(k):
            v = v.split()
            return v + [c for c in ALL if c not in v]
    return ALL


def one(d, k, c, limit):
    repo, verif = os.path.join(d, "repo%d" % k), os.path.join(d, "verif%d" % k)
    undo(repo)
    apply(repo, c)
    try:
        for chk in order(c[0])[:limit]:
            cmd = "mount --bind %s /repo && mount --bind %s /verif && cd /verif && exec python3 check.py %s" % (repo, verif, chk)
            r = subprocess.run(["unshare", "-Urm", "sh", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1500)
            if r.returncode == 1 and "VIOLATION property=" + chk in r.stdout:
                return chk, None
            if r.returncode != 0:
                return chk, "rc %d: %s" % (r.returncode, r.stdout[-600:])
        return None, None
    finally:
        undo(repo)


AGAIN = [("runtime", "C01 C02 C03 C04 C07 C10 C18 C14 C15"), ("compiler/src/gen/template", "C25 C21"), ("compiler/src/gen", "C21 C22 C01 C02"), ("compiler/src/compiler", "C21 C20 C19 C01 C06 C09 C13"), ("compiler", "C19 C21 C20 C23")]


def again(d, jobs):
    """What survived, with other checks."""
    rp = os.path.join(d, "result.json")
    res = json.load(open(rp))
    left = [r[0] for r in res if r[1] is None]
    json.dump([r for r in res if r[1] is not None], open(rp, "w"))
    ap = os.path.join(d, "alive.json")
    alive = json.load(open(ap))
    json.dump(left, open(ap, "w"))
    global order
    order = lambda path: [v for k, v in AGAIN if path.startswith(k)][0].split()
    try:
        run(d, jobs, 20)
    finally:
        json.dump(alive, open(ap, "w"))
        done = {tuple(r[0]) for r in json.load(open(rp))}
        res = json.load(open(rp)) + [[c, None, None] for c in left if tuple(c) not in done]
        json.dump(res, open(rp, "w"))


def run(d, jobs, limit=5):
    alive = json.load(open(os.path.join(d, "alive.json")))
    rp = os.path.join(d, "result.json")
    res = json.load(open(rp)) if os.path.exists(rp) else []
    done = {tuple(r[0]) for r in res}
    todo = [c for c in alive if tuple(c) not in done]
    import queue, threading
    q = queue.Queue()
    for c in todo:
        q.put(c)
    lock = threading.Lock()

    def work(k):
        verif = os.path.join(d, "verif%d" % k)
        if not os.path.exists(verif):
            subprocess.run(["cp", "-a", VERIF, verif], check=True)
        while not os.path.exists(os.path.join(d, "stop")):
            try:
                c = q.get_nowait()
            except queue.Empty:
                return
            try:
                a, b = one(d, k, c, limit)
            except subprocess.TimeoutExpired:
                a, b = None, "timeout"
            with lock:
                res.append([c, a, b])
                json.dump(res, open(rp, "w"))
                print(a, b and b[:100], c[0], c[1] + 1, c[3].strip()[:120], flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def main():
    a, d = sys.argv[1], sys.argv[2]
    os.makedirs(d, exist_ok=True)
    if a == "list":
        cs = [c for p in sources() for c in candidates(p)]
        json.dump(cs, open(os.path.join(d, "cands.json"), "w"))
        print(len(cs))
    elif a == "filter":
        filt(d, int(sys.argv[3]), int(sys.argv[4]))
    elif a == "run":
        run(d, *map(int, sys.argv[3:]))
    elif a == "again":
        again(d, int(sys.argv[3]))
    else:
        for c, a, b in json.load(open(os.path.join(d, "result.json"))):
            if a is None or b:
                print(a, b, "\n  %s:%d\n  - %s\n  + %s" % (c[0], c[1] + 1, c[2].strip(), c[3].strip()))


main()
