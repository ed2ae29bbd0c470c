#!/usr/bin/env python3
"""Writes /verif/seeded/ from seeds.py and confirms each planted bug in a scratch copy of /repo.

mkseed.py write [ID..]    write the folders (patch.diff, demo.sh, run.py, meta.json, sources)
mkseed.py confirm [ID..]  tests pass and demo fails with the patch, demo passes without
mkseed.py run [ID..]      apply to /repo, run the checks named in the seed, undo
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
OUT = os.path.join(ROOT, "seeded")
# Changes of templates, and of lines that repairs have added, do not count as planted bugs; they are kept apart.
TEMPLATES = os.path.join(HERE, "template_bugs")


def place(seed):
    return os.path.join(TEMPLATES if seed.get("extra") or any(e[0].endswith(".template") for e in seed["edits"]) else OUT, seed["id"])


RUN = '''"""Builds the demonstration against the current directory's crates and runs it."""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
conf = %(conf)r
toml = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bp3d-proto = { path = "%%s/runtime" }
bp3d-protoc = { path = "%%s/compiler" }
""" %% (repo, repo)
if "build.rs" in conf["files"]:
    toml += "[build-dependencies]\\nbp3d-protoc = { path = \\"%%s/compiler\\" }\\n" %% repo
with tempfile.TemporaryDirectory(prefix="demo.") as d:
    os.mkdir(os.path.join(d, "src"))
    for f in conf["files"]:
        shutil.copy(os.path.join(here, f), os.path.join(d, "src", f) if f == "main.rs" else os.path.join(d, f))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(toml)
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), TMPDIR=d)
    env.pop("RUSTFLAGS", None)
    env.update(conf["env"])
    cmd = ["cargo"] + conf["cargo"] + ["--offline", "-q"]
    r = subprocess.run(cmd, cwd=d, env=env)
    if r.returncode != 0:
        print("the demonstration failed: exit", r.returncode)
        sys.exit(1)
print("the property holds here")
'''

DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it does not. Run with the repository as the current directory.
exec python3 "$(dirname "$0")/run.py"
'''


def git(d, *a):
    return subprocess.run(["git", "-C", d] + list(a), check=True, capture_output=True, text=True).stdout


def apply_edits(repo, edits):
    for path, old, new in edits:
        p = os.path.join(repo, path)
        s = open(p, newline="").read()
        n = s.count(old)
        nth = None
        if isinstance(new, tuple):
            nth, new = new
        if nth is None:
            assert n == 1, "%s: %d matches of %r" % (path, n, old)
            s = s.replace(old, new)
        else:
            assert n > nth, (path, old, n)
            i = -1
            for _ in range(nth + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w", newline="").write(s)


def original(repo, diff):
    """Every removed line comes from the base commit."""
    base = git(repo, "rev-list", "--max-parents=0", "HEAD").split()[0]
    bad, cur, line = [], None, 0
    removed = 0
    for l in diff.splitlines():
        if l.startswith("--- "):
            cur = l[6:]
        elif l.startswith("@@"):
            line = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-"):
            b = git(repo, "blame", "-l", "-s", "-L", "%d,%d" % (line, line), "HEAD", "--", cur).split()[0].lstrip("^")
            if not base.startswith(b[:30]):
                bad.append(l)
            removed += 1
            line += 1
        elif l.startswith(" "):
            line += 1
    if not removed:
        bad.append("nothing removed")
    return bad


def write(seed):
    d = place(seed)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    with tempfile.TemporaryDirectory(prefix="seed.") as t:
        r = os.path.join(t, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        apply_edits(r, seed["edits"])
        diff = git(r, "diff")
        bad = original(r, diff)
        if bad:
            print(seed["id"], "NOT ORIGINAL:", bad)
    open(os.path.join(d, "patch.diff"), "w", newline="").write(diff)
    files = {"main.rs": seed["main"]}
    if seed.get("schemas"):
        files.update({k + ".json5": v for k, v in seed["schemas"].items()})
        loads = seed.get("loads") or "".join('loader.load("%s.json5")?;' % k for k in seed["schemas"])
        files["build.rs"] = """use bp3d_protoc::generate_rust;
fn main() {
    generate_rust(|loader| { %s Ok(()) }, |p| p.set_reads_messages(true).set_writes_messages(true));
}
""" % loads
        files["main.rs"] = "#![allow(dead_code, unused)]\n" + "".join('include!(env!("BP3D_PROTOC_%s"));\n' % k.upper()
                                   for k in seed["schemas"]) + seed["main"]
    for k, v in files.items():
        open(os.path.join(d, k), "w").write(v)
    conf = {"files": sorted(files), "cargo": seed.get("cargo", ["run"]), "env": seed.get("env", {})}
    open(os.path.join(d, "run.py"), "w").write(RUN % {"conf": conf})
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(DEMO)
    os.chmod(p, 0o755)
    json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def demo(seed, repo):
    try:
        r = subprocess.run(["bash", os.path.join(place(seed), "demo.sh")], cwd=repo, capture_output=True, text=True,
                       timeout=300)
        return r.returncode, (r.stdout + r.stderr)
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def confirm(seed):
    with tempfile.TemporaryDirectory(prefix="seed.") as t:
        r = os.path.join(t, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        git(r, "checkout", "-q", "--", ".")
        rc0, out0 = demo(seed, r)
        git(r, "apply", os.path.join(place(seed), "patch.diff"))
        rc1, out1 = demo(seed, r)
        tests = subprocess.run("cargo test --workspace --offline -- --test-threads 8 2>&1", shell=True, cwd=r,
                               capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR=r + "/target"))
        passed = sum(int(l.split("ok. ")[1].split()[0]) for l in tests.stdout.splitlines() if "test result: ok. " in l)
        ok = rc0 == 0 and rc1 != 0 and passed == 26 and tests.returncode == 0
        print(seed["id"], "OK" if ok else "NOT CONFIRMED", "demo", rc0, rc1, "tests", tests.returncode, passed, flush=True)
        if rc0 != 0:
            print(out0[-1500:])
        if not ok and rc0 == 0:
            print(out1[-800:], tests.stdout[-1500:])
        elif ok:
            tail = [l for l in out1.splitlines() if l.strip() and "RUST_BACKTRACE" not in l and "demonstration failed" not in l]
            print("      ", " | ".join(tail)[-400:])


def run(seed):
    assert git("/repo", "status", "--porcelain").strip() == ""
    patch = os.path.join(place(seed), "patch.diff")
    git("/repo", "apply", patch)
    try:
        for c in [seed["property"]] + seed.get("also", []):
            r = subprocess.run(["python3", "check.py", c], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(seed["id"], c, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, r.stderr[-300:]), flush=True)
    finally:
        git("/repo", "checkout", "--", ".")


if __name__ == "__main__":
    from seeds import SEEDS
    import seeds2, seeds3, seeds5
    ids = sys.argv[2:]
    assert len({s["id"] for s in SEEDS}) == len(SEEDS)
    for s in SEEDS:
        if not ids or s["id"] in ids or any(s["id"].startswith(i) for i in ids):
            {"write": write, "confirm": confirm, "run": run}[sys.argv[1]](s)
