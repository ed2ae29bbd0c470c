"""Builds the demonstration against the current directory's crates and runs it."""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
conf = {'files': ['main.rs'], 'cargo': ['run'], 'env': {}}
toml = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bp3d-proto = { path = "%s/runtime" }
bp3d-protoc = { path = "%s/compiler" }
""" % (repo, repo)
if "build.rs" in conf["files"]:
    toml += "[build-dependencies]\nbp3d-protoc = { path = \"%s/compiler\" }\n" % repo
with tempfile.TemporaryDirectory(prefix="demo.") as d:
    os.mkdir(os.path.join(d, "src"))
    for f in conf["files"]:
        shutil.copy(os.path.join(here, f), os.path.join(d, "src", f) if f == "main.rs" else os.path.join(d, f))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(toml)
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), TMPDIR=d)
    env.pop("RUSTFLAGS", None)
    env.update(conf["env"])
    cmd = ["cargo"] + conf["cargo"] + ["--offline", "-q"]
    r = subprocess.run(cmd, cwd=d, env=env)
    if r.returncode != 0:
        print("the demonstration failed: exit", r.returncode)
        sys.exit(1)
print("the property holds here")
