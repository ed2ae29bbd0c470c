#!/usr/bin/env python3
"""Decides one property: check.py ID (VERIF_TIER, VERIF_SEED). See DESIGN.md."""
import concurrent.futures as cf
import json, os, random, shutil, subprocess, sys, time, hashlib, re

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from about import ABOUT, ASSUMPTIONS

ROOT = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(ROOT, ".work")
TARGET = os.path.join(WORK, "target")
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEEP = TIER == "thorough"
JOBS = os.cpu_count() or 4
NIGHTLY = "+nightly"
HOST = "x86_64-unknown-linux-gnu"


class Broken(Exception):
    """The check cannot answer."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(args, env=None, cwd=ROOT, timeout=800, **kw):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- building

def cargo(crate, release=False, toolchain=None, rustflags=None, target_dir=TARGET, target=None):
    """Builds a harness crate against /repo's tree; returns {name: artifact path}."""
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--offline", "--message-format=json"]
    if release:
        cmd.append("--release")
    if target:
        cmd += ["--target", target]
    env = {"CARGO_TARGET_DIR": target_dir}
    if rustflags:
        env["RUSTFLAGS"] = rustflags
    r = sh(cmd, env=env, cwd=os.path.join(HARNESS, crate))
    if r.returncode != 0:
        msgs = []
        for line in r.stdout.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("reason") == "compiler-message" and d["message"].get("level") == "error":
                msgs.append(d["message"].get("rendered", ""))
        raise Broken("building %s failed:\n%s\n%s" % (crate, "\n".join(msgs)[-3000:], r.stderr[-1500:]))
    out = {}
    for line in r.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact":
            name = d["target"]["name"].replace("-", "_")
            libs = [f for f in d["filenames"] if f.endswith((".rlib", ".rmeta"))]
            if libs:
                # Nightly splits the metadata from the code.
                out[name] = libs[0]
                out["all:" + name] = libs
            elif d.get("executable"):
                out[name] = d["executable"]
    return out


class Profile:
    def __init__(self, name, release=False, asan=False):
        self.name, self.release, self.asan = name, release, asan
        tc = NIGHTLY if asan else None
        self.tc = tc
        td = os.path.join(WORK, "target-asan") if asan else TARGET
        art = cargo("vmon", release=release, toolchain=tc, rustflags="-Zsanitizer=address" if asan else None,
                    target_dir=td, target=HOST if asan else None)
        self.art = art
        self.deps = set()
        for k, v in art.items():
            if k.startswith("all:"):
                for f in v:
                    d = os.path.dirname(f)
                    self.deps |= {d, os.path.join(d, "deps")}

    def compile(self, src, out, env=None, meta=False):
        checks = "off" if self.release else "on"
        cmd = ["rustc"] + ([self.tc] if self.tc else []) + [
            "--edition", "2021", "-Awarnings", "-Copt-level=%d" % (1 if self.release else 0),
            "-Cdebug-assertions=" + checks, "-Coverflow-checks=" + checks, "-Cdebuginfo=0",
            "--error-format=short"]
        for d in sorted(self.deps):
            cmd += ["-L", "dependency=" + d]
        if self.asan:
            cmd += ["-Zsanitizer=address", "--target", HOST]
        for n in ("bp3d_proto", "vmon", "vir"):
            for f in self.art["all:" + n]:
                cmd += ["--extern", "%s=%s" % (n, f)]
        if meta:
            cmd += ["--emit=metadata"]
        cmd += [src, "-o", out]
        r = sh(cmd, env=env, timeout=600)
        return None if r.returncode == 0 else r.stderr


# ---------------------------------------------------------------- results

class Result:
    def __init__(self, prop):
        self.prop = prop
        self.stats = {}
        self.viols = []      # (message, replay dict)
        self.known = []
        self.samples = []
        self.units = 0       # drivers, schemas or programs run
        self.broken = []
        self.notes = {}

    def merge(self, stats):
        for k, v in stats.items():
            self.stats[k] = self.stats.get(k, 0) + v

    def viol(self, msg, **replay):
        self.viols.append((msg, replay))


def parse(res, text, where, replay):
    """Reads the lines of a monitor."""
    got = False
    for line in text.splitlines():
        if line.startswith("VIOL\t"):
            res.viol(line[5:], **replay)
        elif line.startswith("CRASH\t"):
            res.viol("crash: " + line[6:], **replay)
        elif line.startswith("STATS\t"):
            got = True
            res.merge(json.loads(line[6:]))
        elif line.startswith("SAMPLE\t"):
            if len(res.samples) < 6:
                res.samples.append(line[7:])
    return got


# ---------------------------------------------------------------- world drivers

def fresh(*parts):
    d = os.path.join(WORK, *parts)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


PARTS = {}


def salvage(vgen, out, prop, unusable):
    """Worlds out of single types of those that cannot be used: what still works is judged nevertheless."""
    rng = random.Random("%s %s" % (prop, SEED))
    alone = [n for n in unusable if n not in PARTS]
    again = [n.rsplit("_", 2) for n in alone]
    names, refused = make_worlds(vgen, out, [(f, int(s), [int(i)]) for f, s, i in again]) if alone else ([], [])
    specs = []
    for n in sorted(unusable):
        if n in names or n not in PARTS:
            continue
        s, u, m = PARTS[n]
        if prop in ("C01", "C02", "C04", "C05", "C06", "C07") or not m:
            pool = list(range(s))
        elif prop in ("C03", "C23"):
            pool = list(range(s + u + m))
        else:
            pool = list(range(s + u, s + u + m))
        f, x, i = n.rsplit("_", 2)
        specs.append((f, int(x), [int(i) + 1000000 * (1 + k) for k in rng.sample(pool, min(len(pool), 8))]))
    rng.shuffle(specs)
    return names + make_worlds(vgen, out, specs[:12])[0]


def make_worlds(vgen, out, specs):
    """specs: (family, seed, indices). Returns (names, refused)."""
    jobs = []
    for fam, seed, idx in specs:
        for i in range(0, len(idx), 4):
            jobs.append((fam, seed, idx[i:i + 4]))

    def one(j):
        try:
            return j, sh([vgen, "worlds", out, j[0], str(j[1])] + [str(i) for i in j[2]], timeout=120)
        except subprocess.TimeoutExpired:
            return j, None
    names, refused = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for j, r in ex.map(one, jobs):
            done = set()
            for line in (r.stdout.splitlines() if r else []):
                p = line.split("\t")
                if p[0] == "PARTS":
                    PARTS[p[1]] = [int(x) for x in p[2].split()]
                elif p[0] == "WORLD":
                    names.append(p[1])
                    done.add(p[1])
                elif p[0] == "REFUSED":
                    refused.append((p[1], p[2] if len(p) > 2 else "?"))
                    done.add(p[1])
            for i in j[2]:
                n = "%s_%d_%d" % (j[0], j[1], i)
                if n not in done:
                    refused.append((n, "the compiler crashed or did not end" + (" (%s)" % r.stderr[-300:] if r else "")))
    return names, refused


def schema_text(out, name):
    d = os.path.join(out, name, "schema")
    t = []
    try:
        for f in sorted(os.listdir(d)):
            t.append("// %s\n%s" % (f, open(os.path.join(d, f)).read()))
    except OSError:
        pass
    return "\n".join(t)


def compile_worlds(out, names, profile):
    """Returns ({name: binary}, {name: errors})."""
    def one(n):
        b = os.path.join(out, n, "drv-" + profile.name)
        return n, b, profile.compile(os.path.join(out, n, "main.rs"), b)
    ok, bad = {}, {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for n, b, err in ex.map(one, names):
            if err is None:
                ok[n] = b
            else:
                bad[n] = err
    return ok, bad


def run_drivers(res, out, bins, prop, ms, rounds=0, env=None, timeout=240, tag="", hang=True):
    """Runs the monitor of one property in every driver."""
    hung = []

    def one(item):
        n, b = item
        if hung:
            return n, None  # One run that does not end tells enough.
        cmd = (b if isinstance(b, list) else [b]) + [prop, str(SEED), "1" if DEEP else "0", str(ms), str(rounds)]
        try:
            return n, sh(cmd, env=env, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            hung.append(n)
            return n, e
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for n, r in ex.map(one, sorted(bins.items())):
            if r is None:
                continue
            replay = {"world": n, "schema": schema_text(out, n), "driver": "%s%s %d %d %d %d" % (prop, tag, SEED, DEEP, ms, rounds)}
            res.units += 1
            if isinstance(r, subprocess.TimeoutExpired):
                o = r.stdout or b""
                parse(res, o.decode(errors="replace") if isinstance(o, bytes) else o, n, replay)
                if hang:
                    res.viol("%s: the monitored code did not end within %d s" % (n, timeout), **replay)
                else:
                    res.broken.append("%s: timeout" % n)
                continue
            got = parse(res, r.stdout, n, replay)
            if r.returncode != 0 or not got:
                msg = r.stderr.strip()
                m = re.search(r"(error: Undefined Behavior.*?\n(?:.*\n){0,6}|ERROR: AddressSanitizer.*?\n(?:.*\n){0,8})", r.stderr)
                if m:
                    res.viol("%s: %s" % (n, m.group(1).replace("\n", " ")[:900]), **replay)
                elif "unsupported operation" in msg or "could not compile" in msg or "error: aborting due to" in msg:
                    res.broken.append("%s: %s" % (n, msg[-600:]))
                elif not any(v[1].get("world") == n for v in res.viols):
                    res.viol("%s: the monitored process died (status %s): %s" % (n, r.returncode, msg[-400:].replace("\n", " ")), **replay)


def worlds_check(prop, res, specs, ms=4000, release=False, codecs=False):
    vgen = cargo("vgen")["vgen"]
    out = fresh("run-" + prop)
    names, refused = make_worlds(vgen, out, specs)
    profiles = [Profile("debug")]
    if release:
        profiles.append(Profile("release", release=True))
    total = 0
    more = None
    for p in profiles:
        ok, bad = compile_worlds(out, names + (more or []), p)
        if more is None:
            more = salvage(vgen, out, prop, list(bad) + [n for n, _ in refused]) if bad or refused else []
            if more:
                res.notes["worlds_in_parts"] = len(more)
                ok.update(compile_worlds(out, more, p)[0])
        total += len(ok)
        for n, err in list(bad.items())[:3]:
            log("world %s does not compile: %s" % (n, err[:600]))
        res.notes["worlds_" + p.name] = len(ok)
        if bad or refused:
            res.notes["worlds_unusable"] = len(bad) + len(refused)
        if codecs:
            b = os.path.join(out, "codecs-" + p.name)
            err = p.compile(os.path.join(HARNESS, "drv", "codecs.rs"), b)
            if err:
                raise Broken("codec driver: " + err[:2000])
            ok["codecs"] = b
        run_drivers(res, out, ok, prop, ms, tag="" if p.name == "debug" else " (release)")
    for n, e in refused[:3]:
        log("world %s refused: %s" % (n, e))
    if total == 0:
        raise Broken("no world of the corpus compiles")
    add_samples(res, out, names)
    shutil.rmtree(out, ignore_errors=True)


def add_samples(res, out, names):
    for n in names[:2]:
        res.samples.append({"world": n, "schema": schema_text(out, n)[:1500]})


def span(n):
    return list(range(n))


def specs_for(prop):
    d = DEEP
    s = SEED
    more = [s, s + 1000, s + 2000] if d else [s]

    def fam(name, quick, deep):
        return [(name, x, span(deep if d else quick)) for x in more]
    bits = [("bits", s, span(24))]
    # Fields of every kind alone, and a part (or all) of those after each other.
    pairs = [("mpair", s, span(60) if d else [0, 1] + [2 + (s * 7 + k * 17) % 58 for k in range(3)])]
    messages = pairs + fam("mbasic", 6, 20) + fam("mlist", 7, 20) + fam("munion", 6, 20) + fam("mimport", 5, 20) + fam("mrand", 8, 30) + fam("large", 3, 9)
    return {
        "C01": bits + fam("srand", 10, 40) + fam("sview", 3, 12) + fam("sarr", 3, 12) + fam("large", 2, 9),
        "C02": bits + fam("srand", 10, 40) + fam("sview", 4, 12) + fam("sarr", 3, 12) + fam("large", 2, 9),
        "C03": bits + fam("srand", 6, 40) + fam("sarr", 3, 12) + fam("mbasic", 4, 20) + fam("mlist", 3, 20) + fam("munion", 2, 10) + fam("mimport", 6, 30) + fam("mrand", 6, 30) + fam("large", 2, 9),
        "C04": bits + fam("srand", 12, 60) + fam("large", 2, 9),
        "C05": fam("sview", 14, 60) + fam("srand", 4, 30),
        "C06": fam("sview", 14, 60) + fam("srand", 6, 30) + fam("large", 2, 9),
        "C07": fam("sarr", 10, 40) + fam("srand", 8, 30) + fam("large", 2, 9),
        "C13": pairs + fam("munion", 18, 70) + fam("mimport", 6, 30) + fam("mrand", 8, 30) + fam("large", 3, 9),
        "C14": pairs + fam("mlist", 14, 60) + fam("mrand", 10, 40) + fam("mimport", 6, 30) + fam("large", 3, 9),
        "C15": pairs + fam("mlist", 12, 40) + fam("mrand", 10, 30) + fam("mimport", 4, 20) + fam("large", 3, 9),
        "C23": fam("mimport", 18, 80) + fam("mrand", 9, 40) + fam("srand", 6, 30) + fam("munion", 4, 20),
    }.get(prop, messages)


def c_runtime(prop, res):
    ms = 20000 if DEEP else 3000
    worlds_check(prop, res, specs_for(prop), ms=ms,
                 release=prop in ("C01", "C07", "C10", "C14", "C15"),
                 codecs=prop in ("C01", "C02", "C10", "C17"))
    probes(prop, res)


# ---------------------------------------------------------------- C18: undefined behaviour

def miri_setup():
    """Builds the libraries under Miri; returns the command that interprets a driver."""
    td = os.path.join(WORK, "target-miri")
    shutil.rmtree(td, ignore_errors=True)
    r = sh(["cargo", NIGHTLY, "miri", "setup", "--print-sysroot"], timeout=600)
    sysroot = r.stdout.strip().splitlines()[-1] if r.returncode == 0 and r.stdout.strip() else None
    if not sysroot:
        raise Broken("miri setup failed: " + r.stderr[-1000:])
    # Any run builds the libraries.
    r = sh(["cargo", NIGHTLY, "miri", "run", "--offline", "-q", "--", "none"],
           env={"CARGO_TARGET_DIR": td, "MIRIFLAGS": "-Zmiri-disable-isolation"}, cwd=os.path.join(HARNESS, "drv"), timeout=600)
    ext, dirs = {}, set()
    for d, _, fs in os.walk(td):
        if "incremental" in d.split(os.sep):
            continue
        for f in fs:
            m = re.match(r"lib(\w+)-[0-9a-f]+\.(rmeta|rlib)$", f)
            if m and "miri" in d.split(os.sep):
                dirs.add(d)
                ext.setdefault(m.group(1), []).append(os.path.join(d, f))
    if not all(n in ext for n in ("vmon", "vir", "bp3d_proto")):
        raise Broken("building for miri failed: " + r.stderr[-2000:])
    cmd = ["rustup", "run", "nightly", "miri", "--sysroot", sysroot, "--edition", "2021", "--cap-lints", "allow",
           "-Zmiri-disable-isolation", "-Zmiri-ignore-leaks"]
    for d in sorted(dirs):
        cmd += ["-L", "dependency=" + d]
    for n in ("vmon", "vir", "bp3d_proto"):
        for f in ext[n]:
            cmd += ["--extern", "%s=%s" % (n, f)]
    return cmd


def c18(prop, res):
    vgen = cargo("vgen")["vgen"]
    out = fresh("run-" + prop)
    s = SEED
    if DEEP:
        mspec = [(f, s, span(n)) for f, n in (("bits", 24), ("srand", 12), ("sview", 8), ("sarr", 8), ("mbasic", 12), ("mlist", 14), ("munion", 12), ("mimport", 10), ("mrand", 20))]
        aspec = [(f, s + 5000, span(n)) for f, n in (("bits", 24), ("srand", 30), ("sview", 20), ("sarr", 20), ("mbasic", 30), ("mlist", 30), ("munion", 30), ("mimport", 20), ("mrand", 40), ("large", 6))]
    else:
        mspec = [("bits", s, [0, 13]), ("srand", s, span(2)), ("sview", s, span(3)), ("sarr", s, span(2)), ("mbasic", s, span(1)),
                 ("mlist", s, span(2)), ("munion", s, span(1)), ("mimport", s, span(1)), ("mrand", s, span(2))]
        aspec = [("bits", s, [1, 6, 16]), ("srand", s, [2, 3, 4]), ("sview", s, [3, 4, 5]), ("sarr", s, [2, 3, 4]), ("mbasic", s, [1, 2]),
                 ("mlist", s, [2, 3, 4]), ("munion", s, [1, 2]), ("mimport", s, [1, 2]), ("mrand", s, [2, 3, 4]), ("large", s, [0, 1])]
    mnames, _ = make_worlds(vgen, out, mspec)
    anames, _ = make_worlds(vgen, out, aspec)
    if not mnames or not anames:
        raise Broken("no world of the corpus is accepted")
    # The address sanitizer, with debug assertions and the checks of the standard library.
    p = Profile("asan", asan=True)
    ok, bad = compile_worlds(out, anames, p)
    b = os.path.join(out, "codecs-asan")
    err = p.compile(os.path.join(HARNESS, "drv", "codecs.rs"), b)
    if err:
        raise Broken("codec driver: " + err[:2000])
    ok["codecs"] = b
    t = Result(prop)
    run_drivers(t, out, ok, prop, 20000 if DEEP else 3000, tag=" (asan)", timeout=300, hang=False,
                env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1"})
    res.notes["asan_worlds"] = len(ok)
    res.notes["asan_observed"] = dict(t.stats)
    # Miri: every access is checked against the language's rules.
    base = miri_setup()
    bins = {"codecs": base + [os.path.join(HARNESS, "drv", "codecs.rs"), "--"]}
    for n in mnames:
        bins[n] = base + [os.path.join(out, n, "main.rs"), "--"]
    m = Result(prop)
    run_drivers(m, out, bins, prop, 240000 if DEEP else 60000, rounds=4 if DEEP else 1, tag=" (miri)", timeout=850, hang=False)
    res.notes["miri_worlds"] = len(bins)
    res.notes["miri_observed"] = dict(m.stats)
    for r in (t, m):
        res.units += r.units
        res.merge({k: v for k, v in r.stats.items() if k != "checks"})
        # What the monitors of other properties say is theirs to report; a panic is not undefined behaviour.
        ub = re.compile(r"Undefined Behavior|AddressSanitizer|died|unsafe precondition")
        res.viols += [v for v in r.viols if ub.search(v[0])]
        res.broken += r.broken
    res.merge({"checks": sum(res.stats.get(k, 0) for k in ("accesses", "array_accesses", "decodes", "encodes"))})
    # A world that does not compile is C21's to report.
    res.broken = [x for x in res.broken if "error[E" not in x]
    add_samples(res, out, mnames)
    shutil.rmtree(out, ignore_errors=True)


# ---------------------------------------------------------------- the compiler

def batches(prop, res, argvs, timeout=300):
    """Runs vgen monitors in parallel. argvs: lists of arguments, with {} for a scratch directory."""
    vgen = cargo("vgen")["vgen"]
    base = fresh("run-" + prop)

    def one(k):
        d = os.path.join(base, "b%d" % k)
        os.makedirs(d)
        argv = [a.replace("{}", d) for a in argvs[k]]
        try:
            r = sh([vgen] + argv, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired as e:
            r = e
        shutil.rmtree(d, ignore_errors=True)
        return argvs[k], r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for argv, r in ex.map(one, range(len(argvs))):
            what = " ".join(argv)
            res.units += 1
            if isinstance(r, subprocess.TimeoutExpired):
                res.broken.append("%s: timeout" % what)
                continue
            n = len(res.viols)
            got = parse(res, r.stdout, what, {"command": "vgen " + what})
            if (r.returncode != 0 or not got) and len(res.viols) == n:
                res.broken.append("%s: status %s: %s" % (what, r.returncode, r.stderr[-500:]))
    shutil.rmtree(base, ignore_errors=True)


def split(cmd, total, step, *more, seeds=None):
    return [[cmd, str(s), str(i), str(min(i + step, total)), "{}"] + list(more) for s in (seeds or [SEED]) for i in range(0, total, step)]


def limited():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def c19(prop, res):
    vgen = cargo("vgen")["vgen"]
    base = fresh("run-" + prop)
    step = 2500
    total = 8 * step * (40 if DEEP else 1)
    end_at = time.time() + (660 if DEEP else 400)

    def at(d):
        try:
            return open(os.path.join(d, "at")).read().strip()
        except OSError:
            return ""

    def dump(i):
        try:
            return sh([vgen, "fuzz-dump", str(SEED), str(i)], timeout=30).stdout[:20000]
        except subprocess.TimeoutExpired:
            return "?"

    def one(k):
        r0 = Result(prop)
        start, end = k * step, (k + 1) * step
        d = os.path.join(base, "b%d" % k)
        while start < end and time.time() < end_at and len(r0.viols) < 5:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            died, out = None, ""
            try:
                r = sh([vgen, "fuzz", str(SEED), str(start), str(end), d], timeout=240, cwd=d, preexec_fn=limited)
                out = r.stdout
                if r.returncode != 0:
                    died = "status %s: %s" % (r.returncode, r.stderr[-300:])
            except subprocess.TimeoutExpired as e:
                o = e.stdout or b""
                out, died = (o.decode(errors="replace") if isinstance(o, bytes) else o), "timeout"
            r0.units += 1
            got = parse(r0, out, "fuzz", {"command": "vgen fuzz %d %d %d DIR" % (SEED, start, end)})
            if died is None and got:
                break
            case = at(d)
            if not case.isdigit():
                if died:
                    r0.broken.append("fuzz %d..%d: %s at %r" % (start, end, died, case))
                break
            i = int(case)
            # Alone, with all the time it could need.
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            try:
                r = sh([vgen, "fuzz", str(SEED), str(i), str(i + 1), d], timeout=60, cwd=d, preexec_fn=limited)
                if r.returncode != 0:
                    r0.viol("case %d: the compiler died (%s) %s" % (i, r.returncode, r.stderr[-300:].replace("\n", " ")), command="vgen fuzz %d %d %d DIR" % (SEED, i, i + 1), input=dump(i))
            except subprocess.TimeoutExpired:
                r0.viol("case %d: the compiler does not end" % i, command="vgen fuzz %d %d %d DIR" % (SEED, i, i + 1), input=dump(i))
            r0.merge({"checks": i - start})
            start = i + 1
        shutil.rmtree(d, ignore_errors=True)
        return r0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(one, range(total // step)):
            res.merge(r.stats)
            res.viols += r.viols
            res.broken += r.broken
            res.units += r.units
            for x in r.samples:
                if len(res.samples) < 4:
                    res.samples.append(x)
    shutil.rmtree(base, ignore_errors=True)


def c20(prop, res):
    batches(prop, res, split("reject", 12000 if DEEP else 1200, 150), timeout=700)


def c22(prop, res):
    batches(prop, res, split("determ", 800 if DEEP else 96, 12), timeout=700)


def c24(prop, res):
    batches(prop, res, split("options", 640 if DEEP else 64, 8), timeout=700)


def c25(prop, res):
    n, k = (16, 40000) if DEEP else (8, 3000)
    batches(prop, res, [["tmpl", str(SEED * 1000 + i), str(k)] for i in range(n)], timeout=700)


def c23(prop, res):
    c_runtime(prop, res)
    batches(prop, res, split("imports", 4000 if DEEP else 400, 50) + split("reject", 4000 if DEEP else 400, 50, "imports"), timeout=700)


PROBES = os.path.join(HARNESS, "probes")


def probes(prop, res, out=None):
    """Inputs known to fail: each is identified by its file or its directory."""
    listed = {k["input"]: k for k in known_findings() if k.get("property") == prop and "input" in k}
    if not listed:
        return
    vgen = cargo("vgen")["vgen"]
    p = Profile("debug")
    base = fresh("probes-" + prop)
    for name in sorted(listed):
        d = os.path.join(base, os.path.basename(name))
        os.makedirs(d)
        src = os.path.join(ROOT, name)
        if os.path.isdir(src):
            files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".json5"))
            main = os.path.join(src, "main.rs")
        else:
            files, main = [src], os.path.join(d, "main.rs")
        r = sh([vgen, "probe"] + files + [d], timeout=60)
        err = None
        if r.returncode != 0:
            err = r.stdout.strip() + r.stderr[-300:]
        elif os.path.isdir(src):
            err = p.compile(main, os.path.join(d, "probe"), env={"GEN_DIR": d})
            if not err:
                r = sh([os.path.join(d, "probe")], timeout=60)
                err = r.stdout + r.stderr if r.returncode != 0 else None
        else:
            err = p.compile(main, os.path.join(d, "meta"), meta=True)
        if err:
            res.known.append("%s: %s" % (name, listed[name]["what"]))
            log("%s: %s" % (name, err[:200]))
        res.merge({"probes": 1})
    shutil.rmtree(base, ignore_errors=True)


def c21(prop, res):
    """Everything well-formed is accepted, and what is generated compiles."""
    vgen = cargo("vgen")["vgen"]
    out = fresh("run-" + prop)
    n = 60 if DEEP else 14
    specs = [("bits", SEED, span(24)), ("mpair", SEED, span(60))]
    for s in [SEED, SEED + 1000, SEED + 2000] if DEEP else [SEED]:
        specs += [(f, s, span(n)) for f in ("srand", "sview", "sarr", "mbasic", "mlist", "munion")] + [(f, s, span(3 * n)) for f in ("mimport", "mrand")] + [("large", s, span(6 if DEEP else 3))]
    names, refused = make_worlds(vgen, out, specs)
    for n, e in refused:
        res.viol("%s: a well-formed schema is refused: %s" % (n, e), world=n, schema=schema_text(out, n))
    p = Profile("debug")
    res.merge({"schemas": len(names) + len(refused)})

    def one(n):
        return n, p.compile(os.path.join(out, n, "main.rs"), os.path.join(out, n, "drv.rmeta"), meta=True)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for n, err in ex.map(one, names):
            if err:
                res.viol("%s: the generated code does not compile, or lacks declared parts: %s" % (n, err[:700].replace("\n", " ")), world=n, schema=schema_text(out, n), errors=err[:8000])
            else:
                res.merge({"compiled": 1})
    # Some of them all the way to a program.
    full = [n for n in names if n.split("_")[-1] in ("0", "1")][:20]
    ok, bad = compile_worlds(out, full, p)
    for n, err in bad.items():
        res.viol("%s: the generated code does not compile: %s" % (n, err[:700].replace("\n", " ")), world=n, schema=schema_text(out, n))
    run_drivers(res, out, ok, prop, 1000)
    res.merge({"checks": 2 * len(names) + len(refused) + len(full)})
    res.stats["distinct"] = len({hashlib.sha1(schema_text(out, n).encode()).digest() for n in names})
    res.units = len(names) + len(refused)
    probes(prop, res)
    add_samples(res, out, names)
    shutil.rmtree(out, ignore_errors=True)
    batches(prop + "-parts", res, split("forms", 400 if DEEP else 64, 8), timeout=700)


CHECKS = {p: c_runtime for p in ["C%02d" % i for i in range(1, 18)]}
CHECKS.update(C18=c18, C19=c19, C20=c20, C21=c21, C22=c22, C23=c23, C24=c24, C25=c25)



# ---------------------------------------------------------------- main

def known_findings():
    p = os.path.join(ROOT, "known-findings.json")
    try:
        return json.load(open(p))["findings"]
    except OSError:
        return []


def main():
    prop = sys.argv[1]
    if prop == "setup":
        os.makedirs(WORK, exist_ok=True)
        cargo("vgen")
        for p in (Profile("debug"), Profile("release", release=True), Profile("asan", asan=True)):
            log("built", p.name)
        miri_setup()
        return
    t0 = time.time()
    res = Result(prop)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        CHECKS[prop](prop, res)
    except Broken as e:
        log("CHECK-ERROR %s: %s" % (prop, e))
        sys.exit(2)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": res.stats.get("checks", 0),
            "distinct_nontrivial": res.stats.get("distinct", 0),
            "rule": ABOUT[prop][2],
            "samples": res.samples[:6] or ["none"],
            "units_run": res.units,
            "observed": {k: v for k, v in res.stats.items() if k not in ("checks", "distinct", "violations")},
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(res.viols),
    }
    ev["coverage"].update(res.notes)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k in res.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if res.viols:
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (msg, replay) in enumerate(res.viols[:20]):
            path = os.path.join(rd, "%s-%d.json" % (prop, i))
            json.dump({"property": prop, "violation": msg, "tier": TIER, "seed": SEED, **replay}, open(path, "w"), indent=1)
            if i < 5:
                log(msg[:600])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        sys.exit(1)
    if res.broken:
        log("CHECK-ERROR %s: %s" % (prop, res.broken[:3]))
        sys.exit(2)
    if res.stats.get("checks", 0) == 0:
        log("CHECK-ERROR %s: nothing was observed" % prop)
        sys.exit(2)
    log("%s: held; %s, %.0f s" % (prop, res.stats, time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
