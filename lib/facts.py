"""Build the facts (resolved MIR of the workspace in /repo) and load them."""
import fcntl, glob, hashlib, json, os, pickle, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
LIBS = ["pest3_core", "pest3_meta", "pest3_generator", "pest3_derive", "pest3"]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    cb = os.path.join(e["HOME"], ".cargo/bin")
    for p in (cb, "/usr/local/cargo/bin", "/usr/local/bin", "/usr/bin", "/bin"):
        if p not in e.get("PATH", "").split(":"):
            e["PATH"] = e.get("PATH", "") + ":" + p
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET_DIR", "RUSTC", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def source_files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules"))
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def content_key():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, "driver"),
                 os.path.join(VERIF, "models"), os.path.join(VERIF, "witness")):
        for p in source_files(root):
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def run(cmd, e, cwd, limit=None):
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 124
        f.seek(0)
        return rc, f.read().decode("utf-8", "replace")


def sysroot(e):
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"], e, VERIF)
    if rc:
        raise BuildError("no nightly toolchain: " + out)
    return out.strip().splitlines()[-1]


def build_driver(e):
    src = os.path.join(VERIF, "driver")
    td = os.path.join(WORK, "driver")
    rc, out = run(["cargo", "+nightly", "build", "--offline", "--target-dir", td], e, src)
    if rc:
        raise BuildError("driver does not build:\n" + out[-3000:])
    return os.path.join(td, "debug", "mirfacts")


def witness_modules():
    """[(module, [(grammar file, inline)], attributes, parser struct)]"""
    out = []
    with open(os.path.join(VERIF, "witness", "modules.txt")) as f:
        for l in f:
            if l.strip() and not l.startswith("#"):
                c = [x.strip() for x in l.split("|")]
                out.append((c[0], [(g.split(":")[-1], g.startswith("inline:")) for g in c[1].split()], c[2] if len(c) > 2 else "", c[3] if len(c) > 3 else "pub struct P;"))
    return out


def check_modules(w, e, td, mods):
    """Type-check a crate of one module per entry of `mods` [(name, text)], leaving out those that are
    reported, until the rest compiles; {name: messages} ("*" when the errors belong to no module)"""
    name = os.path.basename(w)
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, w)
    os.makedirs(os.path.join(w, "src"))
    with open(os.path.join(w, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                'pest3 = { path = "%s/pest" }\npest3_derive = { path = "%s/derive" }\n' % (name, REPO, REPO))
    failed = {}
    for _ in range(6):
        lines, owner = ["#![allow(warnings)]"], {}
        for n, t in mods:
            if n in failed:
                continue
            for l in t.split("\n"):
                lines.append(l)
                owner[len(lines)] = n
        with open(os.path.join(w, "src", "lib.rs"), "w") as f:
            f.write("\n".join(lines) + "\n")
        for p in glob.glob(os.path.join(td, "debug/.fingerprint/%s*" % name)):
            shutil.rmtree(p, ignore_errors=True)
        rc, o = run(["cargo", "+nightly", "check", "--offline", "--message-format=json", "--target-dir", td], e, w, 240)
        if rc == 0:
            break
        new = {}
        for l in o.splitlines():
            if not l.startswith("{"):
                continue
            m = json.loads(l).get("message")
            if not isinstance(m, dict) or m.get("level") != "error":
                continue
            for sp in m.get("spans", []):
                while sp.get("expansion"):
                    sp = sp["expansion"]["span"]
                if sp["file_name"].endswith("lib.rs"):
                    n = owner.get(sp["line_start"])
                    if n:
                        msg = m["message"]
                        for ch in m.get("children", []):
                            msg += "; " + ch["message"]
                        new.setdefault(n, []).append(msg)
        if not new:
            failed["*"] = [o[-3000:]]
            break
        failed.update(new)
    return failed


def crate_dir(name):
    w = os.path.join(WORK, name)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    return w


def build_witness(e, out, td):
    """Type-check the witness grammars against the tree's derive macro.

    A module that does not compile is recorded in witness.failed (with the compiler's message) and
    left out, so that the others still produce facts."""
    src = os.path.join(VERIF, "witness")
    w = crate_dir("witness")
    shutil.copytree(os.path.join(src, "g"), os.path.join(w, "g"))
    mods = []
    for name, gs, attrs, struct in witness_modules():
        t = "pub mod %s { #[derive(pest3_derive::Parser)] " % name
        for g, inline in gs:
            if inline:
                with open(os.path.join(src, g)) as f:
                    t += '#[grammar_inline = r####"%s"####] ' % f.read()
            else:
                t += '#[grammar = "%s"] ' % g
        mods.append((name, t + attrs + " " + struct + " }"))
    failed = check_modules(w, e, td, mods)
    with open(os.path.join(out, "witness.failed"), "w") as f:
        json.dump(failed, f)


def reject_cases():
    """[(name, text)] of the grammars no parser may be derived from"""
    with open(os.path.join(VERIF, "witness", "reject.txt")) as f:
        t = f.read()
    out = []
    for part in t.split("=== ")[1:]:
        name, text = part.split("\n", 1)
        out.append((name.strip(), text[:-1]))
    return out


def build_reject(e, out, td):
    """Expand the derive for grammars that are not valid; every one has to be reported by the compiler."""
    w = crate_dir("reject")
    shutil.copytree(os.path.join(VERIF, "witness", "g"), os.path.join(w, "r"))
    mods = []
    for name, text in reject_cases():
        with open(os.path.join(w, "r", name + ".pest"), "w") as f:
            f.write(text)
        mods.append((name, 'pub mod %s { #[derive(pest3_derive::Parser)] #[grammar = "r/%s.pest"] pub struct P; }' % (name, name)))
    failed = check_modules(w, e, td, mods)
    with open(os.path.join(out, "reject.failed"), "w") as f:
        json.dump(failed, f)


def build(tests=True):
    """Return the directory with the JSON facts of the current tree of REPO."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = content_key()
        d = os.path.join(WORK, "facts", key)
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d)
            return d
        e = env()
        drv = build_driver(e)
        out = os.path.join(WORK, "facts", "tmp%d" % os.getpid())
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(e), "lib")
        e["MIRFACTS_OUT"] = out
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        td = os.path.join(WORK, "target")
        # cargo's freshness cache would skip the wrapper: drop the workspace's own units
        for pat in ("debug/.fingerprint/pest3*", "debug/build/pest3*", "debug/deps/*pest3*",
                    "debug/incremental/*"):
            for p in glob.glob(os.path.join(td, pat)):
                if os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
                else:
                    os.unlink(p)
        cmd = ["cargo", "+nightly", "check", "--offline", "--workspace", "--lib", "--bins",
               "--target-dir", td]
        rc, o = run(cmd, e, REPO)
        if rc:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError("cargo check failed on the tree:\n" + o[-4000:])
        missing = [c for c in LIBS if not os.path.exists(os.path.join(out, c + ".json"))]
        if missing:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError("no facts produced for " + ", ".join(missing))
        rc, o = run([drv, "rustc", "--crate-type", "lib", "--crate-name", "models", "--edition", "2021",
                     os.path.join(VERIF, "models", "lib.rs"), "--emit=metadata",
                     "-o", os.path.join(out, "models.rmeta")], e, VERIF)
        if rc:
            raise BuildError("the models do not compile:\n" + o[-3000:])
        build_witness(e, out, td)
        build_reject({k: v for k, v in e.items() if k != "RUSTC_WORKSPACE_WRAPPER"}, out, td)
        if key != content_key():
            raise BuildError("the tree changed while it was analysed")
        open(os.path.join(out, "ok"), "w").close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(out, d)
        # keep the cache small
        ds = sorted(glob.glob(os.path.join(WORK, "facts", "*")), key=os.path.getmtime)
        for x in ds[:-4]:
            shutil.rmtree(x, ignore_errors=True)
        return d


class Crate:
    def __init__(self, j):
        self.name = j["crate"]
        self.fns = {f["id"]: f for f in j["fns"]}
        self.adts = {a["id"]: a for a in j["adts"]}
        self.impls = j["impls"]
        self.aliases = {a["id"]: a for a in j["aliases"]}
        self.statics = j["statics"]
        self.consts = {c["id"]: c for c in j["consts"]}
        self.mods = {m["mod"]: m["items"] for m in j["mods"] if "mod" in m}
        self.traits = {m["trait"]: m["items"] for m in j["mods"] if "trait" in m}


class Program:
    """All crates together."""

    def __init__(self, d, crates):
        self.dir = d
        self.crates = {}
        self.fns, self.adts, self.consts, self.aliases = {}, {}, {}, {}
        self.impls, self.mods, self.traits = [], {}, {}
        for c in crates:
            p = os.path.join(d, c + ".json")
            pk = p + ".pkl"
            if os.path.exists(pk):
                with open(pk, "rb") as f:
                    cr = pickle.load(f)
            else:
                with open(p) as f:
                    cr = Crate(json.load(f))
                tmp = pk + ".tmp%d" % os.getpid()
                with open(tmp, "wb") as f:
                    pickle.dump(cr, f)
                os.rename(tmp, pk)
            self.crates[c] = cr
            self.fns.update(cr.fns)
            self.adts.update(cr.adts)
            self.consts.update(cr.consts)
            self.aliases.update(cr.aliases)
            self.impls += cr.impls
            self.mods.update(cr.mods)
            self.traits.update(cr.traits)
        # (trait, method) -> [fn]
        self.trait_fns = {}
        for f in self.fns.values():
            if "trait" in f:
                self.trait_fns.setdefault((f["trait"], f["name"]), []).append(f)
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f["path"], []).append(f)

    def fn(self, path):
        return self.by_path.get(path, [])


_cache = {}


def rejected():
    """{name of a grammar that is not valid: messages of the compiler}"""
    with open(os.path.join(build(), "reject.failed")) as f:
        return json.load(f)


def witness():
    """(crate of the witness grammars or None, {module: messages})"""
    d = build()
    with open(os.path.join(d, "witness.failed")) as f:
        failed = json.load(f)
    if not os.path.exists(os.path.join(d, "witness.json")):
        return None, failed
    k = (d, "witness")
    if k not in _cache:
        _cache[k] = Program(d, ["witness"]).crates["witness"]
    return _cache[k], failed


def program(crates=("pest3_core", "pest3_meta", "pest3_generator", "pest3_derive", "pest3", "models")):
    d = build()
    k = (d, tuple(crates))
    if k not in _cache:
        _cache[k] = Program(d, crates)
    return _cache[k]
