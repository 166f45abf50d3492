"""Builds everything a check needs from /repo's current working tree, under /verif/build.
Content-keyed: nothing is rebuilt when the inputs did not change."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SHADOW = os.path.join(BUILD, "shadow")
TOOLCHAIN = "nightly-2020-07-27"
LOCKFILE = "/opt/vp/Cargo.lock.rexpat"


class BuildError(Exception):
    pass


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def env(rustflags=None, toolchain=TOOLCHAIN):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith("CARGO") and k not in ("RUSTFLAGS", "RUSTC", "RUSTDOCFLAGS", "RUSTC_WRAPPER")}
    # cargo and rustup state of the account; the check may run with another HOME
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    return e


def run(cmd, cwd=None, e=None, timeout=600):
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode("utf-8", "replace")[-6000:])
        raise BuildError("command failed (%d): %s" % (p.returncode, " ".join(cmd)))
    log("%.1fs %s" % (time.time() - t, " ".join(cmd)[:150]))
    return p.stdout


def make_shadow():
    """a directory that looks like /repo with a buildable manifest (the `wchar` dependency, whose
    source is not in the tree, dropped as /opt/vp/prepare.sh does)"""
    os.makedirs(SHADOW, exist_ok=True)
    want = set()
    for n in os.listdir(REPO):
        if n in ("Cargo.toml", "Cargo.lock", "target", "deps", ".git"):
            continue
        want.add(n)
        p = os.path.join(SHADOW, n)
        t = os.path.join(REPO, n)
        if os.path.islink(p):
            if os.readlink(p) == t:
                continue
            os.unlink(p)
        os.symlink(t, p)
    for n in os.listdir(SHADOW):
        if n not in want and n not in ("Cargo.toml", "Cargo.lock"):
            p = os.path.join(SHADOW, n)
            if os.path.islink(p) or os.path.isfile(p):
                os.unlink(p)
            else:
                shutil.rmtree(p)
    s = open(os.path.join(REPO, "Cargo.toml")).read()
    s = re.sub(r"(?m)^wchar\s*=.*\n", "", s)
    s = re.sub(r"(?m)^(unicode_wchar_t\s*=).*$", r"\1 []", s)
    write_if_changed(os.path.join(SHADOW, "Cargo.toml"), s)


def write_if_changed(path, s):
    try:
        if open(path).read() == s:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(s)


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            h.update(r.encode() + b"\0" + open(r, "rb").read())
            continue
        for dp, dn, fn in os.walk(r, followlinks=False):
            dn.sort()
            if "target" in dn:
                dn.remove("target")
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def repo_hash():
    return tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"))


def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def stamp_ok(path, key):
    try:
        return open(path + ".key").read() == key
    except OSError:
        return False


def set_stamp(path, key):
    with open(path + ".key", "w") as f:
        f.write(key)


def build_symx():
    src = os.path.join(VERIF, "symx")
    out = os.path.join(BUILD, "symx")
    with locked("symx"):
        key = tree_hash(os.path.join(src, "src"), os.path.join(src, "Cargo.toml"), os.path.join(src, "build.rs"))
        b = os.path.join(out, "release", "symx")
        if not (os.path.exists(b) and stamp_ok(b, key)):
            run(["cargo", "build", "--release", "--offline", "--target-dir", out], src, env(toolchain="stable"))
            set_stamp(b, key)
    return b


def harness_lock(d):
    """Cargo.lock for a harness crate: the project's locked versions (cargo adds the harness itself)"""
    s = open(LOCKFILE).read() if os.path.exists(LOCKFILE) else open(os.path.join(VERIF, "tools", "Cargo.lock.base")).read()
    p = os.path.join(d, "Cargo.lock")
    if not os.path.exists(p):
        write_if_changed(p, s)


def crate_copy(name, sub):
    """copy a harness crate of /verif into the build tree, so that building leaves /verif as committed"""
    dst = os.path.join(BUILD, sub)
    src = os.path.join(VERIF, name)
    os.makedirs(os.path.join(dst, ".cargo"), exist_ok=True)
    s = open(os.path.join(src, "Cargo.toml")).read().replace("@VERIF@", VERIF)
    write_if_changed(os.path.join(dst, "Cargo.toml"), s)
    write_if_changed(os.path.join(dst, ".cargo", "config"), open(os.path.join(src, ".cargo", "config")).read())
    harness_lock(dst)
    return dst


FEATURE = {"": None, "u": "unicode", "wf": "wf"}


def make_xmlwf():
    """the command-line tool's sources as a module of the harness: its libc is harness/src/vfs.rs, its crate root
    a module"""
    src = os.path.join(REPO, "src", "xmlwf")
    dst = os.path.join(BUILD, "xmlwf")
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(dst):
        if not os.path.exists(os.path.join(src, f)):
            os.unlink(os.path.join(dst, f))
    for f in os.listdir(src):
        if not f.endswith(".rs"):
            continue
        s = open(os.path.join(src, f)).read()
        s = re.sub(r"(?ms)^#!\[.*?\)\]\s*$", "", s)
        s = s.replace("#[main]", "").replace("#[no_mangle]", "")
        s = re.sub(r"(?m)^(pub )?use\s+(::)?libc;", "", s)
        s = re.sub(r"\{self, ", "{", s)
        s = re.sub(r"(?<![\w:])(::)?libc::", "crate::vfs::", s)
        s = re.sub(r"(?<![\w:])crate::(?!vfs::)", "crate::xmlwf::", s)
        s = s.replace("crate::xmlwf::stdlib::", "crate::vfs::")
        s = re.sub(r"\bfprintf\s*\(", "vfprintf!(", s)
        s = re.sub(r"(?m)^(pub )?(unsafe )?(extern \"C\" )?fn main_0\(", r"pub \2\3fn main_0(", s)
        if f == "xmlwf.rs":
            s = "#![allow(warnings)]\n" + s
        write_if_changed(os.path.join(dst, f), s)


def build_ir(variant=""):
    """whole-program LLVM IR of harness + rexpat + std"""
    make_shadow()
    if variant == "wf":
        make_xmlwf()
    nm = "ir-" + variant if variant else "ir"
    with locked(nm):
        d = crate_copy("harness", "crate-" + nm)
        tgt = os.path.join(BUILD, nm)
        out = os.path.join(BUILD, nm + ".ll")
        key = repo_hash() + tree_hash(os.path.join(VERIF, "harness", "src"), os.path.join(d, "Cargo.toml"))
        if not (os.path.exists(out) and stamp_ok(out, key)):
            deps = os.path.join(tgt, "release", "deps")
            if os.path.isdir(deps):
                for f in os.listdir(deps):
                    if f.startswith("harness-") or f.startswith("libharness"):
                        os.unlink(os.path.join(deps, f))
            cmd = ["cargo", "rustc", "--release", "--offline", "--target-dir", tgt]
            if FEATURE[variant]:
                cmd += ["--features", FEATURE[variant]]
            run(cmd + ["--", "--emit=llvm-bc"], d, env("--cfg rexpat_symx --cap-lints allow"))
            bc = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("harness-") and f.endswith(".bc")]
            if len(bc) != 1:
                raise BuildError("expected one bitcode file, found %r" % bc)
            run(["llvm-dis-18", "-o", out, bc[0]] if shutil.which("llvm-dis-18") else ["llvm-dis", "-o", out, bc[0]])
            set_stamp(out, key)
    return out


def replay_main(variant):
    """main.rs of the replayer: the harness modules, the native intrinsics and a table of entries"""
    hs = os.path.join(VERIF, "harness", "src")
    o = ["#![allow(warnings)]"]
    ents = []
    cfg = path = None
    for l in open(os.path.join(hs, "lib.rs")):
        m = re.match(r'#!\[cfg_attr\(feature = "wf", (.*)\)\]', l)
        if m and variant == "wf":
            o.append("#![%s]" % m.group(1))
        m = re.match(r'#\[cfg\(feature = "(\w+)"\)\]', l)
        cfg = m.group(1) if m else cfg
        m = re.match(r'#\[path = "(.*)"\]', l)
        path = m.group(1) if m else path
        m = re.match(r"pub mod (\w+);", l)
        if m:
            f = os.path.normpath(os.path.join(hs, path or m.group(1) + ".rs"))
            skip = cfg not in (None, variant)
            cfg = path = None
            if skip:
                continue
            o.append('#[macro_use]\n#[path = "%s"]\nmod %s;' % (f, m.group(1)))
            for e in re.findall(r'extern "C" fn (h_\w+)\(\)', open(f).read()):
                ents.append('"%s" => %s::%s as unsafe extern "C" fn(),' % (e, m.group(1), e))
    n = open(os.path.join(VERIF, "replay", "natives.rs")).read()
    return "\n".join(o) + "\n" + n.replace("@ENTRIES@", "\n            ".join(ents))


def build_replay(variant="", release=False):
    """native replayer: the same harness functions, reading their inputs from a file; dev profile,
    rexpat built WITHOUT the verification cfg"""
    make_shadow()
    if variant == "wf":
        make_xmlwf()
    nm = "replay" + ("-" + variant if variant else "")
    with locked(nm):
        d = crate_copy("replay", "crate-" + nm)
        write_if_changed(os.path.join(d, "src", "main.rs"), replay_main(variant))
        tgt = os.path.join(BUILD, nm)
        out = os.path.join(tgt, "release" if release else "debug", "replay")
        key = repo_hash() + tree_hash(os.path.join(VERIF, "harness", "src"), os.path.join(d, "src"), os.path.join(d, "Cargo.toml"))
        if not (os.path.exists(out) and stamp_ok(out, key)):
            cmd = ["cargo", "build", "--offline", "--target-dir", tgt]
            if release:
                cmd += ["--release"]
            if FEATURE[variant]:
                cmd += ["--features", FEATURE[variant]]
            run(cmd, d, env("--cap-lints allow"))
            set_stamp(out, key)
    return out


if __name__ == "__main__":
    what = sys.argv[1:] or ["symx", "ir", "replay"]
    for w in what:
        if w == "symx":
            print(build_symx())
        elif w == "ir":
            print(build_ir())
        elif w.startswith("ir-"):
            print(build_ir(w[3:]))
        elif w == "replay":
            print(build_replay())
        elif w.startswith("replay-"):
            print(build_replay(w[7:]))
