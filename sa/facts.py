"""Builds the driver, type-checks /repo's current tree through it and loads the facts."""
import fcntl
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
WS = ["optivorbis", "vorbis_bitpack", "vproots"]
TRANSPARENT = [
    "core::option::", "core::result::", "core::ops::", "std::option::Option", "std::result::Result",
    "std::ops::FnOnce::", "std::ops::FnMut::", "std::ops::Fn::", "std::ops::ControlFlow", "std::convert::",
    "core::convert::", "core::bool::", "std::cmp::PartialEq::ne", "std::ops::function::impls",
    "std::ops::Try>::", "std::ops::FromResidual", "core::array::<impl std::convert::", "std::iter::IntoIterator::into_iter",
    "std::mem::drop", "std::ops::Bound", "<I as std::iter::IntoIterator>::into_iter",
]


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"], env=base_env())[1].strip()


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRFACTS"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    for k in ("OPTIVORBIS_VERSION", "OPTIVORBIS_BUILD_DATE", "SOURCE_DATE_EPOCH"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def files_under(*roots):
    r = []
    for root in roots:
        if os.path.isfile(root):
            r.append(root)
            continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "resources"))
            for f in sorted(fs):
                r.append(os.path.join(d, f))
    return r


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def driver():
    src = os.path.join(VERIF, "driver", "mirfacts.rs")
    out = os.path.join(BUILD, "mirfacts-" + digest([src]))
    if not os.path.exists(out):
        s = sysroot()
        rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-C", "prefer-dynamic", "-L", s + "/lib",
                    "-A", "warnings", "-o", out + ".tmp"], env=base_env())
        if rc:
            raise BuildError("driver build failed:\n" + o)
        os.rename(out + ".tmp", out)
    return out


def dump(which):
    """JSON facts of 'lib' (roots crate over the two libraries) or 'cli' (the program)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        srcs = files_under(os.path.join(REPO, "packages"), os.path.join(REPO, "Cargo.toml"),
                           os.path.join(REPO, "Cargo.lock"), os.path.join(VERIF, "harness"))
        key = digest(srcs, os.path.basename(drv) + "|".join(TRANSPARENT) + which + REPO)
        out = os.path.join(BUILD, "facts-%s-%s.pickle" % (which, key))
        if os.path.exists(out):
            with open(out, "rb") as f:
                return pickle.load(f)
        e = base_env()
        s = sysroot()
        e["LD_LIBRARY_PATH"] = s + "/lib"
        e["RUSTC_WRAPPER"] = drv
        e["CARGO_INCREMENTAL"] = "0"
        td = os.path.join(BUILD, "td-" + which)
        e["CARGO_TARGET_DIR"] = td
        e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off"
        e["MIRFACTS_WS"] = ",".join(WS + ["optivorbis_cli"] if which == "lib" else WS)
        e["MIRFACTS_TRANSPARENT"] = ",".join(TRANSPARENT)
        js = os.path.join(BUILD, "facts-%s.json" % which)
        if os.path.exists(js):
            os.remove(js)
        e["MIRFACTS_DUMP"] = ("vproots/lib=" if which == "lib" else "optivorbis/bin=") + js
        # force the workspace crates through the wrapper again
        for fp in (os.path.join(td, "debug", ".fingerprint"), os.path.join(td, "debug", "build")):
            for d in os.listdir(fp) if os.path.isdir(fp) else ():
                if d.startswith(("vproots", "optivorbis", "vorbis_bitpack")):
                    shutil.rmtree(os.path.join(fp, d))
        if which == "lib":
            cmd = ["cargo", "+nightly", "check", "--offline", "--locked"]
            cwd = os.path.join(VERIF, "harness")
            if REPO != "/repo":
                cwd = os.path.join(BUILD, "harness")
                shutil.rmtree(cwd, ignore_errors=True)
                shutil.copytree(os.path.join(VERIF, "harness"), cwd, ignore=shutil.ignore_patterns("target"))
                p = os.path.join(cwd, "Cargo.toml")
                t = open(p).read().replace('"/repo/', '"%s/' % REPO)
                open(p, "w").write(t)
        else:
            cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "-p", "optivorbis_cli", "--bin", "optivorbis"]
            cwd = REPO
        rc, o = sh(cmd, env=e, cwd=cwd)
        if rc or not os.path.exists(js):
            raise BuildError("type-checking the tree failed:\n" + o[-4000:])
        with open(js) as f:
            data = json.load(f)
        os.remove(js)
        old = [f for f in os.listdir(BUILD) if f.startswith("facts-%s-" % which)]
        for f in sorted(old, key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))[:-3]:
            os.remove(os.path.join(BUILD, f))
        with open(out + ".tmp", "wb") as f:
            pickle.dump(data, f, protocol=4)
        os.rename(out + ".tmp", out)
        return data


def load(which="lib"):
    sys.path.insert(0, HERE)
    import engine
    return engine.FactsDB(dump(which), WS)


if __name__ == "__main__":
    for w in sys.argv[1:] or ["lib", "cli"]:
        d = dump(w)
        print(w, len(d["fns"]), "functions", len(d["tys"]), "types")
