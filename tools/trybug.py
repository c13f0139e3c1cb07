#!/usr/bin/env python3
"""trybug.py ID [--checks P,P] [--notests]: confirms a planted bug in a scratch copy of /repo (/tmp/scr).

demo.sh passes on the clean copy, the patch applies, everything builds, the stable tests pass, demo.sh fails;
then runs the checks against the patched copy and prints which report a violation.  Development tool only.
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/scr"
ENV = dict(os.environ, CARGO_TARGET_DIR=SCR + "/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")


def sh(c, cwd=SCR, env=ENV, timeout=900):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def demo(d):
    t = tempfile.mkdtemp()
    shutil.copytree(d, t + "/x", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    e = {k: v for k, v in ENV.items() if not k.startswith("CARGO_")}
    r = sh("bash %s/x/demo.sh" % t, env=e)
    shutil.rmtree(t)
    return r


def main():
    bug = sys.argv[1]
    d = V + "/seeded/" + bug
    meta = json.load(open(d + "/meta.json"))
    checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    if "--own" in sys.argv:
        checks = [meta["property"]]
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD")
    if "--nodemo" not in sys.argv:
        rc, o = demo(d)
        print("demo clean:", rc)
        if rc:
            print(o[-2000:])
            return 1
    rc, o = sh("git apply %s/patch.diff" % d)
    if rc:
        print("patch:", o)
        return 1
    try:
        if "--nodemo" not in sys.argv:
            rc, o = demo(d)
            print("demo patched:", rc, o[-300:].strip())
            if not rc or "could not compile" in o:
                return 1
        if "--notests" not in sys.argv:
            ok = set()
            for c in ("cargo test --workspace --no-fail-fast --offline -- --include-ignored", "cargo test -p vorbis_bitpack --features no-std --lib --offline"):
                rc, o = sh(c)
                print("tests:", rc, [l for l in o.splitlines() if "FAILED" in l or "error" in l][:6], o.count("... ok"))
        env = dict(os.environ, VERIF_REPO=SCR, VERIF_BUILD="/tmp/scrbuild", VERIF_EVIDENCE="/tmp/screv")
        for p in checks:
            rc, o = sh("python3 %s/check.py %s" % (V, p), env=env)
            print(p, "own" if p == meta["property"] else "", rc, "\n".join(o.splitlines()[:4])[:700] if rc else "")
    finally:
        sh("git checkout -q -- .")


sys.exit(main())
