"""Integer widths: what the width type can hold, however it is made."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from terms import *
import engine as E
import facts
import bitpack
from engine import Engine

TYPE = "BitpackedIntegerWidth"
LIB = os.path.join("packages", "vorbis_bitpack", "src", "lib.rs")


def rep_bad(rep, key, text):
    rep.bad("C22", key, text)


def check(F, rep):
    fns = set()
    w = app("width", (), ("r", 0, 255))
    # at run time
    e = Engine(F, [], {})
    for o in e.call_fn(e.initial(), F.find(r"^vproots::root_width_new$")[0], [w]):
        rep.n("C22", "constructor_paths")
        if o[0] != "ret":
            rep_bad(rep, "new-panic", "making a width may panic: %s" % (o[2],))
            continue
        st, v = o[1], e.force(o[2], o[1])
        some = v.a[1] == 1
        if not some:
            f = st.facts.assume(ge(w, 33), 0)
            if f is not None:
                rep_bad(rep, "new-none", "a width of %s bits is refused" % (rng(w, f),))
            continue
        f = st.facts.assume(ge(w, 33), 1)
        if f is not None:
            rep_bad(rep, "new-some", "a width of %s bits is accepted" % (rng(w, f),))
        for p in e.call_fn(st.clone(), F.find(r"^vproots::root_width_get$")[0], [v.a[2][0]]):
            if p[0] != "ret" or e.force(p[2], p[1]) is not w:
                rep_bad(rep, "get", "a width made of w bits says it is %s" % show(p[2])[:80])
    fns |= e.analysed
    # every place that makes a value of the type
    tid = {i for i, t in enumerate(F.tys) if t["k"] == "adt" and t["n"].rsplit("::", 1)[-1] == TYPE}
    if not tid:
        raise E.Unsupported("no type of integer widths")
    makers, sites = {}, 0
    for i, f in each(F):
        for s in statements(f):
            if s[0] == "=" and s[2][0] == "adt" and s[2][1] in tid:
                sites += 1
                op = s[2][3][0]
                k = const(op)
                if k is None:
                    makers[i] = f
                elif not 0 <= k <= 32:
                    rep_bad(rep, "made:" + generic(f["name"]), "%s makes a width of %d bits" % (f["name"], k))
    rep.n("C22", "construction_sites", sites)
    unchecked = {}
    for i, f in makers.items():
        if f["name"].endswith("::clone") and "as std::clone::Clone" in f["name"]:
            continue
        why = unsafe_maker(F, i, f, rep)
        fns.add(i)
        if why:
            unchecked[i] = (f, why)
    # those that do not check need callers that do
    seen = {}

    def watch(eng, st, c):
        x = eng.force(c.args[0], st)
        lo, hi = rng(x, st.facts)
        k = (generic(c.frame.fn["name"]), c.bb, tuple(c.span))
        a, b = seen.get(k, (lo, hi))
        seen[k] = (min(a, lo), max(b, hi))
        return None
    if unchecked:
        old = bitpack.hooks
        pats = [(re.escape(f["name"]) + "$", watch) for f, _ in unchecked.values()]
        bitpack.hooks = lambda: pats + old()
        try:
            quiet = bitpack.Report()
            fns |= bitpack.check_writer(F, quiet) | bitpack.check_reader(F, quiet)
        finally:
            bitpack.hooks = old
    calls = 0
    for i, f in each(F):
        if f["name"].startswith("vproots::"):
            continue
        for b, bb in enumerate(f["body"]["blocks"]):
            t = bb["t"]
            if not t or t[0] != "call":
                continue
            g = callee(F, t)
            if g is None or g not in unchecked:
                continue
            calls += 1
            k = const(t[3][0])
            if k is not None:
                if not 0 <= k <= 32:
                    rep_bad(rep, "call:" + generic(f["name"]), "%s makes a width of %d bits" % (f["name"], k))
                continue
            lo, hi = seen.get((generic(f["name"]), b, tuple(bb["l"])), (0, 255))
            if lo < 0 or hi > 32:
                rep_bad(rep, "call:" + generic(f["name"]), "%s may make a width of up to %d bits: nothing bounds the argument of %s" % (
                    f["name"], hi, unchecked[g][0]["name"]))
    rep.n("C22", "unchecked_calls", calls)
    witnesses(rep)
    return fns


def each(F):
    for i, f in (F.fns.items() if isinstance(F.fns, dict) else enumerate(F.fns)):
        if f.get("body") and f["crate"] in F.ws:
            yield i, f


def generic(name):
    """the name without type arguments: instances of a function share their body"""
    r, d = "", 0
    for ch in name.replace("->", ""):
        d += ch == "<"
        r += ch if not d else ""
        d -= ch == ">"
    return r


def statements(f):
    for b in f["body"]["blocks"]:
        yield from b["s"]


def const(op):
    if isinstance(op, dict) and "c" in op and isinstance(op["c"], dict) and "i" in op["c"]:
        return int(op["c"]["i"])
    return None


def callee(F, t):
    ty = F.tys[t[2]]
    return ty.get("f") if "f" in ty else ty.get("i")


def unsafe_maker(F, i, f, rep):
    """why the function may make a width beyond the maximum of its own accord"""
    e = Engine(F, [], {})
    st = e.initial()
    tys = f["body"]["locals"][1:1 + f["body"]["argc"]]
    args = []
    for j, t in enumerate(tys):
        n = e.int_ty(t)
        if n is None:
            return "its arguments are not numbers"
        args.append(app("arg%d" % j, (), ("r",) + INT_RANGE[n]))
    for o in e.call_fn(st, f, args):
        if o[0] != "ret":
            continue
        v = e.deval(o[2], o[1])
        for x in widths_in(v):
            hi = rng(x, o[1].facts)[1] if isinstance(x, T) else x
            if hi > 32:
                return "it makes one of up to %d bits" % hi
    return None


def widths_in(v):
    if isinstance(v, T) and v.op == "agg":
        if v.a[0].rsplit("::", 1)[-1] == TYPE:
            return [v.a[2][0]]
        return [y for x in v.a[2] for y in widths_in(x)]
    return []


GOOD = range(0, 33)
BAD = range(33, 256)


def witnesses(rep):
    """programs that must build, and programs that must not, against the current source of the crate"""
    src = os.path.join(facts.REPO, LIB)
    d = tempfile.mkdtemp(prefix="widths-")
    env = facts.base_env()
    try:
        lib = os.path.join(d, "libvorbis_bitpack.rlib")
        rc, o = facts.sh(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "vorbis_bitpack", "--emit", "link",
                          "--cap-lints", "allow", src, "-o", lib], env=env)
        if rc:
            rc, o = facts.sh(["rustc", "--edition", "2024", "--crate-type", "rlib", "--crate-name", "vorbis_bitpack", "--emit", "link",
                              "--cap-lints", "allow", src, "-o", lib], env=env)
        if rc:
            raise facts.BuildError("the bit packer does not build on its own:\n" + o[-1500:])

        def errors(name, lines):
            p = os.path.join(d, name + ".rs")
            open(p, "w").write("#![allow(dead_code)]\nuse vorbis_bitpack::{bitpacked_integer_width, %s};\n" % TYPE + "\n".join(lines) + "\n")
            q = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--emit", "obj", "--error-format", "json",
                                "--extern", "vorbis_bitpack=" + lib, p, "-o", p + ".o"], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True)
            at = set()
            for l in q.stderr.splitlines():
                m = json.loads(l)
                if m.get("level") != "error":
                    continue
                for s in m.get("spans", ()):
                    while s:
                        if s["file_name"] == p:
                            at.add(s["line_start"] - 3)
                        s = s["expansion"]["span"] if s.get("expansion") else None
            return q.returncode, at
        lines = ["const _: [(); %d] = [(); bitpacked_integer_width!(%d).get() as usize];" % (w, w) for w in GOOD]
        rc, at = errors("good", lines)
        for w in GOOD:
            rep.n("C22", "programs")
            if w in at or rc and not at:
                rep_bad(rep, "macro-good", "a program that asks the macro for a width of %d bits does not build or gets another width" % w)
                break
        # one by one, as an error in one item may hide others
        rc, at = errors("bad", ["pub fn f%d() -> %s { bitpacked_integer_width!(%d) }" % (w, TYPE, w) for w in BAD])
        for j, w in enumerate(BAD):
            rep.n("C22", "programs")
            if rc == 0 or j not in at:
                if errors("one", ["pub fn f() -> %s { bitpacked_integer_width!(%d) }" % (TYPE, w)])[0] == 0:
                    rep_bad(rep, "macro-bad", "a program that asks the macro for a width of %d bits builds" % w)
                    break
        for name, l in (("field", "pub fn f() -> %s { %s(33) }" % (TYPE, TYPE)),
                        ("field-write", "pub fn f(w: &mut %s) { w.0 = 33; }" % TYPE),
                        ("default", "pub fn f<T: From<u8>>() {}\npub fn g() { f::<%s>() }" % TYPE)):
            rep.n("C22", "programs")
            if errors(name, l.split("\n"))[0] == 0:
                rep_bad(rep, "program-" + name, "a program outside of the crate can make a width of any number of bits: %s" % l.split("\n")[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)
