"""The packet optimiser: headers in, headers out."""
from terms import *
import engine as E
from engine import Engine, agg, ref, ok, err, mk, slen, subst, NeedFork, cat
from refcmp import Report, Ctx, Split, St, ref_runs, same, split_same, renorm

H = ("H", "optimizer")
VORBIS = tuple(b"vorbis")
NAMES = {1: "identification", 3: "comment", 5: "setup"}


def lits(st):
    return [(x[1], x[2]) for x in st.items() if x[0] == "as"]


def fork_ref(facts, fn, eng):
    """ref_runs where term selection may ask for forks as well"""
    def g(ctx):
        try:
            return fn(ctx)
        except NeedFork as n:
            raise Split(n.cond)
    return ref_runs(facts, g, eng)


def le_bytes(t, n=4):
    """little endian bytes of a non-negative term below 256**n"""
    return [rem(div(t, 256 ** i), 256) for i in range(n)]


class Run:
    """One engine for the whole life of an optimiser."""

    def __init__(self, F, hooks=(), **opts):
        self.F = F
        o = dict(max_paths=20000)
        o.update(opts)
        self.eng = Engine(F, hooks, o)

    def root(self, name):
        fs = self.F.find(r"^vproots::%s(::<.*>)?$" % name)
        if len(fs) != 1:
            raise E.Unsupported("analysis root %s" % name)
        return fs[0]

    def arg(self, root, i, name):
        return self.eng.fresh(name, (), self.root(root)["body"]["locals"][i + 1])

    def call(self, root, st, args):
        st = st.clone()
        return self.eng.call_fn(st, self.root(root), args)

    def new(self, st=None):
        """-> (state, optimiser value, settings ref, identification packet ref) for each accepted header"""
        e = self.eng
        st = st or e.initial()
        s, p = self.arg("root_opt_new_slice", 0, "set"), self.arg("root_opt_new_slice", 1, "id")
        self.settings, self.id = s, p
        out = self.call("root_opt_new_slice", st, [s, p])
        self.new_outs = out
        return [(o[1], o[2].a[2][0]) for o in out if o[0] == "ret" and is_ok(o[2])]

    def seq(self, r, st):
        """the sequence behind a slice reference"""
        import models
        return models.seq_at(self.eng, st, r)[1]

    def on(self, root, st, V, pkt):
        s = st.clone()
        s.mem[H] = V
        self.eng.objty.setdefault(H, self.eng.pointee(self.root(root)["body"]["locals"][1]))
        return self.call(root, s, [ref(H), pkt])


def is_ok(v):
    return isinstance(v, T) and v.op == "agg" and v.a[0].startswith("Result") and v.a[1] == 0


def is_err(v):
    return isinstance(v, T) and v.op == "agg" and v.a[0].startswith("Result") and v.a[1] == 1


def payload(eng, st, v):
    """Result<Option<(Cow, Option<u16>)>> -> None | (bytes sequence, block size or None)"""
    import models
    v = eng.force(v.a[2][0], st)
    if v.a[1] == 0:
        return None
    t = v.a[2][0]
    cow, bs = t.a[2]
    cow = eng.force(cow, st)
    bs = eng.force(bs, st)
    if cow.op == "agg" and cow.a[1] == 0:
        seq = models.seq_at(eng, st, cow.a[2][0])[1]
    elif cow.op == "agg" and cow.a[1] == 1:
        seq = cow.a[2][0]
    else:
        raise E.Unsupported("packet value %s" % show(cow)[:80])
    return seq, (bs.a[2][0] if bs.a[1] == 1 else None)


# ---------------------------------------------------------------- byte sequences
def pieces(seq):
    """flat list of byte terms and opaque subsequences"""
    out = []
    for p in (seq.a[0] if seq.op == "cat" else (seq,)):
        if p.op == "arr":
            out += [("b", x) for x in p.a[0]]
        elif p.op == "str":
            out += [("b", x) for x in p.a[0].encode()]
        else:
            out.append(("s", p))
    return out


def match_pieces(eng, facts, got, want):
    """None or a description of the first difference; both are lists of ("b", term) / ("s", sequence)"""
    got, want = list(got), list(want)
    i = j = 0
    while i < len(got) or j < len(want):
        if i < len(got) and got[i][0] == "s" and facts.decide(E.eq0(slen(got[i][1]))) == 1:
            i += 1
            continue
        if j < len(want) and want[j][0] == "s" and facts.decide(E.eq0(slen(want[j][1]))) == 1:
            j += 1
            continue
        if i >= len(got):
            return "misses %s" % show(want[j][1])[:120]
        if j >= len(want):
            return "has an extra %s" % show(got[i][1])[:120]
        a, b = got[i], want[j]
        if a[0] == "b" and b[0] == "b":
            if not same(a[1], b[1], facts):
                return "byte %d is %s instead of %s" % (i, show(a[1])[:120], show(b[1])[:120])
        elif a[0] == "s" and b[0] == "s":
            if not same_seq(eng, facts, a[1], b[1]):
                return "%s instead of %s" % (show(a[1])[:160], show(b[1])[:160])
        else:
            # a literal against a sequence of known length
            k, l = (a, got) if a[0] == "s" else (b, want)
            n = slen(k[1])
            n = renorm(n, facts) if isinstance(n, T) else n
            if not isinstance(n, int) or n > 64:
                return "%s instead of %s" % (show(a[1])[:160], show(b[1])[:160])
            ex = [("b", eng.sel(k[1], x, eng.F.u8, St(facts))) for x in range(n)]
            if a[0] == "s":
                got[i:i + 1] = ex
            else:
                want[j:j + 1] = ex
            continue
        i += 1
        j += 1
    return None


def same_seq(eng, facts, a, b):
    if a is b:
        return True
    if a.op == "sub" and b.op == "sub" and a.a[0] is b.a[0]:
        return same(a.a[1], b.a[1], facts) and same(a.a[2], b.a[2], facts)
    if a.op == "sub" and a.a[0] is b:
        return same(a.a[1], 0, facts) and same(a.a[2], slen(b), facts)
    if b.op == "sub" and b.a[0] is a:
        return same_seq(eng, facts, b, a)
    if a.op == "seqsym" and b.op == "seqsym" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        return all(same(x, y, facts) for x, y in zip(a.a[1], b.a[1]))
    return False


def loop_of(items, name):
    """the loop node that defines the sequence variable `name`, and how often it ran"""
    for x in items:
        if x[0] == "loop":
            for v in x[1].phis:
                if isinstance(v, T) and v.op == "seqsym" and v.a[0] == name:
                    return x, v
    return None, None


# ---------------------------------------------------------------- C08
def mangle(V, idseq, eng, st, facts):
    """replace the four fields that a mangler may set by fresh values"""
    by = lambda i: eng.sel(idseq, i, eng.F.u8, St(facts))
    u32 = lambda o: add(*[scale(by(o + i), 256 ** i) for i in range(4)])
    m, out = {}, []
    for nm, off, lo, hi, signed in (("freq", 12, 1, (1 << 32) - 1, 0), ("max", 16, -(1 << 31), (1 << 31) - 1, 1),
                                    ("nominal", 20, -(1 << 31), (1 << 31) - 1, 1), ("min", 24, -(1 << 31), (1 << 31) - 1, 1)):
        t = u32(off)
        if signed:
            t = wrap("i32", t)
        x = sym("mangled." + nm, lo, hi)
        m[t] = x
        out.append((nm, off, x, E.contains(V, t)))
    return subst(V, m), out


def header_prefix(kind):
    return [("b", kind)] + [("b", x) for x in VORBIS]


def check_ident(R, rep, states, P="C08"):
    """states: (label, state, optimiser value) before the second pass"""
    e = R.eng
    for label, st, V in states:
        idseq = R.seq(R.id, st)
        V2, flds = mangle(V, idseq, e, st, st.facts)
        for nm, off, x, found in flds:
            rep.n(P, "fields")
            if not found:
                rep.bad(P, "field:" + nm, "the %s field of the identification header is not kept from its bytes %d to %d" % (nm, off, off + 3))
        for root in ("root_optimize_slice", "root_optimize"):
            pk = R.id if root.endswith("slice") else idseq
            for o in R.on(root, st, V2, pk):
                rep.n(P, "paths")
                if o[0] != "ret":
                    rep.bad(P, "panic", "optimising the identification header panics", label)
                    continue
                s = o[1]
                v = e.force(o[2], s)
                if not is_ok(v):
                    rep.bad(P, "rejected", "a valid identification header is rejected when it is optimised: " + show(v)[:120], label)
                    continue
                p = payload(e, s, v)
                if p is None:
                    rep.bad(P, "dropped", "the identification header is dropped", label)
                    continue
                seq, bs = p
                if bs is not None:
                    rep.bad(P, "blocksize", "the identification header is reported as an audio packet", label)

                def check(ctx):
                    if not same(slen(seq), 30, ctx.facts):
                        rep.bad(P, "length", "an optimised identification header has %s bytes" % show(slen(seq))[:80], label)
                        return
                    for i in range(30):
                        g = e.sel(seq, i, e.F.u8, St(ctx.facts))
                        w = None
                        for nm, off, x, _ in flds:
                            if off <= i < off + 4:
                                # compared as a whole below
                                w = "f"
                        rep.n(P, "bytes")
                        if w == "f":
                            continue
                        w = 1 if i == 29 else e.sel(idseq, i, e.F.u8, St(ctx.facts))
                        if not same(g, w, ctx.facts):
                            rep.bad(P, "byte:%d" % i, "byte %d of the optimised identification header is %s instead of %s"
                                    % (i, show(g)[:100], show(w)[:100]), label)
                    for nm, off, x, _ in flds:
                        t = add(*[scale(e.sel(seq, off + i, e.F.u8, St(ctx.facts)), 256 ** i) for i in range(4)])
                        if nm != "freq":
                            t = wrap("i32", t, ctx.facts)
                        rep.n(P, "bytes", 4)
                        bsx = [e.sel(seq, off + i, e.F.u8, St(ctx.facts)) for i in range(4)]
                        ux = wrap("u32", x) if nm != "freq" else x
                        if same(t, x, ctx.facts) or all(same(g, w, ctx.facts) for g, w in zip(bsx, le_bytes(ux))) or \
                                all(same(wrap("u8", g), wrap("u8", div(ux, 256 ** i)), ctx.facts) for i, g in enumerate(bsx)):
                            continue
                        rep.bad(P, "value:" + nm, "the %s field is written as %s" % (nm, show(t)[:160]), label)
                fork_ref(s.facts, check, e)
                # the identification header must come first again only here: the state has moved on
    return


def check_c08(F, rep):
    R = Run(F)
    sts = []
    for st, V in R.new():
        sts.append(("after the identification header", st, V))
    check_ident(R, rep, sts)
    return R.eng.analysed


# ---------------------------------------------------------------- C07
VERSION_TAG, SHORT_TAG = "OPTIVORBIS_VERSION_TAG", "OPTIVORBIS_SHORT_VERSION_TAG"


def variants(F, name):
    """variant names of an enum of the library"""
    for t in F.tys:
        if t["k"] == "adt" and t["n"] == name and t["kind"] == "enum":
            return [v["n"] for v in t["v"]]
    raise E.Unsupported("enum " + name)


class CommentRef:
    """What the comment header packet says and what has to be written, on one path of the analysis."""

    def __init__(self, R, st, pk):
        self.R, self.e, self.st = R, R.eng, st
        self.seq = R.seq(pk, st)
        self.n = slen(self.seq)

    def byte(self, i, f):
        return self.e.sel(self.seq, i, self.e.F.u8, St(f))

    def u32(self, off, f):
        return add(*[scale(self.byte(add(off, i), f), 256 ** i) for i in range(4)])

    def setting(self, name):
        import models
        e = self.e
        ti = e.pointee(self.R.root("root_opt_new_slice")["body"]["locals"][1])
        t = e.ty[ti]
        for i, (fn, ft) in enumerate(t["v"][0]["f"]):
            if fn == name:
                v = e.load(self.st, (e.deref(self.R.settings, self.st, None)[0], (("f", 0, i, ft),)))
                return e.discr(v, ft, St(self.st.facts)), [x["n"] if isinstance(x, dict) else x for x in e.ty[ft]["v"]]
        raise E.Unsupported("setting " + name)

    def choice(self, ctx, name):
        d, vs = self.setting(name)
        for i, v in enumerate(vs[:-1]):
            if ctx.b(E.eq(d, i)):
                return v
        return vs[-1]

    def tag(self, name):
        fs = [x for x in self.e.ptype if isinstance(x, str) and x.startswith("static:") and x.split("::")[-1].rstrip("*") == name]
        if not fs:
            return None
        return fs[0]

    def static_seq(self, name):
        return mk("seqsym", "static:optivorbis::%s*" % name, (), self.e.F.u8, app("static:optivorbis::%s*.len" % name, (), ("r", 0, LEN_MAX)))

    def ends_with_tag(self, ctx, voff, vl):
        """the vendor string already ends with a separator and a tag; None: impossible"""
        hit = []
        for nm in (SHORT_TAG, VERSION_TAG):
            t = self.static_seq(nm)
            tl = slen(t)
            if not ctx.b(ge(vl, tl)):
                hit.append(None)
                continue
            suf = E.ssub(self.seq, add(voff, sub(vl, tl)), tl)
            c = app("seqeq", (suf, t), ("r", 0, 1))
            hit.append(tl if ctx.b(c) else None)
        if hit[0] is not None and hit[1] is not None:
            return None
        tl = hit[0] if hit[0] is not None else hit[1]
        if tl is None:
            return 0
        if not ctx.b(ge(sub(vl, tl), 2)):
            return 0
        o = add(voff, sub(vl, add(tl, 2)))
        return int(ctx.b(E.eq(self.byte(o, ctx.facts), ord(";"))) and ctx.b(E.eq(self.byte(add(o, 1), ctx.facts), ord(" "))))

    def run(self, ctx):
        """-> ("err",) | ("infeasible",) | ("ok", vendor pieces, comments) with comments None | (start, count)"""
        n = self.n
        empty = ("ok", [], None)
        if not ctx.b(ge(n, 7)):
            return empty
        if not ctx.b(E.eq(self.byte(0, ctx.facts), 3)):
            return ("err", "type")
        for i in range(6):
            if not ctx.b(E.eq(self.byte(1 + i, ctx.facts), VORBIS[i])):
                return ("err", "signature")
        if not ctx.b(ge(n, 11)):
            return empty
        vl = self.u32(7, ctx.facts)
        if not ctx.b(ge(n, add(11, vl))):
            return empty
        raw = [("s", E.ssub(self.seq, 11, vl))]
        act = self.choice(ctx, "vendor_string_action")
        if act == "Copy":
            v = raw
        elif act == "Replace":
            v = [("s", self.static_seq(VERSION_TAG))]
        elif act == "Empty":
            v = []
        else:
            d = self.ends_with_tag(ctx, 11, vl)
            if d is None:
                return ("infeasible",)
            v = raw if d else raw + [("b", 59), ("b", 32), ("s", self.static_seq(VERSION_TAG if act == "AppendTag" else SHORT_TAG))]
        if not ctx.b(ge(n, add(15, vl))):
            return ("ok", v, None)
        cnt = self.u32(add(11, vl), ctx.facts)
        if self.choice(ctx, "comment_fields_action") == "Delete":
            return ("ok", v, None)
        return ("ok", v, (add(15, vl), cnt))


def check_comments(R, rep, P="C07"):
    e = R.eng
    starts = R.new()
    if len(starts) != 1:
        raise E.Unsupported("%d outcomes of a valid identification header" % len(starts))
    st0, V0 = starts[0]
    st0 = st0.clone()
    st0.trace = None
    st0.occ = {}
    pk = R.arg("root_analyze", 1, "comment")
    results = []
    for o in R.on("root_analyze", st0, V0, pk):
        rep.n(P, "analysis_paths")
        if o[0] != "ret":
            rep.bad(P, "panic", "reading the comment header panics")
            continue
        s, v = o[1], e.force(o[2], o[1])
        C = CommentRef(R, s, pk)
        want = []
        for f, w in fork_ref(s.facts, C.run, e):
            if w[0] != "infeasible":
                want.append((f, w))
        if not want:
            continue
        for f, w in want:
            if is_err(v) != (w[0] == "err"):
                if w[0] == "err":
                    rep.bad("C09" if P == "C07" else P, "comment:" + w[1], "a packet with the wrong %s is taken for a comment header" % w[1])
                else:
                    rep.bad(P, "rejected", "a comment header is rejected with %s" % show(v)[:120])
                continue
            if w[0] == "err":
                continue
            if v.a[2][0].a[1] != 0:
                rep.bad(P, "blocksize", "the comment header is reported as an audio packet")
        if is_ok(v):
            V1 = s.mem[H]
            results.append((s, V1, pk, C, [(f, w) for f, w in want if w[0] == "ok"]))
    # second pass: the identification header, then the comment header
    for s, V1, pk, C, want in results:
        pre = len(s.items())
        s1 = s.clone()
        s1.occ = {}
        for o in R.on("root_optimize_slice", s1, V1, R.id):
            if o[0] != "ret" or not is_ok(e.force(o[2], o[1])):
                continue    # C08
            s2 = o[1].clone()
            V2 = s2.mem[H]
            s2.occ = {}
            for root in ("root_optimize_slice", "root_optimize"):
                p2 = pk if root.endswith("slice") else R.seq(pk, s2)
                for o2 in R.on(root, s2, V2, p2):
                    rep.n(P, "written")
                    s3 = o2[1]
                    if o2[0] != "ret":
                        rep.bad(P, "panic2", "writing the comment header panics")
                        continue
                    v = e.force(o2[2], s3)
                    if is_err(v):
                        # only acceptable when a length does not fit 32 bits
                        bad = True
                        for f, w in want:
                            vl = add(*[1 if k == "b" else slen(x) for k, x in w[1]]) if w[1] else 0
                            if s3.facts.decide(ge(vl, 1 << 32)) == 1:
                                bad = False
                        if bad:
                            rep.bad(P, "failed", "writing the comment header fails with %s" % show(v)[:120])
                        continue
                    p = payload(e, s3, v)
                    if p is None:
                        rep.bad(P, "dropped", "the comment header is dropped")
                        continue
                    if p[1] is not None:
                        rep.bad(P, "blocksize", "the comment header is reported as an audio packet")
                    for f, w in want:
                        g = combine(f, s3)
                        if g is None:
                            continue
                        compare_comment(R, rep, s3, g, p[0], w, C, P)
            break   # the outcomes differ in how the identification header is fixed only


def combine(f, st):
    for c, v in lits(st):
        f = f.assume(c, v)
        if f is None:
            return None
    return f


def compare_comment(R, rep, st, f, out, w, C, P):
    e = R.eng
    _, vendor, com = w
    vl = add(*[1 if k == "b" else slen(x) for k, x in vendor]) if vendor else 0
    head = header_prefix(3) + [("b", x) for x in le_bytes(vl)] + list(vendor)
    got = pieces(out)
    items = st.items()
    rep.n(P, "outputs_compared")
    idx = [i for i, (k, x) in enumerate(got) if k == "s" and x.op == "flat"]
    if not idx:
        if any(k == "s" and x.op == "seqsym" and loop_of(items, x.a[0])[0] for k, x in got):
            raise E.Unsupported("the comments written are not a concatenation")
        d = match_pieces(e, f, got, head + [("b", 0)] * 4 + [("b", 1)])
        if d:
            rep.bad(P, "content", "the comment header written " + d)
        elif com is not None:
            # right only if there is no complete comment
            first = com[0]
            if f.decide(lt(0, com[1])) == 0 or f.decide(ge(C.n, add(first, 4))) == 0 or \
                    f.decide(ge(C.n, add(first, 4, C.u32(first, f)))) == 0:
                return
            rep.bad(P, "comments-lost", "the user comments are not written")
        return
    i = idx[0]
    fl = got[i][1]
    bv, count, body = fl.a
    count = renorm(count, f) if isinstance(count, T) else count
    d = match_pieces(e, f, got[:i], head + [("b", x) for x in le_bytes(count)])
    if d:
        rep.bad(P, "content", "the comment header written " + d)
        return
    d = match_pieces(e, f, got[i + 1:], [("b", 1)])
    if d:
        rep.bad(P, "framing", "the end of the comment header written " + d)
    if com is None:
        if not same(count, 0, f):
            rep.bad(P, "comments-kept", "comments are written that are not to be kept")
        return
    body = pieces(body)
    el = [x for k_, x in body if k_ == "s"]
    if len(el) != 1:
        rep.bad(P, "comments", "a comment is written as %s" % [show(x)[:60] for _, x in body])
        return
    el = el[0]
    if not (el.op == "sub" and el.a[0] is C.seq):
        rep.bad(P, "comment-source", "a comment written is %s" % show(el)[:160])
        return
    rep.n(P, "comment_bodies")
    # the loops that read them
    rl = [x for x in items if x[0] == "loop"]
    check_read_loop(R, rep, st, f, rl, el, body, bv, count, com, C, P)


def check_read_loop(R, rep, st, f, loops, el, body, it, count, com, C, P):
    """el: the comment written in iteration `it`, a slice of the input packet whose position was computed by a reading loop"""
    e = R.eng
    start, cnt = com
    for lp in loops:
        node = lp[1]
        pos = subst(sub(el.a[1], 4), {it: node.it})
        phis = [(v, i, n) for v, (i, n) in node.phis.items() if isinstance(v, T) and E.contains(pos, v)] if isinstance(pos, T) else []
        if not phis:
            continue
        v, init, nexts = phis[0]
        if len(phis) != 1:
            raise E.Unsupported("the position of a comment depends on several variables")
        rep.n(P, "read_loops")
        p0 = subst(pos, {v: init, node.it: 0})
        if not same(p0, start, f):
            rep.bad(P, "first-comment", "the first comment is read at %s instead of %s" % (show(p0)[:120], show(start)[:120]))
            return
        ln = lambda fx: C.u32(pos, fx)
        for nx, ns in zip(nexts, node.nstates):
            l = ln(ns.facts)
            p1 = subst(pos, {v: nx, node.it: add(node.it, 1)})
            if not same(p1, add(pos, 4, l), ns.facts):
                rep.bad(P, "next-comment", "the comment after one at %s of %s bytes is read at %s" % (show(pos)[:80], show(l)[:80], show(p1)[:120]))
            if not same(subst(el.a[2], {it: node.it}), l, ns.facts):
                rep.bad(P, "comment-length", "a comment has %s bytes instead of %s" % (show(el.a[2])[:120], show(l)[:120]))
            d = match_pieces(e, ns.facts, [(k, subst(x, {it: node.it})) for k, x in body],
                             [("b", x) for x in le_bytes(l)] + [("s", subst(el, {it: node.it}))])
            if d:
                rep.bad(P, "comment", "a comment written " + d)
            for c, why in ((ge(C.n, add(pos, 4)), "length"), (ge(C.n, add(pos, 4, l)), "contents"), (lt(node.it, cnt), "count")):
                if ns.facts.decide(c) != 1:
                    rep.bad(P, "comment-end:" + why, "a comment is read beyond the end of the comment %s" % why)
        # every way out of the loop: all comments read, or the end of the packet
        for es, (its, pay, exact) in zip(node.estates, node.exits):
            if pay[0] == "panic":
                rep.bad(P, "panic", "reading a comment panics")
                continue
            fx = es.facts
            if fx.decide(ge(node.it, cnt)) == 1:
                continue
            l = ln(fx)
            if fx.decide(ge(C.n, add(pos, 4))) == 0 or fx.decide(ge(C.n, add(pos, 4, l))) == 0:
                continue
            rep.bad(P, "comment-stop", "reading stops before the end of the comments at %s" % show(pos)[:100])
        # the number of comments written is the number of complete iterations
        want = lp[2]
        if not same(count, want, f):
            rep.bad(P, "comment-count", "%s comments are written, %s were read" % (show(count)[:100], show(want)[:100]))
        return
    if same(count, 0, f):
        return
    raise E.Unsupported("the loop that read a comment written is not found")


def check_c07(F, rep):
    R = Run(F)
    check_comments(R, rep)
    return R.eng.analysed
