"""Ogg remuxing: abstract events of the two passes and their comparison with the reference transition system."""
import re
from terms import *
import engine as E
from engine import Engine, agg, ref, some, NONE, tup, ok, err, slen, app, mk
import models as M

ST = ("H", "stream")


def event(name, skip=1, post=None):
    def h(eng, st, c):
        nm = eng.occ(st, c, name)
        r = eng.fresh(nm, st.binders, c.dty)
        args = tuple(eng.deval_safe(a, st) for a in c.args[skip:])
        st.emit(("ev", name, args, r, c.span))
        if post:
            return post(eng, st, c, r)
        return [(st, r)]
    return h


def map_ty(eng, c):
    t = c.aty[0]
    while eng.ty[t]["k"] in ("ref", "ptr"):
        t = eng.ty[t]["t"]
    return eng.ty[t]


class Streams:
    """Abstract map of logical streams: a lookup of a known serial yields one arbitrary stream
    whose state is `value` (a function making it from the engine and its type)."""

    def __init__(self, value=None):
        self.value = value

    def cell(self, eng, st, vty):
        if ST not in st.mem:
            st.mem[ST] = self.value(eng, vty) if self.value else eng.fresh("S", (), vty)
            eng.objty[ST] = vty
        return ref(ST)

    def mapped(self, eng, st, k):
        k = eng.deval(k, st)
        return app("known_stream", (k,), ("r", 0, 1))

    def hooks(self):
        def vty_of_map(eng, c):
            t = map_ty(eng, c)
            return t["a"][1]

        def look(wrap):
            def h(eng, st, c):
                vt = vty_of_map(eng, c)
                self.vty = vt

                def f(s):
                    k = self.mapped(eng, s, c.args[1])
                    if M.decide(s, k):
                        return [(s, wrap(eng, s, c, vt))]
                    return [(s, NONE)]
                return M.forking(eng, st, f)
            return h

        def idx(eng, st, k):
            return app("stream_index", (k,), ("r", 0, LEN_MAX))

        def get(eng, s, c, vt):
            return some(self.cell(eng, s, vt))

        def get_full(eng, s, c, vt):
            k = eng.deval(c.args[1], s)
            return some(tup(idx(eng, s, k), c.args[1], self.cell(eng, s, vt)))

        def get_index_of(eng, s, c, vt):
            return some(idx(eng, s, eng.deval(c.args[1], s)))

        def contains(eng, st, c):
            return [(st, self.mapped(eng, st, c.args[1]))]

        def entry(eng, st, c):
            vt = vty_of_map(eng, c)

            def f(s):
                k = eng.deval(c.args[1], s)
                if M.decide(s, self.mapped(eng, s, k)):
                    return [(s, agg("Entry", 0, (agg("OccupiedEntry", 0, (k, self.cell(eng, s, vt))),)))]
                return [(s, agg("Entry", 1, (agg("VacantEntry", 0, (k,)),)))]
            return M.forking(eng, st, f)

        def occ_get(eng, st, c):
            v = eng.deval(c.args[0], st)
            return [(st, v.a[2][1])]

        def occ_index(eng, st, c):
            v = eng.deval(c.args[0], st)
            return [(st, idx(eng, st, v.a[2][0]))]

        def occ_key(eng, st, c):
            loc, v = eng.deref(c.args[0], st), None
            return [(st, ref(loc[0], loc[1] + (("f", 0, 0, None),)))]

        def insert(eng, st, c):
            st.emit(("ev", "insert", (eng.deval(c.args[1], st), c.args[2]), 0, c.span))
            return [(st, eng.fresh(eng.occ(st, c, "insert"), st.binders, c.dty))]

        def vac_insert(eng, st, c):
            v = eng.deval(c.args[0], st)
            st.emit(("ev", "insert", (v.a[2][0], c.args[1]), 0, c.span))
            return [(st, eng.fresh(eng.occ(st, c, "insert"), st.binders, c.dty))]

        def is_empty(eng, st, c):
            return [(st, E.eq0(app("stream_count", (eng.deval_safe(c.args[0], st),), ("r", 0, LEN_MAX))))]

        def length(eng, st, c):
            return [(st, app("stream_count", (eng.deval_safe(c.args[0], st),), ("r", 0, LEN_MAX)))]

        def values(eng, st, c):
            vt = vty_of_map(eng, c)
            self.vty = vt
            n = app("stream_count", (eng.deval_safe(c.args[0], st),), ("r", 0, LEN_MAX))
            s = mk("seqsym", "streams", (), vt, n)
            h = ("H", "streams")
            st.mem[h] = s
            kt = map_ty(eng, c)["a"][0]
            m = c.defn.rsplit("::", 1)[1]
            vals = M.it_slice((h, ()), 0, n, vt)
            if m in ("values", "values_mut", "into_values"):
                return [(st, vals)]
            hk = ("H", "streamkeys")
            st.mem[hk] = mk("seqsym", "streamkeys", (), kt, n)
            keys = M.it_slice((hk, ()), 0, n, kt)
            return [(st, keys if m == "keys" else agg("it:zip", 0, (keys, vals)))]

        IM = r"indexmap::(map::)?IndexMap::<.*>::"
        return [
            (IM + r"(get|get_mut)$", look(get)),
            (IM + r"(get_full|get_full_mut)$", look(get_full)),
            (IM + r"get_index_of$", look(get_index_of)),
            (IM + r"contains_key$", contains),
            (IM + r"entry$", entry),
            (r"indexmap::map::.*OccupiedEntry::<.*>::(get|get_mut|into_mut)$", occ_get),
            (r"indexmap::map::.*OccupiedEntry::<.*>::index$", occ_index),
            (r"indexmap::map::.*OccupiedEntry::<.*>::key$", occ_key),
            (IM + r"(insert|insert_full)$", insert),
            (r"indexmap::map::.*VacantEntry::<.*>::insert$", vac_insert),
            (IM + r"is_empty$", is_empty),
            (IM + r"len$", length),
            (IM + r"(values|values_mut|iter|iter_mut|keys|into_values)$", values),
        ]


def read_packet(eng, st, c):
    """next packet: an I/O or Ogg error, the end of the input, or an arbitrary packet"""
    nm = eng.occ(st, c, "pkt")
    rd = eng.deval_safe(c.args[0], st)
    res = []
    pty = None
    t = eng.ty[c.dty]
    opt = eng.ty[t["a"][0]]
    pty = opt["a"][0]
    for k in (0, 1, 2):
        s = st.clone()
        kind = app(nm + ".kind", st.binders, ("r", 0, 2))
        if not s.assume(E.eq(kind, k), True):
            continue
        if k == 0:
            p = eng.fresh(nm, st.binders, pty)
            s.emit(("ev", "read_packet", (rd,), p, c.span))
            res.append((s, ok(some(p))))
        elif k == 1:
            s.emit(("ev", "end_of_input", (rd,), 0, c.span))
            res.append((s, ok(NONE)))
        else:
            x = eng.fresh(nm + ".err", st.binders, t["a"][1])
            s.emit(("ev", "read_error", (rd,), x, c.span))
            res.append((s, err(x)))
    return res


def fallible(name, okv, nargs_from=1, mem=None):
    """hook of a call returning Result: both outcomes"""
    def h(eng, st, c):
        nm = eng.occ(st, c, name)
        t = eng.ty[c.dty]
        args = tuple(eng.deval_safe(a, st) for a in c.args[nargs_from:])
        res = []
        for good in (1, 0):
            s = st.clone()
            if not s.assume(app(nm + ".ok", st.binders, ("r", 0, 1)), good):
                continue
            if good:
                v = okv(eng, s, c, nm, t["a"][0])
                s.emit(("ev", name, args, v, c.span))
                res.append((s, ok(v)))
            else:
                x = eng.fresh(nm + ".err", st.binders, t["a"][1])
                s.emit(("ev", name + ":error", args, x, c.span))
                res.append((s, err(x)))
        return res
    return h


def packet_fact(name):
    def h(eng, st, c):
        v = eng.deval(c.args[0], st)
        return [(st, eng.fresh("packet." + name, (v,), c.dty))]
    return h


# =====================================================================================================
import facts as FD
from refcmp import *

PASS2 = "reader2"


class Harness:
    def __init__(self, F):
        self.F = F
        self.opts = {}
        self.functions = set()

    def field(self, eng, v, ti, name):
        """(value, type) of a named field of a struct value"""
        t = eng.ty[ti]
        for i, (fn, ft) in enumerate(t["v"][0]["f"]):
            if fn == name:
                return i, ft
        raise E.Unsupported("no field %s" % name)

    def run(self, S=None, pass1="full", cut=None, inline_new=True, tree="remux", remuxer=None):
        """one abstract run of the remuxer; cut(eng, st) is called when the second reader is created and
        returns the states to go on with"""
        F = self.F
        streams = Streams((lambda eng, t: S) if S is not None else None)
        me = self

        def new_reader(eng, st, c):
            u = dict(st.user or {})
            u["readers"] = u.get("readers", 0) + 1
            st.user = u
            outs = [st]
            if u["readers"] == 2 and cut is not None:
                outs = cut(eng, st, c)
            res = []
            for s in outs:
                nm = eng.occ(s, c, "reader%d" % u["readers"])
                r = app(nm, s.binders, ("ty", c.dty))
                s.emit(("ev", "new_reader", tuple(eng.deval_safe(a, s) for a in c.args), r, c.span))
                res.append((s, r))
            return res

        def rd(eng, st, c):
            if pass1 == "skip" and (st.user or {}).get("readers") == 1:
                s = st
                s.emit(("ev", "end_of_input", (), 0, c.span))
                return [(s, ok(NONE))]
            me.pkt_ty = eng.ty[eng.ty[c.dty]["a"][0]]["a"][0]
            return read_packet(eng, st, c)

        def opt_new(eng, st, c):
            res = []
            arg = eng.deval_safe(c.args[1], st)
            how = eng.deval_safe(c.args[0], st)
            for o in eng.call_fn(st, c.fn, c.args, c.frame, c.bb):
                if o[0] == "ret":
                    s, v = o[1], o[2]
                    v = eng.force(v, s)
                    s.emit(("ev", "opt_new", (arg, how), v, c.span))
                    if v.a[1] == 0:
                        me.opt_ty = eng.ty[c.dty]["a"][0]
                res.append(o)
            return res

        def mangler(eng, st, c):
            n = c.defn.rsplit("::", 1)[1]
            nm = eng.occ(st, c, n)
            r = eng.fresh(nm, st.binders, c.dty)
            st.emit(("ev", n, tuple(eng.deval_safe(a, st) for a in c.args[1:]), r, c.span))
            return [(st, r)]

        def src_ev(eng, st, c):
            n = c.defn.rsplit("::", 1)[1]
            t = eng.ty[c.dty]
            f = fallible(n, lambda e_, s, c_, nm, ti: eng.fresh(nm, s.binders, ti))
            return f(eng, st, c)

        def optz(eng, s, c, nm, ti):
            # Some((data, block size)) or None
            return app(nm, s.binders, ("ty", ti))

        H = streams.hooks() + [
            (r"^ogg::PacketReader::<.*>::read_packet$", rd),
            (r"^ogg::PacketReader::<.*>::(new|new_with_page_parse_opts)$", new_reader),
            (r"^ogg::PacketWriter::<.*>::new$", event("new_writer", 0)),
            (r"^ogg::PacketWriter::<.*>::write_packet$", fallible("write_packet", lambda e_, s, c, nm, ti: E.UNIT)),
            (r"^(optivorbis::)?(vorbis::optimizer::)?VorbisOptimizer::<.*>::new(::<|$)", opt_new),
            (r"^(optivorbis::)?(vorbis::optimizer::)?VorbisOptimizer::<.*>::analyze_packet(::<|$)", fallible("analyze", optz)),
            (r"^(optivorbis::)?(vorbis::optimizer::)?VorbisOptimizer::<.*>::optimize_packet(::<|$)", fallible("optimize", optz)),
            (r"OggVorbisStreamMangler>?::mangle_\w+$", mangler),
            (r"^ogg::Packet::\w+$", lambda eng, st, c: packet_fact(c.defn.rsplit("::", 1)[1])(eng, st, c)),
            (r"std::io::Seek>?::\w+$", src_ev),
            (r"^(std::result|std::option|core::panicking|core::option|core::result)::unwrap_failed", None),
        ]
        H = [h for h in H if h[1]]
        e = Engine(F, H, dict(self.opts))
        fn = F.find(r"^vproots::root_remux$")
        if len(fn) != 1:
            raise E.Unsupported("anchor vproots::root_remux")
        fn = fn[0]
        st = e.initial()
        self.args = [e.fresh("arg%d" % i, (), fn["body"]["locals"][i + 1]) for i in range(3)]
        st.user = {}
        if remuxer is not None:
            st.mem[self.args[0].a[0]] = remuxer
        out = e.call_fn(st, fn, list(self.args))
        self.streams = streams
        self.eng = e
        self.functions |= e.analysed
        return e, out


def loops_with(items, evname, acc=None):
    """top-level loops of a trace whose iteration has the event"""
    acc = [] if acc is None else acc
    for x in items:
        if x[0] == "loop":
            n = x[1]
            if any(has_ev(p, evname) for p in n.nexts) or any(has_ev(p, evname) for p, _, _ in n.exits):
                if all(m.uid != n.uid for m in acc):
                    acc.append(n)
    return acc


def has_ev(items, name):
    for x in items:
        if x[0] == "ev" and x[1] == name:
            return True
        if x[0] == "loop" and (any(has_ev(p, name) for p in x[1].nexts) or any(has_ev(p[0], name) for p in x[1].exits)):
            return True
    return False


def evs(items, *names):
    return [x for x in items if x[0] == "ev" and (not names or x[1] in names)]


# ------------------------------------------------------------------ reference of the identification header
def le(bs):
    return add(*[scale(b, 256 ** i) for i, b in enumerate(bs)])


def sle32(eng, bs):
    return wrap("i32", le(bs))


def byte(c, data, i):
    return c.eng.sel(data, i, c.eng.F.u8, c)


def ident_class(c, data):
    """'foreign' (not a Vorbis identification header), 'corrupt' or 'ok'"""
    n = slen(data)
    if c.b(lt(n, 7)):
        return "foreign"
    if not c.b(E.eq(byte(c, data, 0), 1)):
        return "foreign"
    for i, ch in enumerate(b"vorbis"):
        if not c.b(E.eq(byte(c, data, 1 + i), ch)):
            return "foreign"
    if c.b(lt(n, 30)):
        return "corrupt"
    if not c.b(E.eq(le([byte(c, data, 7 + i) for i in range(4)]), 0)):
        return "corrupt"
    if c.b(E.eq(byte(c, data, 11), 0)):
        return "corrupt"
    if c.b(E.eq(le([byte(c, data, 12 + i) for i in range(4)]), 0)):
        return "corrupt"
    b = byte(c, data, 28)
    lo, hi = rem(b, 16), div(b, 16)
    for x in (lo, hi):
        if c.b(lt(x, 6)) or c.b(ge(x, 14)):
            return "corrupt"
    if not c.b(ge(hi, lo)):
        return "corrupt"
    return "ok"


# ------------------------------------------------------------------ abstraction of the stream state
WIDE = 5


class Pair:
    """code state of one stream + reference state, renamed so that equal terms share a symbol"""

    def __init__(self, S, R):
        self.S, self.R = S, R

    def key(self):
        return (self.S, tuple(sorted(self.R.items())))


class Gen:
    def __init__(self, H):
        self.H = H
        self.const = {}

    def gen(self, eng, S, sty, R, facts):
        """rename leaves; facts only survive as ranges of the new symbols"""
        names = {}
        rmap = {}

        def symf(t, lo, hi):
            r = renorm(t, facts)
            if isinstance(r, int):
                if -1 <= r < WIDE:
                    return r
                t = r
            k = r
            if k in names:
                return names[k]
            l, h = rng(t, facts) if not isinstance(t, int) else (t, t)
            l = max(l, lo)
            l = WIDE if l >= WIDE and lo >= 0 else lo if l < 0 or lo < 0 else (l if l < WIDE else WIDE)
            s = app("g%d" % len(names), (), ("r", l, hi))
            names[k] = s
            return s

        R2 = {}
        for k, v in R.items():
            R2[k] = None if v is None else tuple((symf(x, *INT_RANGE_C[ty]), ty) for x, ty in v)

        def swalk(v, ti, path):
            t = eng.ty[ti]
            k = t["k"]
            if k in ("int", "bool", "char"):
                ty = eng.int_ty(ti)
                lo, hi = INT_RANGE_C.get(ty, (0, 1))
                return symf(v, lo, hi)
            if k == "adt" and t["n"] == "Option" and isinstance(v, T) and v.op == "agg":
                return agg("Option", v.a[1], tuple(swalk(x, t["a"][0], path) for x in v.a[2]))
            if k == "tuple" and isinstance(v, T) and v.op == "agg":
                return agg("()", 0, tuple(swalk(x, f, path) for x, f in zip(v.a[2], t["f"])))
            if k == "adt" and t["kind"] in ("struct", "enum") and isinstance(v, T) and v.op == "agg" and t["c"] == "optivorbis" \
                    and t["n"] != "VorbisOptimizer":
                fs = t["v"][v.a[1]]["f"]
                return agg(v.a[0], v.a[1], tuple(swalk(x, ft, path + (fn,)) for x, (fn, ft) in zip(v.a[2], fs)))
            # anything else (the optimizer) is an arbitrary constant of the stream
            if t.get("n") == "VorbisOptimizer":
                return app("the_optimizer", (), ("ty", ti))
            return app("opaque_state%s" % (path,), (), ("ty", ti))
        S2 = swalk(S, sty, ())
        return Pair(S2, R2)


INT_RANGE_C = {k: v for k, v in INT_RANGE.items()}
INT_RANGE_C["usize"] = (0, LEN_MAX)


# ------------------------------------------------------------------ helpers
def pkt_data(eng, H, pkt):
    i, ft = H.field(eng, pkt, H.pkt_ty, "data")
    return eng.proj(pkt, 0, i, ft)


PKT_RANGE = {"first_in_stream": (0, 1), "last_in_stream": (0, 1), "last_in_page": (0, 1), "absgp_page": INT_RANGE["u64"],
             "checksum_page": INT_RANGE["u32"], "stream_serial": INT_RANGE["u32"]}


def pkt_fn(name, pkt):
    return app("packet." + name, (pkt,), ("r",) + tuple(PKT_RANGE[name]))


def find_leaf(v, suffix):
    """the unique symbol of an abstract value whose name ends with .suffix"""
    hit = set()

    def go(t):
        if isinstance(t, tuple):
            for x in t:
                go(x)
        elif isinstance(t, T):
            if t.op == "app" and isinstance(t.a[0], str) and t.a[0].endswith("." + suffix):
                hit.add(t)
            else:
                go(t.a)
    go(v)
    if len(hit) != 1:
        raise E.Unsupported("setting %s not found" % suffix)
    return hit.pop()


def opt_split(eng, v, f, payload_ty=None):
    """an abstract Option: [(facts, present)]"""
    if isinstance(v, T) and v.op == "agg":
        return [(f, v.a[1])]
    d = app("discr", (v,), ("r", 0, 1))
    return [(g, val) for val in (1, 0) for g in (f.assume(d, val),) if g is not None]


def uid_short(node):
    return node.where.replace("/repo/", "")


def first_pass(F, rep):
    """all iteration paths of the analysis pass, and the reachable (code, reference) stream states"""
    H = Harness(F)
    cuts = []

    def cut(eng, st, c):
        cuts.append(st)
        return []
    e, out = H.run(cut=cut)
    if not cuts:
        rep.bad("C15", "second-reader", "no second read of the input follows the analysis pass")
        return H, []
    nodes = []
    for st in cuts:
        loops_with(st.items(), "read_packet", nodes)
    for o in out:
        if o[0] == "ret":
            loops_with(o[1].items(), "read_packet", nodes)
    nodes = [n for n in nodes if any(has_ev(p, "analyze") for p in n.nexts)]
    if len(nodes) != 1:
        rep.bad("C19", "first-pass-loop", "expected one loop feeding packets to the stream analysis, found %d" % len(nodes))
        return H, []
    node = nodes[0]
    starts = []
    check_first_paths(H, e, node, rep, starts)
    check_first_end(H, e, node, cuts, out, rep)
    # product of the code state of a stream with the reference state
    todo, seen, reach = [], {}, []
    g = Gen(H)

    def push(S, R, facts):
        p = g.gen(H.eng, S, H.streams.vty, R, facts)
        if p.key() not in seen:
            if len(seen) > 200:
                raise E.Unsupported("stream state abstraction does not converge")
            seen[p.key()] = p
            todo.append(p)
            reach.append(p)
    for S, facts in starts:
        push(S, {"total": ((1, "usize"),), "first": None}, facts)
    while todo:
        p = todo.pop()
        e2, _ = run_cut(H, p.S)
        nd = [n for n in H.nodes if any(has_ev(q, "analyze") for q in n.nexts)]
        for items, o in zip(nd[0].nexts, nd[0].nstates):
            a = evs(items, "analyze")
            if len(a) != 1:
                continue
            pk = evs(items, "read_packet")[0][3]
            S1 = o.mem.get(ST, p.S)
            rep.n("C12", "first_pass_transitions")
            for f, R1 in ref_runs(o.facts, lambda c: ref_analyze(c, p.R, a[0][3], pk), e2):
                if R1 is not None:
                    push(S1, R1, f)
    return H, reach


def run_cut(H, S):
    got = []
    e, out = H.run(S=S, cut=lambda eng, st, c: got.append(st) or [])
    H.nodes = []
    for st in got:
        loops_with(st.items(), "read_packet", H.nodes)
    return e, out


def ref_analyze(c, R, x, pk):
    """reference: accounting of one analysed packet of a known stream"""
    T_ = R["total"][0][0]
    some_ = c.b(app("discr", (x,), ("r", 0, 1)))
    if some_ and c.b(ge(2, T_)):
        return None  # only audio packets (after three headers) have a block size
    R1 = dict(R)
    if c.b(ge(2, T_)) or some_:
        if R["first"] is None and some_ and c.b(pkt_fn("last_in_page", pk)):
            R1["first"] = ((wrap("i64", pkt_fn("absgp_page", pk)), "i64"), (T_, "usize"))
        R1["total"] = ((add(T_, 1), "usize"),)
    return R1


def check_first_paths(H, e, node, rep, starts):
    eng = e
    err_lits = set()
    recs = []
    for kind, items, o, pay in [("next", p, s, None) for p, s in zip(node.nexts, node.nstates)] + \
            [("exit", p[0], s, p[1]) for p, s in zip(node.exits, node.estates)]:
        ev = evs(items)
        src = evs(items, "read_packet", "end_of_input", "read_error")
        if len(src) != 1:
            rep.bad("C19", "first-pass-read", "an iteration of the analysis pass reads %d packets" % len(src), uid_short(node))
            continue
        rep.n("C19", "first_pass_paths")
        if src[0][1] != "read_packet":
            if kind == "next":
                rep.bad("C16", "first-pass-end", "the analysis pass goes on after %s" % src[0][1], uid_short(node))
            continue
        pk = src[0][3]
        data = pkt_data(eng, H, pk)
        serial = pkt_fn("stream_serial", pk)
        known = app("known_stream", (serial,), ("r", 0, 1))

        def ref(c):
            if c.b(pkt_fn("first_in_stream", pk)):
                return ident_class(c, data)
            if c.b(known):
                return "member"
            return "skip"
        for f, want in ref_runs(o.facts, ref, eng):
            names = [x[1] for x in ev if x[1] != "read_packet"]
            man = [x for x in ev if x[1].startswith("mangle_")]
            ins = [x for x in ev if x[1] == "insert"]
            ana = [x for x in ev if x[1].startswith("analyze")]
            wr = [x for x in ev if x[1] in ("write_packet", "new_writer")]
            if wr:
                rep.bad("C15", "first-pass-writes", "the analysis pass writes output", uid_short(node))
            if want in ("foreign", "skip"):
                if kind == "exit" or man or ins or ana:
                    rep.bad("C19", "foreign-" + want, "a packet of a non-Vorbis stream (%s) is not ignored: %s" % (
                        want, "iteration ends with an error" if kind == "exit" else names), uid_short(node))
            elif want == "corrupt":
                if kind != "exit" or ins or man or ana:
                    rep.bad("C19", "corrupt", "a corrupt Vorbis identification header does not end in an error", uid_short(node))
            elif want == "ok":
                if kind == "exit":
                    if ins or ana or man:
                        rep.bad("C19", "multiplex-side", "a rejected stream has side effects", uid_short(node))
                    recs.append(("reject", items, o, f, pk))
                    continue
                if len(ins) != 1 or ana:
                    rep.bad("C19", "start", "a valid identification header does not start exactly one tracked stream", uid_short(node))
                    continue
                recs.append(("start", items, o, f, pk))
                k, S0 = ins[0][2]
                if not same(k, serial, f):
                    rep.bad("C19", "start-serial", "the stream is tracked under something else than its serial number", uid_short(node))
                check_mangled(H, eng, items, man, data, S0, f, rep, node)
                starts.append((S0, f))
            else:
                if man or ins or len(ana) != 1:
                    rep.bad("C19", "member", "a packet of a known Vorbis stream is not analysed exactly once: %s" % names, uid_short(node))
                    continue
                if not same(ana[0][2][0], data, f):
                    rep.bad("C10", "analyze-data", "the analysed data is not the packet read", uid_short(node))
                if (ana[0][1] == "analyze") != (kind == "next"):
                    rep.bad("C16", "analyze-error", "the outcome of the packet analysis is not propagated", uid_short(node))
                if kind == "next":
                    recs.append(("member", items, o, f, pk))
    # unfinished-stream tracking
    lits = set()

    def carried_lits(items):
        r = []
        for x in items:
            if x[0] == "as" and any(E.contains(x[1], k) for k in node.phis):
                r.append((x[1], x[2]))
        return r
    # conditions that reject a second stream
    cond = None
    for k, items, o, f, pk in recs:
        if k == "reject":
            l = carried_lits(items)
            if len(l) != 1:
                rep.bad("C19", "multiplex-cond", "a stream start is rejected on a condition that does not depend on an earlier stream being unfinished", uid_short(node))
                return
            if cond is not None and cond != l[0]:
                rep.bad("C19", "multiplex-cond2", "several conditions reject the start of a stream", uid_short(node))
                return
            cond = l[0]
    if cond is None:
        rep.bad("C19", "multiplex-none", "no path rejects a stream that starts before another Vorbis stream has ended", uid_short(node))
        return
    ct, cv = cond
    phis = [k for k in node.phis if E.contains(ct, k)]

    def val(m, f):
        return f.decide(subst(ct, m)) if not isinstance(subst(ct, m), int) else subst(ct, m)
    if val({k: node.phis[k][0] for k in phis}, Facts()) != 1 - cv:
        rep.bad("C19", "multiplex-init", "the first stream start is treated as if another stream was unfinished", uid_short(node))
    idx = {id(s): i for i, s in enumerate(node.nstates)}
    other = set(range(len(node.nstates)))
    for k, items, o, f, pk in recs:
        if k == "reject":
            continue
        i = idx[id(o)]
        other.discard(i)
        m = {p: node.phis[p][1][i] for p in phis}
        if k == "start":
            if f.decide(ct) != 1 - cv:
                rep.bad("C19", "multiplex-miss", "a stream start is accepted although another Vorbis stream may be unfinished", uid_short(node))
            if val(m, f) != cv:
                rep.bad("C19", "multiplex-start", "a started stream is not remembered as unfinished", uid_short(node))
        else:
            last = pkt_fn("last_in_stream", pk)
            for lv in (0, 1):
                g = f.assume(last, lv)
                if g is None:
                    continue
                if val(m, g) != (cv if lv == 0 else 1 - cv):
                    rep.bad("C19", "multiplex-update", "after a packet %s its stream, the stream is %s" % (
                        "ending" if lv else "not ending", "still considered unfinished" if lv else "not considered unfinished"), uid_short(node))
    for i in other:
        f = node.nstates[i].facts
        for p in phis:
            if node.phis[p][1][i] is not p and not same(node.phis[p][1][i], p, f):
                rep.bad("C19", "multiplex-foreign", "a packet of a foreign stream changes whether a Vorbis stream is unfinished", uid_short(node))


def check_mangled(H, eng, items, man, data, S0, f, rep, node):
    """stream mangler: gets the header values, its results replace them and nothing else"""
    new = [x for x in items if x[0] == "ev" and x[1] == "opt_new"]
    if len(new) != 1:
        rep.bad("C27", "opt-new", "the identification header is parsed %d times" % len(new), uid_short(node))
        return
    if not same(new[0][2][0], data, f):
        rep.bad("C19", "ident-data", "the stream is not initialised from the packet read", uid_short(node))
    V = new[0][3].a[2][0]
    c = Ctx(f, eng)
    by = [eng.sel(data, i, eng.F.u8, c) for i in range(30)]
    freq = le(by[12:16])
    bit = {"max": wrap("i32", le(by[16:20])), "nom": wrap("i32", le(by[20:24])), "min": wrap("i32", le(by[24:28]))}
    d = {x[1]: x for x in man}
    if sorted(x[1] for x in man) != ["mangle_bitrates", "mangle_sampling_frequency"]:
        rep.bad("C27", "hooks-start", "at the start of a stream the hooks called are %s" % sorted(x[1] for x in man), uid_short(node))
        return
    if not same(d["mangle_sampling_frequency"][2][0], freq, f):
        rep.bad("C27", "freq-arg", "the sampling frequency hook does not get the sampling frequency of the header", uid_short(node))
    for i, k in enumerate(("min", "nom", "max")):
        if not same(d["mangle_bitrates"][2][i], bit[k], f):
            rep.bad("C27", "bitrate-arg-" + k, "the bitrate hook does not get the %s bitrate of the header in its place" % k, uid_short(node))
    br = d["mangle_bitrates"][3]
    repl = {freq: d["mangle_sampling_frequency"][3], bit["min"]: eng.read_path(br, (("f", 0, 0, None),), St(f)),
            bit["nom"]: eng.read_path(br, (("f", 0, 1, None),), St(f)), bit["max"]: eng.read_path(br, (("f", 0, 2, None),), St(f))}

    def swap(t):
        if t in repl:
            return repl[t]
        if isinstance(t, T) and t.op == "agg":
            return agg(t.a[0], t.a[1], tuple(swap(x) for x in t.a[2]))
        return t
    want = swap(V)
    have = None

    def find(t):
        nonlocal have
        if isinstance(t, T) and t.op == "agg":
            if t.a[0] == V.a[0]:
                have = t
            for x in t.a[2]:
                find(x)
    find(S0)
    if have is None or not same(have, want, f):
        rep.bad("C27", "freq-result", "the values returned by the stream mangler hooks do not replace those of the header one to one", uid_short(node))
    rep.n("C27", "stream_starts")


def check_first_end(H, e, node, cuts, out, rep):
    st0 = e.initial()
    me = e.obj_get(st0, H.args[0].a[0])
    err_none = find_leaf(me, "error_on_no_vorbis_streams")
    for st in cuts:
        rep.n("C19", "pass_ends")
        cnt = [x[1] for x in st.items() if x[0] == "as" and "stream_count" in show(x[1])]
        conds = [t for t in cnt]
        f = st.facts.assume(err_none, 1)
        if f is None:
            continue
        zero = None
        for t in conds:
            a = t
            zero = count_term(t)
            if zero is not None:
                break
        if zero is None or f.decide(E.eq(zero, 0)) != 0:
            rep.bad("C19", "no-stream", "an input without Vorbis streams is accepted although the settings ask for an error")
    for o in out:
        if o[0] != "ret":
            continue
        v = o[2]
        it = o[1].items()
        er = [x for x in it if x[0] == "ev" and x[1].endswith("error")] 
        if not (isinstance(v, T) and v.op == "agg" and v.a[0] == "Result"):
            continue
        if v.a[1] == 0:
            rep.bad("C15", "early-ok", "remuxing succeeds without a second pass over the input")
        elif er and not err_causes(v, er[-1][3]):
            rep.bad("C16", "cause-" + er[-1][1], "the error of %s is not the one reported" % er[-1][1].split(":")[0])


def count_term(t):
    hit = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T):
            if x.op == "app" and x.a[0] == "stream_count":
                hit.append(x)
            else:
                go(x.a)
    go(t)
    return hit[0] if hit else None


def err_causes(v, cause):
    return isinstance(v, T) and E.contains(v, cause)


# ------------------------------------------------------------------ second pass
def join_mem(eng, states):
    """one abstract memory covering all states; -> (mem, {symbol: [value per state]})"""
    J = {}

    def jn(vs, name):
        a = vs[0]
        if all(v is a or v == a for v in vs):
            return a
        if all(E.is_intish(v) if isinstance(v, T) else isinstance(v, int) for v in vs):
            lo = min(rng(v)[0] for v in vs)
            hi = max(rng(v)[1] for v in vs)
            for k, w in J.items():
                if w == vs:
                    return k
            s = app("join:" + name, (), ("r", lo, hi))
            J[s] = vs
            return s
        if all(isinstance(v, T) and v.op == "agg" and v.a[:2] == a.a[:2] and len(v.a[2]) == len(a.a[2]) for v in vs if True) and isinstance(a, T) and a.op == "agg":
            return agg(a.a[0], a.a[1], tuple(jn([v.a[2][i] for v in vs], name + ".%d" % i) for i in range(len(a.a[2]))))
        s = app("join:" + name, (), None)
        J[s] = vs
        return s
    mem = {}
    for k in states[0].mem:
        if all(k in s.mem for s in states):
            mem[k] = jn([s.mem[k] for s in states], str(k))
    return mem, J


def run_second(H, S):
    """the optimisation pass from the join of all ways to reach it, one stream being in state S"""
    arr = []
    H.run(S=S, pass1="skip", cut=lambda eng, st, c: arr.append(st) or [])
    mem, J = join_mem(H.eng, arr)
    first = []

    def go(eng, st, c):
        if first:
            return []
        first.append(1)
        s = st.clone()
        s.mem = dict(mem)
        s.facts = Facts()
        # the arguments of this very call may be joined values, too
        c.args = [subst_join(a, J, arr, 0) for a in c.args]
        return [s]
    e, out = H.run(S=S, pass1="skip", cut=go)
    return e, out, arr, J


def subst_join(a, J, arr, i):
    return a


def variant_name(F, adt, idx):
    for t in F.tys:
        if t["k"] == "adt" and t["n"] == adt:
            return t["v"][idx]["n"]
    raise E.Unsupported("type " + adt)


def second_pass(F, rep, reach, limit=None):
    H = Harness(F)
    g = Gen(H)
    todo, seen = [], {}

    def push(S, R, facts):
        p = g.gen(H.eng, S, H.streams.vty, R, facts)
        if p.key() not in seen:
            if len(seen) > 400:
                raise E.Unsupported("stream state abstraction does not converge")
            seen[p.key()] = p
            todo.append(p)
    run_second(H, reach[0].S)
    for p in reach:
        R = dict(p.R)
        R.update(n=((0, "usize"),), prev=None, off=None)
        push(p.S, R, ranges_of(p))
    first = True
    while todo:
        p = todo.pop(0)
        e, out, arr, J = run_second(H, p.S)
        nodes = []
        for o in out:
            loops_with(o[1].items(), "optimize", nodes)
        if len(nodes) != 1:
            rep.bad("C10", "second-pass-loop", "expected one loop feeding packets to the optimiser, found %d" % len(nodes))
            return H
        node = nodes[0]
        ctx = dict(serials=first, H=H, e=e, node=node, rep=rep, J=J, arr=arr, p=p)
        first = False
        for items, o, pay in [(q, s, None) for q, s in zip(node.nexts, node.nstates)] + \
                [(q[0], s, q[1]) for q, s in zip(node.exits, node.estates)]:
            for S1, R1, f in check_second(ctx, items, o, pay):
                push(S1, R1, f)
        check_second_end(H, e, out, rep)
    rep.n("C12", "stream_states", len(seen))
    rep.n("C10", "stream_states", len(seen))
    rep.n("C11", "stream_states", len(seen))
    return H


def ranges_of(p):
    return Facts()


def settings_leaf(H, e, name):
    return find_leaf(e.obj_get(e.initial(), H.args[0].a[0]), name)


def ref_granule(c, R, n, bs, absgp, last, ignore):
    """reference granule position of packet n: -> (value, new prev, new off)"""
    first, prev, off = R["first"], R["prev"], R["off"]
    if c.b(ge(2, n)):
        return 0, prev, off
    if c.b(E.eq(n, 3)):
        g = 0
        if first is not None and c.b(E.eq(first[1][0], 3)):
            off = ((first[0][0], "i64"),)
            g = 0 if c.b(ignore) else first[0][0]
        return g, ((g, "i64"), (bs, "u16")), off
    if prev is None:
        return None, prev, off
    P, B = prev[0][0], prev[1][0]
    calc = wrap("i64", add(P, div(add(B, bs), 4)))
    if last:
        o = off[0][0] if off is not None else 0
        adj = o if c.b(ignore) else 0
        orig = wrap("i64", absgp)
        if c.b(ge(orig, wrap("i64", add(P, adj, 1)))) and c.b(ge(wrap("i64", add(calc, adj)), orig)):
            return wrap("i64", sub(orig, adj)), prev, off
        return calc, prev, off
    if first is not None and c.b(E.eq(first[1][0], n)):
        lo, hi = INT_RANGE["i64"]
        d = sub(first[0][0], calc)
        o = tmin((tmax((d, lo)), hi))
        g = calc if c.b(ignore) else wrap("i64", add(calc, o))
        return g, ((g, "i64"), (bs, "u16")), ((o, "i64"),)
    return calc, ((calc, "i64"), (bs, "u16")), off


def check_second(ctx, items, o, pay):
    """compare one iteration of the optimisation pass with the reference; yields successor states"""
    H, e, node, rep, p = ctx["H"], ctx["e"], ctx["node"], ctx["rep"], ctx["p"]
    F = H.F
    w = uid_short(node)
    src = evs(items, "read_packet", "end_of_input", "read_error")
    if len(src) != 1:
        rep.bad("C10", "second-pass-read", "an iteration of the optimisation pass reads %d packets" % len(src), w)
        return
    for q in ("C10", "C11", "C12", "C13", "C27"):
        rep.n(q, "second_pass_paths")
    if src[0][1] != "read_packet":
        if pay is None:
            rep.bad("C16", "second-pass-end", "the optimisation pass goes on after %s" % src[0][1], w)
        return
    pk = src[0][3]
    data = pkt_data(e, H, pk)
    serial = pkt_fn("stream_serial", pk)
    known = app("known_stream", (serial,), ("r", 0, 1))
    opt = [x for x in evs(items) if x[1].startswith("optimize")]
    man = [x for x in evs(items) if x[1].startswith("mangle_")]
    wr = [x for x in evs(items) if x[1].startswith("write_packet")]
    oth = [x[1] for x in evs(items) if x[1] in ("insert", "analyze", "opt_new")]
    if oth:
        rep.bad("C10", "second-pass-other", "the optimisation pass does %s" % oth, w)
    k = o.facts.decide(known)
    if k is None:
        ks = [0, 1]
    else:
        ks = [k]
    if 0 in ks:
        if opt or man or wr or pay is not None:
            rep.bad("C19", "second-foreign", "a packet of a stream that is not Vorbis is not ignored by the optimisation pass", w)
    if 1 not in ks:
        return
    if len(opt) != 1:
        rep.bad("C10", "optimize-once", "a packet of a tracked stream is handed %d times to the optimiser" % len(opt), w)
        return
    if not same(opt[0][2][0], data, o.facts):
        rep.bad("C10", "optimize-data", "the optimised data is not the packet read", w)
    if opt[0][1] == "optimize:error":
        if pay is None or wr:
            rep.bad("C16", "optimize-error", "an error of the packet optimisation is not propagated", w)
        return
    x = opt[0][3]
    oty = e.ty[x.a[2][1]]
    S1 = o.mem.get(ST, p.S)
    for f, present in opt_split(e, x, o.facts):
        if not present:
            if man or wr or pay is not None:
                rep.bad("C10", "discard", "a packet discarded by the optimiser is not skipped", w)
            yield S1, p.R, f
            continue
        tupl = e.proj(x, 1, 0, oty["a"][0])
        odata, obs = tupl.a[2]
        R = p.R
        n = R["n"][0][0]
        T_ = R["total"][0][0]
        for f2, bpres in opt_split(e, obs, f):
            if not bpres and f2.decide(ge(n, 3)) != 0:
                f3 = f2.assume(ge(n, 3), 0)
                if f3 is None:
                    continue  # audio packets always have a block size
                f2 = f3
            bs = e.proj(obs, 1, 0, e.ty[obs.a[2][1]]["a"][0]) if bpres else None

            def ref(c):
                if not c.b(ge(sub(T_, 1), n)):
                    return None  # more packets than analysed: excluded, both passes keep the same packets
                last = c.b(E.eq(n, sub(T_, 1)))
                if last:
                    info = "EndStream"
                elif c.b(E.eq(n, 0)) or c.b(E.eq(n, 2)):
                    info = "EndPage"
                else:
                    info = "NormalPacket"
                hdr = int(c.b(ge(2, n)))
                if not hdr and bs is None:
                    return None
                gr, prev, off = ref_granule(c, R, n, bs, pkt_fn("absgp_page", pk), last, settings_leaf(H, e, "ignore_start_sample_offset"))
                return last, info, hdr, gr, prev, off
            for f4, r in ref_runs(f2, ref, e):
                if r is None:
                    continue
                last, info, hdr, gr, prev, off = r
                if gr is None:
                    continue
                names = sorted(q[1] for q in man)
                if names != ["mangle_granule_position", "mangle_packet_page_end_info", "mangle_packet_stream_serial"]:
                    rep.bad("C27", "hooks-packet", "the hooks called for a written packet are %s" % names, w)
                    return
                if len(wr) != 1:
                    rep.bad("C10", "write-once", "a kept packet is written %d times" % len(wr), w)
                    return
                if (wr[0][1] == "write_packet") != (pay is None):
                    rep.bad("C16", "write-error", "the outcome of writing a packet is not propagated", w)
                m = {q[1]: q for q in man}
                A = wr[0][2]
                st = St(f4)
                if not same(A[0], odata, f4):
                    rep.bad("C10", "write-data", "the data written is not the optimised packet", w)
                ms, mi, mg = (m[k][3] for k in ("mangle_packet_stream_serial", "mangle_packet_page_end_info", "mangle_granule_position"))
                if not same(A[1], ms, f4):
                    rep.bad("C13", "write-serial", "the serial written is not the one the hook returned", w)
                if not same(A[2], mi, f4):
                    rep.bad("C11", "write-info", "the page boundary written is not the one the hook returned", w)
                if not same(A[3], rem(mg, 1 << 64), f4):
                    rep.bad("C12", "write-granule", "the granule position written is not the one the hook returned", w)
                for hk in m:
                    a = m[hk][2]
                    if not same(a[1], n, f4):
                        rep.bad("C27", "number-" + hk, "hook %s does not get the packet's number" % hk, w)
                    if hk == "mangle_granule_position":
                        if not same(a[2], hdr, f4):
                            rep.bad("C27", "header-flag", "the granule position hook is told the wrong packet kind", w)
                    if not same(a[-1], int(last), f4):
                        rep.bad("C10", "last-flag", "packet %s of %s is %sannounced as the last of its stream (%s)" % (
                            show(n), show(T_), "not " if last else "", hk), w)
                got = m["mangle_packet_page_end_info"][2][0]
                gi = variant_name(F, "PacketWriteEndInfo", got.a[1]) if isinstance(got, T) and got.op == "agg" else show(got)
                if gi != info:
                    rep.bad("C10" if "EndStream" in (gi, info) else "C11", "page-" + info + "-" + gi,
                            "packet %s of %s is written as %s instead of %s" % (show(n), show(T_), gi, info), w)
                gg = m["mangle_granule_position"][2][0]
                if split_same(gg, gr, f4) is not None:
                    rep.bad("C12", "granule-%s%s%s" % (show(n) if isinstance(n, int) else "n", "-last" if last else "",
                            "-firstpage" if R["first"] is not None and off is not R["off"] else ""),
                            "granule position of packet %s%s is %s instead of %s" % (show(n), " (last)" if last else "", show(gg)[:160], show(gr)[:160]), w)
                if ctx["serials"]:
                    check_serial(ctx, m["mangle_packet_stream_serial"][2][0], serial, f4)
                rep.n("C12", "granule_comparisons")
                if pay is None and not last:
                    R1 = dict(R)
                    R1["n"] = ((add(n, 1), "usize"),)
                    R1["prev"], R1["off"] = prev, off
                    yield S1, R1, f4


def check_serial(ctx, t, serial, f):
    H, e, rep = ctx["H"], ctx["e"], ctx["rep"]
    w = uid_short(ctx["node"])
    idx = app("stream_index", (serial,), ("r", 0, LEN_MAX))
    rnd = settings_leaf(H, e, "randomize_stream_serials")
    off = settings_leaf(H, e, "first_stream_serial_offset")
    for i, st in enumerate(ctx["arr"]):
        v = subst(t, {k: vs[i] for k, vs in ctx["J"].items()})
        for r in (0, 1):
            g = st.facts.assume(rnd, r)
            if g is None:
                continue
            rep.n("C13", "serial_cases")
            base = subst(v, {idx: 0})
            step = rem(sub(subst(v, {idx: 1}), base), 1 << 32)
            if not same(rem(v, 1 << 32), rem(add(base, mul(step, idx)), 1 << 32), g):
                rep.bad("C13", "serial-affine", "serials of the streams are not consecutive multiples of one increment: %s" % show(v)[:200], w)
                continue
            if E.contains(base, serial) or E.contains(step, serial):
                rep.bad("C13", "serial-input", "the output serial depends on the input serial", w)
            if not r:
                if not same(base, off, g) or not same(step, 1, g):
                    rep.bad("C13", "serial-fixed", "without randomisation the serials are %s + i * %s" % (show(base)[:100], show(step)[:100]), w)
            else:
                b0 = rem(sub(base, off), 1 << 32)
                if E.contains(b0, off) or E.contains(step, off):
                    rep.bad("C13", "serial-offset", "the configured offset is not added once to the random first serial: %s" % show(base)[:160], w)
                if not same(rem(step, 2), 1, g):
                    rep.bad("C13", "serial-odd", "the random serial increment may be even, so serials may repeat: %s" % show(step)[:160], w)
                if isinstance(b0, int):
                    rep.bad("C13", "serial-random", "the first serial is not random although the settings ask for it", w)


def seek_start(v):
    return isinstance(v, T) and v.op == "agg" and v.a[0] == "SeekFrom" and v.a[1] == 0


def check_rewind(H, rep):
    """the position of the input before the first read is restored before the second pass"""
    cuts = []

    def cut(eng, st, c):
        u = [eng.deval_safe(a, st) for a in c.args]
        cuts.append((st, u))
        return []
    e, out = H.run(cut=cut)
    for st, args2 in cuts:
        rep.n("C15", "second_pass_entries")
        seq = []
        for x in st.items():
            if x[0] == "loop":
                if any(has_ev(p, "read_packet") for p in x[1].nexts):
                    seq.append(("pass1", None))
                continue
            if x[0] != "ev":
                continue
            if x[1] == "stream_position" or x[1] == "seek" and x[2] and isinstance(x[2][0], T) and x[2][0].op == "agg" \
                    and x[2][0].a[1] == 2 and x[2][0].a[2][0] == 0:
                seq.append(("pos", x[3]))
            elif x[1] == "seek" and x[2] and isinstance(x[2][0], T) and x[2][0].op == "agg" and x[2][0].a[0] == "SeekFrom":
                v = x[2][0]
                seq.append(("start", v.a[2][0]) if v.a[1] == 0 else ("move", v))
            elif x[1] in ("rewind", "seek", "seek_relative", "stream_len"):
                seq.append(("move", x[1]))
            elif x[1] == "new_reader":
                seq.append(("reader", x[2]))
        k = next((i for i, q in enumerate(seq) if q[0] == "pass1"), None)
        if k is None:
            rep.bad("C15", "no-pass1", "the optimisation pass is reached without analysing the input")
            continue
        before, after = seq[:k], seq[k + 1:]
        pos = [q[1] for q in before if q[0] == "pos"]
        if not pos or any(q[0] in ("move", "start") for q in before):
            rep.bad("C15", "position", "the input position is not remembered before the analysis pass moves it")
            continue
        mv = [q for q in after if q[0] in ("move", "start")]
        if not mv or mv[-1][0] != "start" or not same(mv[-1][1], pos[0], st.facts):
            rep.bad("C15", "rewind", "the optimisation pass does not start where the analysis pass started")
        r1 = [q[1] for q in before if q[0] == "reader"]
        if len(r1) != 1 or not same(r1[0][0], args2[0], st.facts):
            rep.bad("C15", "same-input", "the two passes do not read the same input")
        elif len(args2) != len(r1[0]) or any(not same(a, b, st.facts) for a, b in zip(args2[1:], r1[0][1:])):
            rep.bad("C15", "same-options", "the two passes do not read the input with the same Ogg options")
    return e


def check_second_end(H, e, out, rep):
    sink = H.args[2]
    for o in out:
        if o[0] != "ret":
            continue
        v = o[2]
        er = [x for x in o[1].items() if x[0] == "ev" and x[1].endswith("error")]
        if v.a[1] == 0:
            rep.n("C16", "remux_outcomes")
            if er:
                rep.bad("C16", "swallow-" + er[-1][1], "remuxing succeeds after an error of " + er[-1][1].split(":")[0])
            if not same(v.a[2][0], sink, o[1].facts):
                rep.bad("C16", "sink", "remuxing does not return the output it was given")
        else:
            rep.n("C16", "remux_outcomes")
            if er and not err_causes(v, er[-1][3]):
                rep.bad("C16", "cause2-" + er[-1][1], "the error of %s is not the one reported" % er[-1][1].split(":")[0])
