"""The bit packer as a bit queue: every state of the pending byte x every width, bits tracked by provenance."""
from terms import *
import engine as E
import models
from engine import Engine, agg, ref, ok, err, mk, UNIT
from refcmp import Report, same

MAXBYTES = 8


def bits_of(t, n, eng, st):
    t = eng.force(t, st)
    b = bitlist(t, n) if isinstance(t, (int, T)) else None
    if b is None:
        raise E.Unsupported("bits of %s" % show(t)[:120])
    return b


def from_bits(bs):
    """the integer whose bits are bs"""
    r = 0
    for i, b in enumerate(bs):
        if b == 0:
            continue
        if b == 1:
            r = add(r, 1 << i)
        else:
            r = add(r, scale(bit_term(b), 1 << i))
    return r


def bit_term(b):
    at, i = b
    return rem(div(at, 1 << i) if rng(at)[0] >= 0 else mk("fdiv", at, 1 << i) if i else at, 2)


def io_bytes(eng, st, v):
    """the bytes of a slice argument"""
    loc, s = models.seq_at(eng, st, v)
    n = eng.force(E.slen(s), st)
    if not isinstance(n, int) or n > MAXBYTES:
        raise E.Unsupported("transfer of %s bytes" % show(n)[:80])
    return loc, s, [eng.force(eng.sel(s, i, eng.F.u8, st), st) for i in range(n)]


def io_outcome(eng, st, c, name, good):
    """both outcomes of an I/O call"""
    k = st.user or 0
    t = eng.ty[c.dty]
    res = []
    for g in (1, 0):
        s = st.clone()
        s.user = k + 1
        if g:
            v = good(s, k)
            res.append((s, ok(v)))
        else:
            x = app("%s.err%d" % (name, k), (), ("ty", t["a"][1]))
            s.emit(("ev", name + ":error", (), x, c.span))
            res.append((s, err(x)))
    return res


def hooks():
    def wr(eng, st, c):
        _, _, bs = io_bytes(eng, st, c.args[1])

        def good(s, k):
            s.emit(("ev", "emit", tuple(bs), UNIT, c.span))
            return UNIT
        return io_outcome(eng, st, c, "write", good)

    def fl(eng, st, c):
        def good(s, k):
            s.emit(("ev", "flush", (), UNIT, c.span))
            return UNIT
        return io_outcome(eng, st, c, "flush", good)

    def rd(eng, st, c):
        loc, s0, bs = io_bytes(eng, st, c.args[1])

        def good(s, k):
            nb = tuple(app("in%d.%d" % (k, i), (), ("r", 0, 255)) for i in range(len(bs)))
            eng.store_loc(s, (loc[0], loc[1]), mk("arr", nb))
            s.emit(("ev", "take", nb, UNIT, c.span))
            return UNIT
        return io_outcome(eng, st, c, "read", good)
    return [(r"std::io::Write::write_all$|Snk as std::io::Write>::write_all$", wr),
            (r"std::io::Write::flush$|Snk as std::io::Write>::flush$", fl),
            (r"std::io::Read::read_exact$|Src as std::io::Read>::read_exact$", rd)]


def known(bs, e, st):
    """the bits bs with those replaced that the path has already decided"""
    r = []
    for b in bs:
        if b not in (0, 1):
            d = st.facts.decide(eq(bit_term(b), 1))
            if d is not None:
                b = int(d)
        r.append(b)
    return r


H = ("H", "bitpack")


class Packer:
    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.functions = set()

    def call(self, root, obj, args):
        """obj: abstract struct -> [(kind, state, value, events)]"""
        e = Engine(self.F, hooks(), dict(unroll=64, max_paths=4000))
        fn = self.F.find(r"^vproots::%s$" % root)[0]
        st = e.initial()
        st.mem[H] = obj
        out = e.call_fn(st, fn, [ref(H)] + list(args))
        self.functions |= e.analysed
        r = []
        for o in out:
            ev = [i for i in o[1].items() if i[0] == "ev"]
            if any(i[0] == "loop" for i in o[1].items()):
                raise E.Unsupported("a loop of %s is not resolved" % root)
            r.append((o[0], o[1], o[2] if len(o) > 2 else None, ev, e))
        return r

    def byval(self, root, obj):
        e = Engine(self.F, hooks(), dict(unroll=64))
        fn = self.F.find(r"^vproots::%s$" % root)[0]
        out = e.call_fn(e.initial(), fn, [obj])
        self.functions |= e.analysed
        return [(o[0], o[1], o[2], [i for i in o[1].items() if i[0] == "ev"], e) for o in out]

    def new(self, root, ty):
        e = Engine(self.F, [], {})
        fn = self.F.find(r"^vproots::%s$" % root)[0]
        out = e.call_fn(e.initial(), fn, [agg(ty, 0, (0,))])
        if len(out) != 1 or out[0][0] != "ret":
            raise E.Unsupported("constructor has several outcomes")
        return e.deval(out[0][2], out[0][1])

    def width(self, w):
        e = Engine(self.F, [], {})
        out = e.call_fn(e.initial(), self.F.find(r"^vproots::root_width_new$")[0], [w])
        if len(out) == 1 and out[0][0] == "ret":
            v = out[0][2]
            if isinstance(v, T) and v.op == "agg" and v.a[1] == 1:
                return v.a[2][0]
        return None


def leaves(v):
    """scalar leaves of a struct value"""
    if isinstance(v, T) and v.op == "agg":
        r = []
        for x in v.a[2]:
            r.extend(leaves(x))
        return r
    return [v]


def rebuild(v, it):
    if isinstance(v, T) and v.op == "agg":
        return agg(v.a[0], v.a[1], [rebuild(x, it) for x in v.a[2]])
    return next(it)


def generalise(obj, queue, eng, st):
    """rename the queued bits to p0, p1, ...; other bits of the code state get names of their own"""
    m = {}
    for i, b in enumerate(queue):
        if b not in (0, 1):
            m.setdefault(b, ("p", i))
    sym_ = {}

    def name(b):
        if b in (0, 1):
            return b
        k = m.get(b)
        if k is None:
            k = m[b] = ("x", len(m))
        t = app("%s%d" % k, (), ("r", 0, 1))
        return (t, 0)
    lv = []
    for l in leaves(eng.deval(obj, st)):
        l = eng.force(l, st)
        if isinstance(l, int):
            lv.append(l)
            continue
        if not isinstance(l, T) or l.op in ("ref", "seqsym"):
            lv.append(l)
            continue
        lo, hi = rng(l, st.facts)
        if lo < 0 or hi > (1 << 64) - 1:
            raise E.Unsupported("packer state %s" % show(l)[:80])
        lv.append(from_bits([name(b) for b in bits_of(l, max(1, hi.bit_length()), eng, st)]))
    q = [name(b) for b in queue]
    return rebuild(eng.deval(obj, st), iter(lv)), q


def err_is(v, ev):
    """the result is the error of the failed transfer"""
    return isinstance(v, T) and v.op == "agg" and v.a[0].startswith("Result") and v.a[1] == 1 and v.a[2][0] is ev[3]


def check_writer(F, rep):
    P = Packer(F, rep)
    W = [(w, P.width(w)) for w in range(33)]
    W = [(w, x) for w, x in W if x is not None]
    start = P.new("root_w_new", "Snk")
    seen, todo = {}, []

    def push(obj, q):
        k = (obj, tuple(q))
        if k not in seen:
            if len(seen) > 40:
                raise E.Unsupported("writer states do not converge")
            seen[k] = len(seen)
            todo.append((obj, q))
    push(start, [])
    val = app("value", (), ("r", 0, (1 << 32) - 1))
    sval = app("svalue", (), ("r", -(1 << 31), (1 << 31) - 1))
    flag = app("flag", (), ("r", 0, 1))

    def compare(key, outs, expect, fin, q0):
        """expect: all queued bits after the operation; fin: bits that must reach the sink"""
        for kind, st, v, ev, e in outs:
            rep.n("C20", "write_paths")
            bad = [x for x in ev if x[1].endswith(":error")]
            got = []
            for x in ev:
                if x[1] == "emit":
                    for b in x[2]:
                        got.extend(bits_of(b, 8, e, st))
            if kind != "ret":
                rep.bad("C20", "panic-" + key, "%s may panic: %s" % (key, v))
                continue
            n = len(expect) // 8 * 8 if not fin else (len(expect) + 7) // 8 * 8
            want = (expect + [0] * 8)[:n]
            if bad:
                if ev[-1] is not bad[0]:
                    rep.bad("C20", "error-cont-" + key, "%s goes on writing after the sink failed" % key)
                if not err_is(e.force(v, st), bad[0]):
                    rep.bad("C20", "error-" + key, "%s does not return the failure of the sink" % key)
                if got != want[:len(got)]:
                    rep.bad("C20", "error-bits-" + key, "%s writes wrong bits before a failure" % key)
                continue
            r = e.force(v, st)
            if not (isinstance(r, T) and r.op == "agg" and r.a[1] == 0):
                rep.bad("C20", "result-" + key, "%s fails although the sink did not" % key)
                continue
            if [x for x in ev if x[1] in ("flush", "take")]:
                rep.bad("C20", "extra-" + key, "%s does something else than writing" % key)
            if got != want:
                rep.bad("C20", "bits-" + key, "%s with %d pending bits sends the sink %s instead of %s" % (
                    key, q0, shows(got), shows(want)))
                continue
            rep.n("C20", "bits_compared", len(want))
            obj, q = generalise(st.mem[H], [] if fin else expect[n:], e, st)
            push(obj, q)
    while todo:
        obj, q = todo.pop()
        k = len(q)
        for w, wv in W:
            compare("unsigned-width-%d" % w, P.call("root_w_unsigned", obj, [val, wv]), q + [(val, i) for i in range(w)], 0, k)
            compare("signed-width-%d" % w, P.call("root_w_signed", obj, [sval, wv]),
                    q + [(sval, i) for i in range(w)], 0, k)
        compare("flag", P.call("root_w_flag", obj, [flag]), q + [(flag, 0)], 0, k)
        compare("finalize", P.call("root_w_finalize", obj, []), q, 1, k)
        for kind, st, v, ev, e in P.call("root_w_flush", obj, []):
            rep.n("C20", "write_paths")
            names = [x[1] for x in ev]
            v = e.force(v, st)
            if kind != "ret" or names not in (["flush"], ["flush:error"]):
                rep.bad("C20", "flush", "flushing the packer does %s" % names)
            elif names == ["flush:error"] and not err_is(v, ev[0]) or names == ["flush"] and v.a[1] != 0:
                rep.bad("C20", "flush-result", "flushing the packer loses the outcome of flushing the sink")
            elif generalise(st.mem[H], q, e, st) != (obj, q):
                rep.bad("C20", "flush-state", "flushing the packer changes the pending bits")
        for kind, st, v, ev, e in P.byval("root_w_drop", obj):
            rep.n("C20", "write_paths")
            got = []
            for x in ev:
                if x[1] == "emit":
                    for b in x[2]:
                        got.extend(bits_of(b, 8, e, st))
            if kind != "ret":
                rep.bad("C20", "drop-panic", "dropping the packer may panic: %s" % (v,))
            elif not any(x[1].endswith("error") for x in ev) and got != (q + [0] * 8)[:(k + 7) // 8 * 8]:
                rep.bad("C20", "drop", "dropping the packer with %d pending bits sends the sink %s" % (k, shows(got)))
    rep.n("C20", "states", len(seen))
    return P.functions


def shows(bs):
    return "".join(str(b) if b in (0, 1) else "[%s.%d]" % (show(b[0]), b[1]) for b in reversed(bs)) or "nothing"


def check_reader(F, rep):
    P = Packer(F, rep)
    W = [(w, P.width(w)) for w in range(33)]
    W = [(w, x) for w, x in W if x is not None]
    start = P.new("root_r_new", "Src")
    seen, todo = {}, []

    def push(obj, q):
        k = (obj, tuple(q))
        if k not in seen:
            if len(seen) > 300:
                raise E.Unsupported("reader states do not converge")
            seen[k] = len(seen)
            todo.append((obj, q))
    push(start, [])

    def compare(key, outs, q0, w, res):
        for kind, st, v, ev, e in outs:
            rep.n("C21", "read_paths")
            if kind != "ret":
                rep.bad("C21", "panic-" + key, "%s may panic: %s" % (key, v))
                continue
            bad = [x for x in ev if x[1].endswith(":error")]
            q = list(q0)
            for x in ev:
                if x[1] == "take":
                    for b in x[2]:
                        q.extend((b, i) for i in range(8))
                elif x[1] != "read:error":
                    rep.bad("C21", "extra-" + key, "%s does something else than reading" % key)
            need = max(0, (w - len(q0) + 7) // 8)
            v = e.force(v, st)
            if bad:
                if ev[-1] is not bad[0] or not err_is(v, bad[0]):
                    rep.bad("C21", "error-" + key, "%s does not return the failure of the source" % key)
                continue
            if (len(q) - len(q0)) != 8 * need:
                rep.bad("C21", "bytes-" + key, "%s with %d bits left takes %d bytes from the source instead of %d" % (
                    key, len(q0), (len(q) - len(q0)) // 8, need))
                continue
            if not (isinstance(v, T) and v.op == "agg" and v.a[1] == 0):
                rep.bad("C21", "result-" + key, "%s fails although the source did not" % key)
                continue
            if not res(e, st, e.force(v.a[2][0], st), q):
                rep.bad("C21", "value-" + key, "%s with %d bits left yields %s" % (key, len(q0), show(v.a[2][0])[:200]))
            rep.n("C21", "bits_compared", w)
            obj, q2 = generalise(st.mem[H], q[w:], e, st)
            push(obj, q2)

    def unsigned(w):
        return lambda e, st, v, q: known(bits_of(v, 32, e, st), e, st) == known(q[:w], e, st) + [0] * (32 - w)

    def signed(w):
        def f(e, st, v, q):
            if w == 0:
                return v == 0
            lo, hi = rng(v, st.facts)
            return lo >= -(1 << 31) and hi < 1 << 31 and \
                known(bits_of(v, 32, e, st), e, st) == known(q[:w] + [q[w - 1]] * (32 - w), e, st)
        return f

    def flag(e, st, v, q):
        b = eq(bit_term(q[0]), 1)
        for s in (0, 1):
            f = st.facts.assume(b, s)
            if f is not None and (v if isinstance(v, int) else f.decide(v)) != s:
                return False
        return True
    while todo:
        obj, q = todo.pop()
        for w, wv in W:
            compare("unsigned-width-%d" % w, P.call("root_r_unsigned", obj, [wv]), q, w, unsigned(w))
            compare("signed-width-%d" % w, P.call("root_r_signed", obj, [wv]), q, w, signed(w))
        compare("flag", P.call("root_r_flag", obj, []), q, 1, flag)
        for kind, st, v, ev, e in P.byval("root_r_inner", obj):
            rep.n("C21", "read_paths")
            if kind != "ret" or ev or e.force(v, st) != agg("Src", 0, (0,)):
                rep.bad("C21", "inner", "tearing down the reader does not just return its source")
    rep.n("C21", "states", len(seen))
    return P.functions
