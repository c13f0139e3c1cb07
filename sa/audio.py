"""Audio packets: what is decoded of them, what is written in its place, and when they end early."""
import multiprocessing as mp
import os
import time
from terms import *
import engine as E
from engine import mk, slen, subst, NeedFork
from refcmp import Report, Split, St, same, renorm, shallow
from header import consistent, Ctx2, Done, Mismatch, Cursor, runs, has_event_memo, mk_bitlen, vsubst
import header
import optim
import setup

FAIL = ("eof", "io_error", "decode_eof", "decode_error")
SEEN = ("read", "decode") + FAIL
PACKED = ("packed", (), "packed.len")


# ---------------------------------------------------------------- traces
def leaves(items):
    """the ways a trace stands for, without joins"""
    out = [[]]
    for x in items:
        if x[0] == "join":
            sub_ = [l for alt in x[1].alts for l in leaves(alt)]
            out = [o + l for o in out for l in sub_]
        else:
            for o in out:
                o.append(x)
        if len(out) > 4000:
            raise E.Unsupported("too many ways to fail")
    return out


def failing(leaf):
    """(position, item) of the first failure of a read or decode on this way"""
    for i, x in enumerate(leaf):
        if x[0] == "ev" and x[1] in FAIL:
            return i, x
    return None


def with_lits(f, leaf):
    for x in leaf:
        if x[0] == "as" and f is not None:
            c = x[1]
            d = f.decide(c) if isinstance(c, T) else int(bool(c))
            if d is None:
                f = f.assume(c, x[2])
            elif d != int(bool(x[2])):
                return None
    return f


def end_of(x):
    return x[1] in ("eof", "decode_eof")


# ---------------------------------------------------------------- every read is followed by what replaces it
class Copy:
    """Whether a trace writes, after everything it reads, exactly what belongs there in the new packet."""

    def __init__(self, e, rep):
        self.e, self.rep, self.memo = e, rep, {}

    def fields(self, x, y, facts):
        """write y carries what x has read"""
        w, v = y[2]
        self.rep.n("C03", "fields")
        if x[1] == "read":
            if not (w == x[2][0] or same(w, x[2][0], facts)):
                raise Mismatch("width", "%s bits are read, but %s are written" % (show(x[2][0])[:80], show(w)[:80]))
            got = self.plain(v, x[3], w)
            if got is not x[3] and not (isinstance(got, T) and same(got, x[3], facts)):
                raise Mismatch("value", "%s is written instead of %s" % (show(v)[:120], show(x[3])[:120]))
            return
        args = tuple(x[2][1:]) + (x[3],)
        for t, what, lo, hi in ((w, "length", 0, 255), (v, "codeword", 256, 1 << 33)):
            t = self.plain(t, None, None)
            if not (isinstance(t, T) and t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("optcw[]") and
                    len(t.a[1]) == len(args) and all(a is b or same(a, b, facts) for a, b in zip(t.a[1], args))):
                raise Mismatch("codeword", "the %s written for entry %s of codebook %s is %s" % (what, show(x[3])[:80], show(x[2][1])[:80], show(t)[:160]))
            h = rng(t, facts)[1] if what == "length" else rng(t, None)[1]
            if not lo <= h <= hi:
                raise Mismatch("codeword", "the codeword and its length are mixed up")
        if w is v:
            raise Mismatch("codeword", "the codeword and its length are mixed up")

    def plain(self, v, x, w):
        """the value without reductions that cannot change it"""
        while isinstance(v, T) and (v.op == "rem" or v.op == "wrap"):
            if v.op == "wrap":
                lo, hi = 0, {"u8": 255, "u16": 65535, "u32": (1 << 32) - 1, "u64": 1 << 63, "usize": 1 << 63}.get(v.a[0], -1)
                inner = v.a[1]
            else:
                hi, inner = (v.a[1] - 1 if isinstance(v.a[1], int) else -1), v.a[0]
            top = rng(inner, None)[1]
            if inner is x:
                top = min(top, (1 << self.bits(w)) - 1)
            if top > hi:
                break
            v = inner
        return v

    def bits(self, w):
        if isinstance(w, int):
            return w
        if w.op == "app" and w.a[0] == "elem" and isinstance(w.a[1][0], T) and w.a[1][0].op == "arr" and all(isinstance(x, int) for x in w.a[1][0].a[0]):
            return max(w.a[1][0].a[0])
        return min(rng(w, None)[1], 64)

    def several(self, pend, y):
        """one write of what several reads have read: every value of them is tried"""
        w, v = y[2]
        if not isinstance(w, int):
            return 0
        n, ws = 0, []
        for x in pend:
            if x[1] != "read" or not isinstance(x[2][0], int):
                return 0
            ws.append(x[2][0])
            if sum(ws) >= w:
                break
        if sum(ws) != w or len(ws) < 2 or w > 8:
            return 0
        vs = [x[3] for x in pend[:len(ws)]]
        for k in range(1 << w):
            t, m = v, k
            for x, l in zip(vs, ws):
                t = subst(t, {x: m & ((1 << l) - 1)})
                m >>= l
            if t != k:
                raise Mismatch("value", "%s is written instead of %s" % (show(v)[:120], ", ".join(show(x)[:60] for x in vs)))
        return len(ws)

    def part(self, items, facts, pend, done, kept):
        """-> what has been read but not written yet, whether the packet has been finalised"""
        pend = list(pend)

        def lost():
            raise Mismatch("lost", "what is read as %s is not written" % show(pend[0][3])[:120])
        for x in items:
            if x[0] == "as":
                continue
            if x[0] == "ev":
                k = x[1]
                if k in ("write", "ordered-many"):
                    if not pend:
                        raise Mismatch("extra", "%s is written although nothing has been read" % show(x[2][1])[:120])
                    if done:
                        raise Mismatch("late", "something is written after the packet has been packed")
                    if k != "write":
                        raise Mismatch("extra", "a list is written")
                    n = self.several(pend, x)
                    if n:
                        self.rep.n("C03", "fields")
                    else:
                        self.fields(pend[0], x, facts)
                    del pend[:n or 1]
                elif k in ("read", "decode"):
                    pend.append(x)
                elif k in FAIL:
                    if pend and kept:
                        lost()
                    pend = []
                elif k == "finalised":
                    if pend:
                        lost()
                    done = True
                continue
            if x[0] == "join":
                rs = {self.part(p, with_lits(facts, p) or facts, tuple(pend), done, kept) for p in x[1].alts}
                if len(rs) > 1:
                    if any(r[0] for r in rs):
                        raise Mismatch("lost", "some of what is read is written on some ways only")
                    raise Mismatch("late", "the packet is packed on some ways only")
                if rs:
                    pend, done = rs.pop()
                    pend = list(pend)
                continue
            if pend and has(x):
                lost()
            if (x[1], kept) not in self.memo:
                self.memo[(x[1], kept)] = 1
                node = x[1]
                self.rep.n("C03", "loops")
                for i, p in enumerate(node.nexts):
                    f = node.nstates[i].facts if node.nstates else facts
                    q, d = self.part(p, f, (), done, kept)
                    if q:
                        pend = list(q)
                        lost()
                    if d != done:
                        raise Mismatch("late", "the packet is packed within a loop")
        return tuple(pend), done


def has(x):
    if x[0] == "ev":
        return x[1] in SEEN or x[1] == "write"
    if x[0] == "join":
        return any(has(y) for p in x[1].alts for y in p)
    if x[0] == "loop":
        return any(has(y) for p in x[1].nexts for y in p)
    return False


def check_copy(R, rep, outs, pre):
    e = R.eng
    for o in outs:
        rep.n("C03", "outcomes")
        if o[0] != "ret":
            continue    # C02
        s, v = o[1], e.force(o[2], o[1])
        if not optim.is_ok(v):
            continue
        items = s.items()[pre:]
        try:
            pay = optim.payload(e, s, v)
            q, done = Copy(e, rep).part(items, s.facts, (), False, pay is not None)
            if q and pay is not None:
                raise Mismatch("lost", "what is read as %s is not written" % show(q[0][3])[:120])
            if pay is None:
                continue
            heads = {show(x[2][0]) for l in leaves(items) for x in l if x[0] == "ev" and x[1] == "writer"}
            n = {sum(1 for x in l if x[0] == "ev" and x[1] == "writer") for l in leaves(items)}
            if not done or n != {1}:
                raise Mismatch("packing", "it is not packed once")
            if heads != {show(E.EMPTY)}:
                raise Mismatch("packing", "it does not start empty")
            p = [q for q in optim.pieces(pay[0])]
            if len(p) != 1 or p[0][0] != "s" or p[0][1].op != "seqsym" or p[0][1].a[0] != "packed":
                raise Mismatch("packing", "the new packet is %s" % show(pay[0])[:120])
        except Mismatch as m:
            rep.bad("C03", m.key, "when an audio packet is rewritten, %s" % m.text)


# ---------------------------------------------------------------- packets that end early
def first_part(leaf, at, big):
    """whether the failure at position `at` comes before the end of the mode and window flags; None: unknown"""
    n = 0
    for x in leaf[:at]:
        if x[0] == "ev" and x[1] == "read":
            n += 1
        elif x[0] == "ev" and x[1] == "decode" or x[0] == "loop" and has(x):
            return False
    if n < 2:
        return True
    if n >= 4:
        return False
    return big


def check_end(R, rep, outs, pre, a, second):
    """what becomes of a packet that ends early, or whose source fails"""
    e = R.eng
    what = "rewriting" if second else "analysing"
    for o in outs:
        rep.n("C02", "outcomes")
        if o[0] != "ret":
            rep.bad("C02", "panic:" + what, "%s an audio packet panics" % what)
            continue
        s, v = o[1], e.force(o[2], o[1])
        ok = optim.is_ok(v)
        kept = None
        if ok and second:
            p = optim.payload(e, s, v)
            kept = p is not None
            if p is not None and p[1] is None:
                rep.bad("C02", "size", "an audio packet is kept without a block size")
        elif ok:
            x = e.force(v.a[2][0], s)
            kept = x.a[1] == 1
        for leaf in leaves(s.items()[pre:]):
            fl = failing(leaf)
            rep.n("C02", "ends")
            if fl is None:
                if ok and not kept:
                    rep.bad("C02", "dropped:" + what, "%s drops an audio packet that does not end early" % what)
                continue
            i, x = fl
            if any(y[0] == "ev" and y[1] in SEEN for y in leaf[i + 1:]):
                rep.bad("C02", "goes-on:" + what, "%s goes on reading after a read has failed" % what)
                continue
            if not end_of(x):
                if ok:
                    rep.bad("C02", "hidden:" + what, "%s hides an error that is not the end of the packet" % what)
                continue
            f = with_lits(s.facts, leaf)
            if f is None:
                continue

            def big(ctx):
                """the block flag of the mode that has been read"""
                ms = [y for y in leaf if y[0] == "ev" and y[1] == "read"]
                if len(ms) < 2:
                    return None
                return ctx.true(a["modes"].at(ctx, ms[1][3])["big"])
            part = first_part(leaf, i, None)
            parts = {part}
            if part is None:
                parts = {first_part(leaf, i, b) for _, _, b in runs(f, big, e)}
            for part in parts:
                if not ok:
                    rep.bad("C02", "rejected:" + what, "%s fails when an audio packet ends early" % what)
                elif part and kept:
                    rep.bad("C02", "kept:" + what, "%s keeps an audio packet that ends before its window flags" % what)
                elif not part and not kept:
                    rep.bad("C02", "cut:" + what, "%s drops an audio packet that ends after its window flags" % what)


# ---------------------------------------------------------------- the grammar of audio packets
class Dec(Cursor):
    def __init__(self, P, items, ctx, kind):
        self.P, self.ctx, self.kind = P, ctx, kind
        self.all = items
        self.items = [x for x in items if (x[0] == "ev" and x[1] in SEEN) or (x[0] == "loop" and has_event_memo(P, x[1], SEEN))]
        self.pos = 0

    def invalid(self, why):
        if self.kind == "err":
            raise Done()
        raise Mismatch("accepts:" + why, "is accepted with " + why)

    def need(self, what):
        x = self.peek()
        if x is None:
            if self.kind == "cut":
                raise Done()
            if self.kind == "err":
                raise Mismatch("rejects", "is rejected before " + what)
            raise Mismatch("ends", "is not decoded from %s on" % what)
        return x

    def rd(self, w, what):
        x = self.peek()
        if isinstance(w, int) and w == 0 and (x is None or x[0] != "ev" or x[1] != "read" or not same(x[2][0], 0, self.ctx.facts)):
            return 0
        x = self.need(what)
        if x[0] != "ev" or x[1] not in ("read",):
            raise Mismatch("field", "has %s where %s should be read" % (x[1] if x[0] == "ev" else "a list of fields", what))
        self.P.rep.n("C18", "fields")
        if not (x[2][0] == w or same(x[2][0], w, self.ctx.facts)):
            raise Mismatch("width:" + what, "has %s read with %s bits instead of %s" % (what, show(x[2][0])[:80], show(w)[:80]))
        self.pos += 1
        return x[3]

    def decode(self, book, what):
        x = self.need(what)
        if x[0] != "ev" or x[1] != "decode":
            raise Mismatch("codeword", "has %s where %s should be decoded" % (x[1] if x[0] == "ev" else "a list", what))
        self.P.rep.n("C18", "codewords")
        if len(x[2]) != 2 or not same(x[2][1], book, self.ctx.facts):
            raise Mismatch("book:" + what, "has %s decoded with codebook %s instead of %s" % (what, show(x[2][1:])[:160], show(book)[:160]))
        self.pos += 1
        return x[3]

    def loop(self, what):
        x = self.need(what)
        if x[0] != "loop":
            raise Mismatch("list", "has %s where the list of %s should be" % (x[1], what))
        self.pos += 1
        return x

    def each(self, node, body):
        """body(r) on every path of an iteration -> [(path, context, result)]"""
        P = self.P
        k = (node, body.key, self.ctx.extras)
        if k in P.memo:
            return P.memo[k]
        out = []
        for i, path in enumerate(node.nexts):
            f = P.facts_in(node, i, self.ctx)
            if f is None:
                continue
            for leaf in leaves(path):
                g = f if len(leaf) == len(path) else with_lits(f, leaf)
                if g is None:
                    continue

                def run(ctx):
                    r = Dec(P, leaf, ctx, "ok")
                    r.node, r.path = node, i
                    P.link(r)
                    try:
                        v = body(r)
                        if r.peek() is not None:
                            raise Mismatch("more", "has more fields than it should")
                    except Mismatch as m:
                        if not hasattr(m, "at"):
                            m.at = leaf, node, ctx
                        raise
                    return v
                for ex, c, v in runs(g, run, P.e, self.ctx.extras):
                    out.append((i, c, v))
        P.memo[k] = out
        return out

    def rep(self, n, body, what, key):
        """n times body(r, index)"""
        x = self.peek()
        if x is None or x[0] != "loop":
            if isinstance(n, int):
                for i in range(n):
                    body(self, i)
                return
            if self.ctx.b(eq(n, 0)):
                return
            if self.ctx.b(eq(n, 1)):
                body(self, 0)
                return
            if x is None:
                # the failing iteration may be the first one
                body(self, 0)
                self.need("the rest of the " + what)
            raise Mismatch("list:" + what, "has no list of %s" % what)
        self.pos += 1
        node = x[1]
        if node.trip is None or not node.exact or not same(node.trip, n, self.ctx.facts):
            raise Mismatch("count:" + what, "has %s %s instead of %s" % (show(node.trip)[:100], what, show(n)[:100]))
        fn = lambda r: body(r, node.it)
        fn.key = key
        self.each(node, fn)
        if not x[3]:
            body(self, x[2])
            self.need("the rest of the " + what)
            raise Mismatch("stop:" + what, "has a list of %s that stops early" % what)


def truth(ctx, t):
    """a flag that is made of others"""
    if isinstance(t, T):
        if t.op == "mono" and all(rng(x, None) in ((0, 1), (1, 1)) for x in t.a[0]):
            return all(truth(ctx, x) for x in t.a[0])
        if t.op == "ite":
            return truth(ctx, t.a[1] if ctx.b(t.a[0]) else t.a[2])
        if t.op == "lin" and t.a[0] == 1 and len(t.a[1]) == 1 and t.a[1][0][1] == -1 and rng(t.a[1][0][0], None) == (0, 1):
            return not truth(ctx, t.a[1][0][0])
    return ctx.true(t)


def relit(c, f):
    """a condition in other words, without using that it is known"""
    parts = set()

    def walk(t):
        if isinstance(t, T):
            if t.op in ("lin", "ge", "eq", "not"):
                for y in t.a:
                    walk(y)
            elif t.op in ("rem", "wrap", "min", "max", "div") or t.op == "app" and any(isinstance(y, T) for y in t.a[1]):
                parts.add(t)
        elif isinstance(t, tuple):
            for y in t:
                walk(y)
    walk(c)
    if not parts:
        return ()
    g = f.copy()
    for k in [k for k in g.iv if isinstance(k, T) and any(k is p or E.contains(k, p) for p in parts)]:
        del g.iv[k]
    g.bv.pop(c, None)
    g.rc.clear()
    g.lk = None
    return shallow(c, g), renorm(c, g)


class Grammar:
    """§ 4.3 of the Vorbis I specification, up to the residue vectors."""

    def __init__(self, P, rep, a, nch, sizes, e, second):
        self.rep, self.e, self.a, self.nch, self.sizes = rep, e, a, nch, sizes
        self.memo, self.hasev = {}, P.hasev
        self.P = P
        self.second = second
        self.checked = set()

    facts_in = header.Parse.facts_in

    def link(self, r):
        """conditions the path has decided, in the terms of the reference"""
        for x in r.all:
            if x[0] == "as" and isinstance(x[1], T):
                for c in relit(x[1], r.ctx.facts):
                    if c is not x[1]:
                        if isinstance(c, T):
                            r.ctx.assume([(c, x[2])])
                        elif bool(c) != bool(x[2]):
                            raise Done()

    def packet(self, r):
        a, ctx = self.a, r.ctx
        t = r.rd(1, "the packet type")
        if not self.second and ctx.true(t):
            r.invalid("a packet type other than audio")
        n = a["modes"].n
        m = r.rd(mk_bitlen(sub(n, 1)) if ctx.b(ge(n, 2)) else 0, "the mode number")
        if ctx.b(ge(m, n)):
            r.invalid("a mode that does not exist")
        mode = a["modes"].at(ctx, m)
        big = ctx.true(mode["big"])
        if big:
            r.rd(1, "the previous window flag")
            r.rd(1, "the next window flag")
        self.map = mp_ = a["mappings"].at(ctx, mode["mapping"])
        size = self.sizes[1 if big else 0]
        self.several = ctx.b(ge(mp_["nsub"], 2)) if isinstance(mp_["nsub"], T) else mp_["nsub"] >= 2
        self.flags = {}
        r.rep(self.nch, self.floor, "channel floors", ("floor", self.several))
        self.noflags(r)
        self.coupling(r)
        r.rep(mp_["nsub"], lambda r, s: self.submap(r, s, size), "residue submaps", ("submap", big, self.several, self.nr, self.pol))
        return size

    # ---------------- floors
    def mux(self, ctx, ch):
        return self.map["mux"].at(ctx, ch) if self.several else 0

    def floor(self, r, ch):
        ctx = r.ctx
        f = self.a["floors"].at(ctx, self.map["submaps"].at(ctx, self.mux(ctx, ch))[0])
        flag = r.rd(1, "the nonzero flag of a floor")
        self.flag = (ch, flag)
        if not ctx.true(flag):
            return
        w = None
        for v, b in ((1, 8), (2, 7), (3, 7), (4, 6)):
            if ctx.facts.decide(eq(f["mult"], v)) == 1:
                w = b
        if w is None:
            w = app("elem", (mk("arr", (8, 7, 7, 6)), sub(f["mult"], 1)), ("r", 6, 8))
            x = r.peek()
            if x is not None and x[0] == "ev" and isinstance(x[2][0], T) and x[2][0].op == "app" and x[2][0].a[:2] == w.a[:2]:
                w = x[2][0]
            else:
                for v in (1, 2, 3):
                    if ctx.b(eq(f["mult"], v)):
                        break
                raise Mismatch("width:a floor value", "has a floor value read with the wrong number of bits") if x is not None else Done()
        for _ in range(2):
            r.rd(w, "a floor value")
        r.rep(f["partitions"], lambda r, p: self.partition(r, f, p), "floor partitions", ("partition",))

    def partition(self, r, f, p):
        ctx = r.ctx
        c = f["classes"].at(ctx, f["cls"].at(ctx, p))
        sub_ = c["sub"]
        cval = 0
        if ctx.b(ge(sub_, 1)):
            cval = r.decode(c["master"], "the class of a floor partition")
        q = pow2(sub_)
        n = c["dims"]
        x = r.peek()
        state = None
        if x is not None and x[0] == "loop":
            # the class value that is left in every iteration
            ints = [(v, i, nx) for v, (i, nx) in x[1].phis.items() if isinstance(v, T) and E.is_intish(v)]
            hit = [(v, i, nx) for v, i, nx in ints if same(i, cval, ctx.facts) and
                   all(same(y, div(v, q), ctx.facts) or same(renorm(y, ctx.facts), div(v, q), ctx.facts) for y in nx)]
            state = hit[0][0] if hit else "none"

        def value(r, d):
            ctx = r.ctx
            if state is None or state == "none":
                left = div(cval, pow2(mul(d, sub_)) if isinstance(d, T) or isinstance(sub_, T) else 1 << d * sub_)
            else:
                left = state if d is x[1].it else subst(state, {x[1].it: d})
            b = c["books"].at(ctx, rem(left, q))
            if ctx.b(ge(b, 1)):
                r.decode(sub(b, 1), "a floor value")
        # without a class there is only one book
        if cval == 0 and ctx.facts.decide(ge(sub_, 1)) == 0:
            def value(r, d):
                ctx = r.ctx
                b = c["books"].at(ctx, 0)
                if ctx.b(ge(b, 1)):
                    r.decode(sub(b, 1), "a floor value")
        r.rep(n, value, "floor values", ("floor value", state))

    # ---------------- which channels have a residue
    def noflags(self, r):
        pass

    def coupling(self, r):
        ctx, e = r.ctx, self.e
        cp = self.map["coupling"]
        self.nr, self.pol = None, None
        fl = self.flag_loop(r)
        self.rawflag = fl
        if cp is None:
            return
        steps = self.map["steps"]
        for x in r.all:
            if x[0] != "loop" or not x[3] or has_event_memo(self, x[1], SEEN) or not x[1].exact or not same(x[1].trip, steps, ctx.facts):
                continue
            node = x[1]
            for v, (init, nx) in node.phis.items():
                if isinstance(v, T) and v.op == "seqsym" and not isinstance(init, int):
                    pol = self.polarity(r, init)
                    if pol is None:
                        continue
                    k = (node, v)
                    if k not in self.checked:
                        self.checked.add(k)
                        self.propagate(r, node, v, nx, pol)
                    self.nr, self.pol = subst(v, {node.it: x[2]}), pol
                    return
        if r.peek() is None and r.kind != "ok":
            return
        raise Mismatch("coupling", "has no propagation of nonzero floors between coupled channels")

    def flag_loop(self, r):
        """flag of channel c as a function"""
        for x in r.items:
            if x[0] == "loop" and same(x[1].trip, self.nch, r.ctx.facts):
                for p in x[1].nexts:
                    for y in leaves(p)[0]:
                        if y[0] == "ev" and y[1] == "read":
                            return lambda c, n=x[1], y=y: subst(y[3], {n.it: c})
        evs = [x for x in r.items if x[0] == "ev" and x[1] == "read"]
        return lambda c: evs[-1][3] if evs else 0

    def val(self, seq, c, f):
        return self.e.force(self.e.sel(seq, c, self.e.F.u8 if seq.op != "seqsym" else seq.a[2], St(f)), St(f))

    def mark(self, c, f):
        """what the list says of a channel"""
        v = self.val(self.list, c, f)
        if isinstance(v, T) and v.op == "app":
            # known as a flag or as a number
            for k in list(f.bv) + list(f.iv):
                if isinstance(k, T) and k.op == "app" and k.a[:2] == v.a[:2]:
                    return k
        return v

    def polarity(self, r, init):
        """1: the list says which channels have no residue, 0: which have one"""
        c = sym("any-channel", 0, 254)
        f = r.ctx.facts.assume(lt(c, self.nch), 1)
        if f is None:
            return None
        fl = self.rawflag(c)
        try:
            v = self.val(init, c, f)
        except (E.Unsupported, AttributeError, TypeError, KeyError):
            return None
        if same(v, fl, f) or self.truth(v, fl, f) == 0:
            return 0
        if same(v, bnot(fl), f) or self.truth(v, fl, f) == 1:
            return 1
        return None

    def truth(self, v, fl, f):
        g, h = f.assume(fl, 1), f.assume(fl, 0)
        if g is None or h is None or not isinstance(v, T):
            return None
        a, b = self.known(v, g), self.known(v, h)
        return 0 if (a, b) == (1, 0) else 1 if (a, b) == (0, 1) else None

    def known(self, v, f):
        if not isinstance(v, T):
            return int(bool(v))
        v = renorm(v, f)
        if not isinstance(v, T):
            return int(bool(v))
        for c in (v, ge(v, 1)):
            d = f.decide(c) if isinstance(c, T) else int(bool(c))
            if d is not None:
                return int(d)
        return None

    def propagate(self, r, node, v, nx, pol):
        """a coupling step leaves both channels with a residue if one of them has one"""
        cp = self.map["coupling"]
        c = sym("any-channel", 0, 254)
        for i, n1 in enumerate(nx):
            f = self.facts_in(node, i, r.ctx)
            if f is None:
                continue

            def run(ctx):
                ctx.assume([(lt(c, self.nch), 1)])
                m, an = cp.at(ctx, node.it)
                at = lambda seq, k: ctx.true(self.val(seq, k, ctx.facts))
                both = ctx.b(eq(c, m)) or ctx.b(eq(c, an))
                if both:
                    x, y = at(v, m), at(v, an)
                    want = (x and y) if pol else (x or y)
                else:
                    want = at(v, c)
                self.rep.n("C18", "couplings")
                if truth(ctx, self.val(n1, c, ctx.facts)) != want:
                    raise Mismatch("coupling", "has a coupling step that is not a propagation of nonzero floors")
            runs(f, run, self.e, r.ctx.extras)

    def none(self, ctx, ch):
        """whether a channel has no residue"""
        if self.nr is None:
            return not ctx.true(self.rawflag(ch))
        b = ctx.true(self.val(self.nr, ch, ctx.facts))
        return b if self.pol else not b

    # ---------------- residues
    def submap(self, r, s, size):
        ctx, a = r.ctx, self.a
        skip, n, mask = self.vectors(r, s)
        if skip is not None and ctx.b(skip):
            return
        if skip is None and r.peek() is None and r.kind == "ok":
            # nothing is decoded although nothing says that no channel has a residue
            pass
        res = a["residues"].at(ctx, self.map["submaps"].at(ctx, s)[1])
        t = res["type"]
        one = ctx.b(eq(t, 2))
        if one:
            if skip is None:
                raise Mismatch("residue", "has a residue of type 2 decoded without looking at the floors")
            size = mul(div(size, 2), n)
        else:
            size = div(size, 2)
        lo, hi = res["begin"], res["end"]
        if not ctx.b(ge(hi, lo)):
            hi = lo
        if ctx.b(ge(lo, size)):
            # then the end, which is not before the beginning, is past the vector as well
            ctx.assume([(ge(hi, size), 1)])
            self.link(r)
            return
        hi = size if ctx.b(ge(hi, size)) else hi
        self.link(r)
        todo = sub(hi, lo)
        if ctx.b(lt(todo, 1)):
            return
        ps = add(res["psize"], 1)
        parts = shallow(div(todo, ps), ctx.facts)
        cb = a["codebooks"].at(ctx, res["classbook"])
        self.cpc = cb["dims"]
        self.mem = self.stride = None
        for p in range(8):
            self.one_pass(r, p, res, parts, None if one else (n, mask))

    def vectors(self, r, s):
        """-> (condition under which no channel of the submap has a residue, number of channels, their mask)"""
        ctx = r.ctx
        for x in r.all:
            if x[0] != "loop" or has_event_memo(self, x[1], SEEN) or not x[1].exact or not x[3] or not same(x[1].trip, self.nch, ctx.facts):
                continue
            node = x[1]
            for v, (init, nx) in node.phis.items():
                if not (isinstance(v, T) and E.is_intish(v)):
                    continue
                pol = 1 if same(init, 1, ctx.facts) else 0 if same(init, 0, ctx.facts) else None
                if pol is None:
                    continue
                k = ("all", node, v, ctx.extras)
                if k not in self.memo:
                    self.memo[k] = self.collects(r, node, v, nx, pol, s)
                if self.memo[k]:
                    end = subst(v, {node.it: x[2]})
                    c = end if rng(end, ctx.facts)[1] <= 1 else ge(end, 1)
                    return (c if pol else bnot(c)), self.count(r, s), None
        return None, self.count(r, s), None

    def collects(self, r, node, v, nx, pol, s):
        """v says whether all channels of the submap so far have no residue (pol) or whether one has (not pol)"""
        for i, n1 in enumerate(nx):
            f = self.facts_in(node, i, r.ctx)
            if f is None:
                continue

            def run(ctx):
                old = ctx.true(v)
                mine = ctx.b(eq(self.mux(ctx, node.it), s)) if self.several else True
                if mine:
                    x = self.none(ctx, node.it)
                    want = (old and x) if pol else (old or not x)
                else:
                    want = old
                return want == truth(ctx, self.e.force(n1, St(ctx.facts)))
            if not all(x for _, _, x in runs(f, run, self.e, r.ctx.extras)):
                return False
        return True

    def count(self, r, s):
        """number of channels of the submap: the length of a list that has one element for each of them"""
        seen = []

        def walk(t, d=0):
            if isinstance(t, T):
                if t in done:
                    return
                done.add(t)
                if t.op == "flat":
                    seen.append(t)
                for y in t.a:
                    walk(y, d)
            elif isinstance(t, tuple):
                for y in t:
                    walk(y, d)
        done = set()
        for x in r.all:
            if x[0] == "loop":
                for v, (init, nx) in x[1].phis.items():
                    walk(init)
                walk(x[1].trip)
                for p in x[1].nexts[:1]:
                    for y in p:
                        if y[0] == "loop":
                            walk(y[1].trip)
            elif x[0] == "as":
                walk(x[1])
        for t in seen:
            k = ("flat", t, r.ctx.extras)
            if k not in self.memo:
                self.memo[k] = self.lists(r, t, s)
            if self.memo[k] is not None:
                self.list, self.lpol = t, self.memo[k]
                r.ctx.assume([(ge(self.nch, slen(t)), 1), (lt(slen(t), 256), 1)])
                return slen(t)
        self.list = None
        return self.nch if not self.several else sym("channels of a submap", 0, 255)

    def lists(self, r, t, s):
        """polarity of a list that says for every channel of the submap whether it has a residue"""
        bv, n, body = t.a[:3]
        if not same(n, self.nch, r.ctx.facts):
            return None
        c = sym("any-channel", 0, 254)
        body = subst(body, {bv: c})
        f = r.ctx.facts.assume(lt(c, self.nch), 1)

        def run(ctx):
            mine = ctx.b(eq(self.mux(ctx, c), s)) if self.several else True
            b = body
            while b.op == "cases":
                for ls, x in b.a[0]:
                    if all(ctx.b(k) == bool(v) for k, v in ls):
                        b = x
                        break
                else:
                    raise Done()
            if not consistent(ctx.facts):
                raise Done()
            if b.op != "arr":
                return "no"
            if not mine:
                return None if b.a[0] == () else "no"
            if len(b.a[0]) != 1:
                return "no"
            want = self.none(ctx, c)
            got = truth(ctx, b.a[0][0])
            return int(got == want)
        got = {x for _, _, x in runs(f, run, self.e, r.ctx.extras)} - {None}
        return got.pop() if len(got) == 1 and got != {"no"} else None

    def one_pass(self, r, p, res, parts, vecs):
        """one of the eight passes over the partitions"""
        ctx = r.ctx
        if ctx.facts.decide(ge(parts, 1)) == 0:
            return
        x = r.loop("residue partitions")
        node = x[1]
        # the first partition of a group
        cand = [v for v, (i, nx) in node.phis.items() if isinstance(v, T) and E.is_intish(v) and same(i, 0, ctx.facts)]
        cand += [mul(node.it, self.cpc), node.it]
        hit = None
        for v in cand:
            good = True
            for i in range(len(node.nexts)):
                f = self.facts_in(node, i, ctx)
                if f is not None and self.dec(lt(v, parts), node.nexts[i], f) != 1:
                    good = False
            if good:
                hit = v
                break
        if hit is None:
            raise Mismatch("partitions", "has residue partitions decoded beyond their number")
        k = ("pass", node, p, vecs is None, ctx.extras)
        save = self.mem, self.stride
        if k not in self.memo:
            self.memo[k] = None
            mem0 = None
            if p == 0:
                mem0 = self.memory(node, ctx)

            def group(r):
                if p == 0:
                    self.mem = mem0
                m = self.group(r, hit, p, res, parts, vecs)
                f = r.ctx.facts
                nx = node.phis[hit][1][r.path] if hit in node.phis else subst(hit, {node.it: add(node.it, 1)})
                if p == 0 and mem0 is not None:
                    new = node.phis[mem0][1][r.path]
                    if not same(new, self.mem, f) and new is not self.mem:
                        raise Mismatch("classes", "has partition classes that are not kept")
                if not (same(nx, add(hit, m), f) or same(renorm(nx, f), renorm(add(hit, m), f), f)):
                    # past the end any value will do
                    if not (f.decide(ge(nx, parts)) == 1 and f.decide(ge(add(hit, m), parts)) == 1):
                        raise Mismatch("partitions", "goes on with residue partition %s instead of %s" % (show(nx)[:80], show(add(hit, m))[:80]))
                return m
            group.key = k
            self.mem, self.stride = save
            r.each(node, group)
            self.memo[k] = (mem0, self.stride)
        if self.memo[k] is None:
            raise Mismatch("classes", "has a residue that is not understood")
        mem0, stride = self.memo[k]
        self.mem, self.stride = save
        if p == 0:
            self.stride = stride
            self.mem = mem0
        end = subst(hit, {node.it: x[2]}) if isinstance(hit, T) else hit
        if p == 0 and mem0 is not None:
            self.mem = subst(mem0, {node.it: x[2]})
        if self.dec(ge(end, parts), r.all, ctx.facts) == 1:
            return
        if x[3] and node.exact and ctx.facts.decide(ge(end, parts)) == 1:
            return
        m = self.group(r, end, p, res, parts, vecs)
        if ctx.facts.decide(ge(add(end, m), parts)) != 1:
            r.need("the rest of the residue partitions")
            raise Mismatch("partitions", "has residue partitions left out")

    def dec(self, c, items, f):
        """a condition decided by what the path has found out, in other words"""
        if not isinstance(c, T):
            return int(bool(c))
        d = f.decide(c)
        if d is not None:
            return d
        c2 = renorm(c, f)
        d = f.decide(c2) if isinstance(c2, T) else int(bool(c2))
        if d is not None:
            return d
        g = f
        for y in items:
            if y[0] == "as" and isinstance(y[1], T):
                for k in relit(y[1], f):
                    if isinstance(k, T) and k is not y[1]:
                        g = g.assume(k, y[2]) or g
        for k in (c, shallow(c, f), c2):
            d = g.decide(k) if isinstance(k, T) else int(bool(k))
            if d is not None:
                return d
        return None

    def memory(self, node, ctx):
        """the variable of a loop that holds the classes of the partitions"""
        seqs = [v for v in node.phis if isinstance(v, T) and v.op == "seqsym"]
        if len(seqs) != 1:
            raise Mismatch("classes", "has partition classes that are not understood") if seqs else Mismatch("classes", "has no partition classes")
        return seqs[0]

    def group(self, r, pc, p, res, parts, vecs):
        """the partitions that share a classword; -> their number"""
        ctx, cpc = r.ctx, self.cpc
        self.top = pc, parts
        if p == 0:
            self.over_vectors(r, vecs, lambda r, j: self.classword(r, j, pc, res, parts), "classwords", ("classword", pc), True)
        mem = self.mem
        m = 0
        x = r.peek()
        f = ctx.facts
        if x is not None and x[0] == "loop" and not self.is_vectors(x[1], vecs, f) and not self.is_vq(x[1], ctx, vecs):
            r.pos += 1
            node = x[1]
            k = ("group", p, pc, vecs is None, mem, self.stride)

            def part(r):
                at = add(pc, node.it)
                if r.ctx.facts.decide(lt(node.it, cpc)) != 1 or not self.below(node, r, at, pc, parts):
                    raise Mismatch("partitions", "has residue partitions decoded beyond their number")
                self.mem = mem
                self.part(r, at, p, res, vecs)
            part.key = k
            r.each(node, part)
            self.mem = mem
            m = x[2]
        silent = False
        while True:
            if same(m, cpc, f) or f.decide(ge(m, cpc)) == 1 or self.dec(ge(add(pc, m), parts), r.all, f) == 1:
                return m
            if r.peek() is None and r.kind == "ok":
                # nothing is decoded of a partition whose class has no codebook for the pass
                if silent:
                    raise Mismatch("partitions", "has residue partitions left out")
                silent = True
            else:
                r.need("a residue partition")
            self.part(r, add(pc, m), p, res, vecs)
            m = add(m, 1)

    def below(self, node, r, at, pc, parts):
        """partition `at` exists: known, or because every iteration before went on only if it does"""
        f = r.ctx.facts
        if self.dec(lt(at, parts), r.all, f) == 1:
            return True
        if self.dec(lt(pc, parts), r.all, f) != 1:
            return False
        for i in range(len(node.nexts)):
            g = self.facts_in(node, i, r.ctx)
            if g is None:
                continue
            if self.dec(lt(add(at, 1), parts), node.nexts[i], g) != 1:
                return False
        return True

    def is_vectors(self, node, vecs, f):
        return vecs is not None and node.exact and self.list is not None and same(node.trip, slen(self.list), f) and not same(node.trip, self.cpc, f)

    def is_vq(self, node, ctx, vecs):
        """a loop over the codewords of one partition"""
        return vecs is None and node.exact and any(y[0] == "ev" and y[1] == "decode" for p in node.nexts for y in p)

    def over_vectors(self, r, vecs, body, what, key, stores=False):
        """body for every channel of the submap that has a residue"""
        if vecs is None:
            body(r, 0)
            return
        n = vecs[0]
        if self.list is None:
            raise Mismatch("residue", "has residue vectors that are not understood")
        x = r.loop(what)
        node = x[1]
        if not node.exact or not same(node.trip, slen(self.list), r.ctx.facts):
            raise Mismatch("count:" + what, "has %s %s instead of %s" % (show(node.trip)[:100], what, show(slen(self.list))[:100]))
        before = self.mem
        mine = None
        if stores:
            mine = self.memory(node, r.ctx)
            if node.phis[mine][0] is not before and not same(node.phis[mine][0], before, r.ctx.facts):
                raise Mismatch("classes", "has partition classes that are not kept")

        def one(r):
            g = r.ctx.facts
            b = r.ctx.true(self.mark(node.it, g))
            self.mem = mine if stores else before
            if (b if self.lpol else not b):
                pass
            else:
                body(r, node.it)
            if stores:
                new = node.phis[mine][1][r.path]
                if new is not self.mem and not same(new, self.mem, r.ctx.facts):
                    raise Mismatch("classes", "has partition classes that are not kept")
        one.key = (key, "vectors", self.stride if not stores else None, before)
        r.each(node, one)
        self.mem = subst(mine, {node.it: x[2]}) if stores else before
        if not x[3]:
            b = r.ctx.true(self.mark(x[2], r.ctx.facts))
            if (b if self.lpol else not b):
                raise Mismatch("stop:" + what, "has a list of %s that stops early" % what)
            body(r, x[2])
            r.need("the rest of the " + what)
            raise Mismatch("stop:" + what, "has a list of %s that stops early" % what)

    def classword(self, r, j, pc, res, parts):
        """the classes of the next partitions of one vector"""
        ctx = r.ctx
        v = r.decode(res["classbook"], "a classword")
        # its digits, the last one first
        for x in r.all:
            if x[0] != "loop" or not x[3] or not x[1].exact or has_event_memo(self, x[1], SEEN) or not same(x[1].trip, self.cpc, ctx.facts):
                continue
            node = x[1]
            seqs = [s for s in node.phis if isinstance(s, T) and s.op == "seqsym"]
            ints = [s for s in node.phis if isinstance(s, T) and E.is_intish(s) and same(node.phis[s][0], v, ctx.facts)]
            if len(seqs) != 1 or len(ints) != 1 or len(node.nexts) != 1:
                continue
            s, t = seqs[0], ints[0]
            f = self.facts_in(node, 0, ctx)
            if node.phis[s][0] is not self.mem and not same(node.phis[s][0], self.mem, ctx.facts):
                raise Mismatch("classes", "has partition classes that are not kept")
            n1, t1 = node.phis[s][1][0], node.phis[t][1][0]
            self.rep.n("C18", "classes")
            if n1.op != "store" or n1.a[0] is not s or not self.eqv(n1.a[2], rem(t, res["nc"]), f) or not self.eqv(t1, div(t, res["nc"]), f):
                raise Mismatch("classes", "has partition classes that are not the digits of their classword")
            f = self.small(f, pc, parts, j)
            idx = shallow(n1.a[1], f)
            at = add(pc, sub(sub(self.cpc, 1), node.it))
            base = shallow(sub(idx, at), f)
            if isinstance(j, T):
                st = subst(base, {j: 1})
                if not same(subst(base, {j: 0}), 0, f) or not (base == mul(j, st) or same(base, mul(j, st), f)) or E.contains(st, j) or \
                        self.dec(ge(st, add(parts, self.cpc, -1)), (), f) != 1 or E.contains(st, node.it):
                    raise Mismatch("classes", "has partition classes stored at %s" % show(idx)[:160])
                self.stride = st
            elif not same(base, 0, f):
                raise Mismatch("classes", "has partition classes stored at %s" % show(idx)[:160])
            self.mem = subst(s, {node.it: x[2]})
            return
        if r.peek() is None and r.kind == "err":
            return
        raise Mismatch("classes", "has a classword that is not split into the classes of its partitions")

    def cell(self, r, idx, j):
        """an element of the memory for classes, by the name that the path knows it by"""
        f = r.ctx.facts
        v = self.val(self.mem, idx, f)
        if not isinstance(v, T) or v.op != "app":
            return v
        g = self.small(f, self.top[0], self.top[1], j)
        seen, names = set(), []

        def walk(t):
            if isinstance(t, T):
                if t in seen:
                    return
                seen.add(t)
                if t.op == "app" and t.a[0] == v.a[0] and len(t.a[1]) == len(v.a[1]) and t.a[1][:-1] == v.a[1][:-1]:
                    names.append(t)
                for y in t.a:
                    walk(y)
            elif isinstance(t, tuple):
                for y in t:
                    walk(y)
        for y in r.all:
            if y[0] == "as":
                walk(y[1])
        for t in names:
            if same(t.a[1][-1], v.a[1][-1], g) or same(shallow(t.a[1][-1], g), shallow(v.a[1][-1], g), g):
                return t
        return v

    def small(self, f, pc, parts, j):
        """partitions are below their number, channels below 255"""
        f = f.copy()
        for v, top in ((pc, rng(parts, f)[1] - 1), (j, 254)):
            if isinstance(v, T) and v.op != "lin":
                l, h = rng(v, f)
                f.iv[v] = (l, min(h, top))
                f.rc.clear()
        return f

    def eqv(self, a, b, f):
        return a is b or same(a, b, f) or same(renorm(a, f), renorm(b, f), f)

    def part(self, r, pc, p, res, vecs):
        self.over_vectors(r, vecs, lambda r, j: self.vq(r, j, pc, p, res), "residue vectors", ("vq", p, pc))

    def vq(self, r, j, pc, p, res):
        ctx, a = r.ctx, self.a
        idx = pc if not isinstance(j, T) else add(mul(j, self.stride if self.stride is not None else 0), pc)
        cls = self.cell(r, idx, j)
        if ctx.b(ge(cls, res["nc"])):
            raise Done()    # a remainder is less than its divisor
        b = res["books"].at(ctx, cls).at(ctx, p)
        if b is None:
            return
        cb = a["codebooks"].at(ctx, b)
        if ctx.b(eq(cb["lookup"], 0)):
            r.invalid("a residue vector in a codebook without vectors")
        ps = add(res["psize"], 1)
        if ctx.b(lt(cb["dims"], 1)):
            r.invalid("a residue codebook without dimensions")
        if ctx.b(ge(rem(ps, cb["dims"], ctx.facts), 1)):
            r.invalid("partitions that are no multiple of their codebook's dimensions")
        r.rep(div(ps, cb["dims"]), lambda r, i: r.decode(b, "a residue vector"), "residue vectors of a partition", ("vector", b))


def check_grammar(R, rep, outs, pre, P, a, second):
    e = R.eng
    what = "rewriting" if second else "analysis"
    for o in outs:
        if o[0] != "ret":
            continue
        s, v = o[1], e.force(o[2], o[1])
        ok = optim.is_ok(v)
        idseq = R.seq(R.id, s)
        byte = lambda i, f: e.sel(idseq, i, e.F.u8, St(f))
        sizes = [pow2(rem(byte(28, s.facts), 16)), pow2(div(byte(28, s.facts), 16))]
        if rep.viol and any(x[0] == "C18" for x in rep.viol):
            return
        seen = set()
        for leaf in leaves(s.items()[pre:]):
            if failing(leaf) is not None:
                continue
            f = with_lits(s.facts, leaf)
            if f is None:
                continue
            rep.n("C18", "ways")

            def run(ctx):
                G = Grammar(P, rep, a, P.nch, sizes, e, second)
                k = (second,)
                G.memo, G.checked = P.audio.setdefault(k, ({}, set()))
                rd = [i for i, x in enumerate(leaf) if x[0] == "ev" and x[1] == "reader"]
                if len(rd) != 1:
                    raise Mismatch("start", "is not read once")
                r = Dec(G, leaf, ctx, "ok" if ok else "err")
                G.link(r)
                size = G.packet(r)
                if r.peek() is not None:
                    raise Mismatch("more", "has more fields than it should")
                if not ok:
                    raise Mismatch("rejects", "is rejected although it is valid")
                if second:
                    p = optim.payload(e, s, v)
                    bs = p[1] if p is not None else None
                else:
                    x = e.force(v.a[2][0], s)
                    bs = e.force(x.a[2][0], s) if x.a[1] == 1 else None
                if bs is not None and not same(bs, size, ctx.facts):
                    raise Mismatch("size", "is reported with a block size of %s instead of %s" % (show(bs)[:80], show(size)[:80]))
            try:
                runs(f, run, e)
            except Mismatch as m:
                rep.bad("C18", m.key, "in the %s, an audio packet %s" % (what, m.text))
                if os.environ.get("VERIF_DEBUG"):
                    debug(P, m, leaf)


def debug(P, m, leaf):
    import traceback
    traceback.print_exc()
    at = getattr(m, "at", (leaf, None, None))
    if at[1] is not None:
        n = at[1]
        print("NODE", n.where[-8:], "trip", show(n.trip)[:200], "exact", n.exact, "phis", [(show(v)[:60], show(i)[:60], [show(y)[:60] for y in nx]) for v, (i, nx) in n.phis.items()])
        print("EXTRAS", [(show(x[0])[:200], x[1]) for x in at[2].extras])
    for x in at[0]:
        print("   ", x[0], (x[1], [show(y)[:80] for y in x[2]]) if x[0] == "ev" else show(x[1])[:200] if x[0] == "as" else (x[1].where[-8:], show(x[2])[:40], x[3], has_event_memo(P, x[1], SEEN)), x[2] if x[0] != "loop" and x[0] != "ev" else "")


# ---------------------------------------------------------------- running it
def tasks(F, rep):
    """prepared runs of the two passes: (label, chain, state, optimiser, root, AST, P, second)"""
    R = setup.Chain(F)
    P, good, pk = header.check_parse(R, rep)
    R.read_errors = "kinds"
    e = R.eng
    e.opts["range_unroll"], e.opts["join"], e.budget = 8, True, 10 ** 9
    P.audio = {}
    states = []
    for s, ex, ctx, a in good:
        st = s.clone()
        st.facts = ctx.facts
        st.trace, st.occ = None, {}
        states.append((st, e.force(s.mem[optim.H], s), a))
    out = []
    for st, V, a in states:
        ways = [(st, V, "root_analyze", False)]
        cur = [(st, V)]
        R.read_errors = False
        for p in (R.id, R.comment, pk):
            nxt = []
            for s1, V1 in cur:
                s1 = s1.clone()
                s1.occ, s1.trace = {}, None
                for o in R.on("root_optimize_slice", s1, V1, p):
                    if o[0] == "ret" and optim.is_ok(e.force(o[2], o[1])):
                        nxt.append((o[1], o[1].mem[optim.H]))
            cur = header.distinct(e, nxt)
        R.read_errors = "kinds"
        for s1, V1 in cur:
            s1 = s1.clone()
            s1.occ, s1.trace = {}, None
            s1.mem.pop(("H", "finalised"), None)
            ways.append((s1, V1, "root_optimize_slice", True))
        for s1, V1, root, second in ways:
            for several in (False, True):
                z = s1.clone()
                if z.assume(ge(a["modes"].n, 2), several):
                    out.append((R, P, z, V1, root, a, second))
    return R, out


def run_task(t, checks):
    R, P, z, V, root, a, second = t
    rep = Report()
    t0 = time.time()
    pkt = R.arg("root_analyze", 1, "audio")
    pre = len(z.items())
    outs = R.on(root, z, V, pkt)
    if os.environ.get("VERIF_TIMES"):
        print("%s: %d outcomes in %.1f s" % (root, len(outs), time.time() - t0), flush=True)
    t0 = time.time()
    if "C03" in checks and second:
        check_copy(R, rep, outs, pre)
    if "C02" in checks:
        check_end(R, rep, outs, pre, a, second)
    if "C18" in checks:
        check_grammar(R, rep, outs, pre, P, a, second)
    if os.environ.get("VERIF_TIMES"):
        print("%s: compared in %.1f s" % (root, time.time() - t0), flush=True)
    return rep, set(R.eng.analysed)


_work = None


def _child(i):
    import resource
    try:
        return run_task(*_work[i])
    except (E.Unsupported, RecursionError) as x:
        return str(x) or type(x).__name__


def check(F, rep, checks, second=None):
    """the two passes over audio packets, in parallel"""
    global _work
    r0 = Report()
    R, ts = tasks(F, r0)
    if not ts:
        raise E.Unsupported("no setup header is accepted")
    _work = [(t, checks) for t in ts if second is None or t[6] == second]
    if not _work:
        raise E.Unsupported("no audio packet gets to that pass")
    with mp.get_context("fork").Pool(min(len(_work), 8)) as pool:
        res = pool.map(_child, range(len(_work)), 1)
    an = set(R.eng.analysed)
    for x in res:
        if isinstance(x, str):
            raise E.Unsupported(x)
        rep.merge(x[0])
        an |= x[1]
    return an
