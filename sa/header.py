"""The Vorbis I setup header: a reference grammar, and its comparison with what the code reads and writes."""
from terms import *
import engine as E
from engine import mk, slen, subst, NeedFork
from refcmp import Report, Ctx, Split, St, same, split_same, renorm, gates


class Done(Exception):
    """the rest of the path needs no comparison"""


class Mismatch(Exception):
    def __init__(self, key, text):
        self.key, self.text = key, text


class Ctx2(Ctx):
    def __init__(self, facts, eng, extras):
        super().__init__(facts, eng)
        self.extras = extras
        self.pending = []

    def assume(self, lits):
        for c, v in lits:
            if self.facts.decide(c) is None:
                f = self.facts.assume(c, v)
                if f is None:
                    raise Done()
                self.facts = f
                self.extras += ((c, v),)

    def true(self, x):
        """a flag, however it was read"""
        if not isinstance(x, T):
            return bool(x)
        for c in (x, ge(x, 1), bnot(eq(x, 0))):
            d = self.facts.decide(c)
            if d is not None:
                return bool(d)
        raise Split(x if rng(x, self.facts)[1] <= 1 else ge(x, 1))


def consistent(f):
    """no linear combination is known to be out of the range its parts leave it"""
    for k in f.iv:
        if isinstance(k, T) and k.op == "lin" and len(k.a[1]) <= 4:
            l, h = rng(k, f)
            if l > h:
                return False
    return True


def runs(facts, fn, eng, extras=(), limit=600):
    """[(new assumptions, facts, result)] of the reference on every side of what it asks"""
    out, todo = [], [(facts, ())]
    while todo:
        f, ex = todo.pop()
        c = Ctx2(f, eng, tuple(extras) + ex)
        try:
            out.append((ex, c, fn(c)))
        except (Split, NeedFork) as s:
            for v in (1, 0):
                g = f.assume(s.cond, v)
                if g is not None:
                    todo.append((g, ex + ((s.cond, v),)))
        except Done:
            pass
        except Mismatch:
            # the alternatives of a list may still exclude it
            und = [x for x in c.pending if c.facts.decide(x) is None]
            if not und:
                raise
            for v in (1, 0):
                g = f.assume(und[0], v)
                if g is not None:
                    todo.append((g, ex + ((und[0], v),)))
        if len(out) + len(todo) > limit:
            raise E.Unsupported("the reference of the setup header splits too often")
    return out


# ---------------------------------------------------------------- values of the reference
class Arr:
    """n elements; element `it` is one of the alternatives, selected by the literals"""

    def __init__(self, it, bv, n, alts, node=None):
        self.it, self.bv, self.n, self.alts, self.node = it, bv, n, alts, node
        common = None
        for ls, _ in alts:
            common = set(ls) if common is None else common & set(ls)
        common = common or set()
        self.common = [x for x in alts[0][0] if x in common] if alts else []

    def at(self, ctx, i):
        if self.it is None:
            if not isinstance(i, int):
                raise E.Unsupported("an element of a written-out list at %s" % show(i)[:60])
            return self.alts[i][1]
        m = {self.it: i}
        ctx.assume([(subst(c, m), v) for c, v in self.common if isinstance(c, T)])
        els = []
        for ls, el in self.alts:
            sl = [(subst(c, m) if isinstance(c, T) else c, v) for c, v in ls if (c, v) not in self.common]
            ds = [ctx.facts.decide(c) if isinstance(c, T) else c for c, v in sl]
            if all(d is None or d == v for d, (c, v) in zip(ds, sl)):
                els.append((sl, ds, el))
        if not els:
            raise Done()
        first = els[0][2]
        if len(els) > 1 and any(el != first for _, _, el in els[1:]):
            for sl, ds, _ in els:
                for d, (c, v) in zip(ds, sl):
                    if d is None:
                        raise Split(c)
            # several alternatives hold: the reference split on something that is not decided by the code
            raise E.Unsupported("an element of a list is ambiguous")
        if len(els) == 1:
            ctx.assume(els[0][0])
        else:
            ctx.pending += [c for sl, ds, _ in els for d, (c, v) in zip(ds, sl) if d is None]
        return vsubst(first, m)

    def subst(self, m):
        if self.it is None:
            return Arr(None, None, self.n, [(ls, vsubst(el, m)) for ls, el in self.alts], self.node)
        # element variables carry the indices of the loops around them
        return Arr(subst(self.it, m), subst(self.bv, m), subst(self.n, m) if isinstance(self.n, T) else self.n,
                   [(tuple((subst(c, m) if isinstance(c, T) else c, v) for c, v in ls), vsubst(el, m)) for ls, el in self.alts], self.node)

    def __eq__(self, o):
        return self is o or (isinstance(o, Arr) and self.it is o.it and self.n == o.n and self.alts == o.alts)

    __hash__ = None


def vsubst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Arr):
        return v.subst(m)
    if isinstance(v, dict):
        return {k: vsubst(x, m) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    return v


def has_event(items, names):
    for x in items:
        if x[0] == "ev" and x[1] in names:
            return True
        if x[0] == "join" and any(has_event(p, names) for p in x[1].alts):
            return True
        if x[0] == "loop" and (any(has_event(p, names) for p in x[1].nexts) or any(has_event(p[0], names) for p in x[1].exits)):
            return True
    return False


READ = ("read", "eof", "codebook")
WRITE = ("write", "ordered-many")


class Cursor:
    """the relevant items of a path, in order"""

    def __init__(self, P, items, ctx, kind, names):
        self.P, self.ctx, self.kind, self.names = P, ctx, kind, names
        self.all = items
        self.items = [x for x in items if (x[0] == "ev" and x[1] in names and x[1] != "codebook") or
                      (x[0] == "loop" and has_event_memo(P, x[1], names))]
        self.side = [x for x in items if x[0] == "ev" and x[1] == "codebook"]
        self.pos = 0
        self.bads = []
        self.dup = None

    def peek(self):
        return self.items[self.pos] if self.pos < len(self.items) else None


def has_event_memo(P, node, names):
    k = (node, names)
    r = P.hasev.get(k)
    if r is None:
        r = P.hasev[k] = any(has_event(p, names) for p in node.nexts) or any(has_event(p[0], names) for p in node.exits)
    return r


def exhausted(r, what):
    """a path is over where the reference goes on with `what`: right only if the packet is invalid"""
    if r.kind != "err":
        raise Mismatch("ends", "stops before " + what)
    for cond, why in r.bads:
        if r.ctx.b(cond):
            raise Done()
    raise Mismatch("rejects", "is rejected before " + what)


def verdict(r):
    """all of a valid packet has been read"""
    for cond, why in r.bads:
        r.P.rep.n("C17", "conditions")
        if r.ctx.b(cond):
            if r.kind == "err":
                raise Done()
            raise Mismatch("accepts:" + why, "is accepted with " + why)


class Read(Cursor):
    def __init__(self, P, items, ctx, kind):
        super().__init__(P, items, ctx, kind, READ)

    def rd(self, w, what):
        x = self.peek()
        if isinstance(w, int) and w == 0 and (x is None or x[0] != "ev" or not same(x[2][0], 0, self.ctx.facts)):
            return 0
        if x is None:
            exhausted(self, what)
        if x[0] != "ev":
            raise Mismatch("field", "has a list of fields instead of " + what)
        got = x[2][0]
        self.P.rep.n("C17", "fields")
        if not (got == w or (w != "float" and got != "float" and same(got, w, self.ctx.facts))):
            raise Mismatch("width:" + what, "has %s read with %s bits instead of %s" % (what, show(got)[:80], show(w)[:80]))
        self.pos += 1
        if x[1] == "eof":
            if self.kind != "err":
                raise Mismatch("eof", "is accepted although it ends before " + what)
            raise Done()
        return x[3]

    def bad(self, cond, why):
        self.bads.append((cond, why))

    def trip(self, what):
        """length of the list that comes next"""
        x = self.peek()
        if x is None or x[0] != "loop":
            return None
        return x[1].trip

    def rep(self, n, body, what):
        x = self.peek()
        if x is None or x[0] != "loop":
            if isinstance(n, int):
                return Arr(None, None, n, [((), body(self, i)) for i in range(n)])
            if self.ctx.b(eq(n, 0)):
                return Arr(None, None, 0, [])
            if x is None:
                exhausted(self, what)
            if self.kind == "err":
                # the first element is already invalid
                body(self, 0)
                if self.peek() is None:
                    exhausted(self, "the rest of the " + what)
            raise Mismatch("list:" + what, "has no list of %s" % what)
        self.pos += 1
        node = x[1]
        if node.trip is None or not same(node.trip, n, self.ctx.facts):
            raise Mismatch("count:" + what, "has %s %s instead of %s" % (show(node.trip)[:100], what, show(n)[:100]))
        alts = []
        for i in range(len(node.nexts)):
            alts += self.P.element(node, i, body, self.ctx, Read)
        arr = Arr(node.it, node.bv, n, alts, node)
        if not x[3]:
            body(self, x[2])
            if self.peek() is None:
                exhausted(self, "the rest of the " + what)
            raise Mismatch("stop:" + what, "has a list of %s that stops early" % what)
        return arr


class Write(Cursor):
    """what a path writes, compared with what the parsed header says"""

    def __init__(self, P, items, ctx, kind):
        super().__init__(P, items, ctx, kind, WRITE)

    def take(self, w, what):
        x = self.peek()
        if isinstance(w, int) and w == 0 and (x is None or x[0] != "ev" or x[1] != "write" or not same(x[2][0], 0, self.ctx.facts)):
            return None
        self.P.rep.n("C01", "fields")
        if x is None:
            raise Mismatch("w-ends", "ends before " + what)
        if x[0] != "ev" or x[1] != "write":
            raise Mismatch("w-field", "has a list of fields instead of " + what)
        got, val = vsubst(x[2], self.m)
        if not (got == w or (w != "float" and got != "float" and same(got, w, self.ctx.facts))):
            raise Mismatch("w-width:" + what, "has %s written with %s bits instead of %s" % (what, show(got)[:80], show(w)[:80]))
        self.pos += 1
        return val

    def force(self, v):
        return self.P.e.force(v, St(self.ctx.facts)) if isinstance(v, T) else v

    def emit(self, w, value, what, also=None):
        got = self.take(w, what)
        if got is None:
            return
        got, value = self.force(got), self.force(value)
        f = self.ctx.facts
        if got is value or got == value or (isinstance(got, T) and isinstance(value, T) and got.op == value.op == "app" and got.a[:2] == value.a[:2]):
            return
        if w != "float":
            if same(got, value, f):
                return
            m = pow2(w, f) if isinstance(w, T) else 1 << w
            got = self.masks(got)
            f = self.ctx.facts
            for v in (value, also):
                if v is not None and (same(rem(got, m, f), rem(v, m, f), f) or split_same(rem(got, m, f), rem(v, m, f), f) is None):
                    return
        self.P.open(w, self.ctx, got, value)
        raise Mismatch("w-value:" + what, "has %s as %s instead of %s" % (show(got)[:160], what, show(value)[:160]))

    def flag(self, value, what):
        got = self.take(1, what)
        g, v = self.ctx.true(self.masked(got)), self.ctx.true(value)
        if g != v:
            raise Mismatch("w-value:" + what, "has %s as %s instead of %s" % (g, what, v))

    def masked(self, got):
        return self.masks(self.force(got))

    def masks(self, got):
        """masks built bit by bit over the members of a list"""
        for x in self.all:
            if not (isinstance(got, T) and x[0] == "loop" and x[3] and isinstance(x[1].trip, int) and x[1].trip <= 64):
                continue
            node = x[1]
            for v, (init, nx) in node.phis.items():
                at = subst(v, {node.it: x[2]}) if isinstance(v, T) else None
                if at is not None and E.contains(got, at) and self.mask is not None:
                    if self.P.is_mask(node, v, init, nx, self.mask, self.ctx):
                        got = renorm(subst(got, {at: self.mask}), self.ctx.facts)
        return got

    def link(self):
        """what the path found out about a mask holds for what it is made of"""
        for x in self.all:
            if x[0] == "as" and isinstance(x[1], T):
                c = self.masks(x[1])
                if c is x[1]:
                    continue
                if isinstance(c, T):
                    self.ctx.assume([(c, x[2])])
                elif bool(c) != bool(x[2]):
                    raise Done()

    mask = None
    m = {}

    def rep(self, n, body, what):
        x = self.peek()
        f = self.ctx.facts
        if x is None or x[0] != "loop":
            if isinstance(n, int):
                for i in range(n):
                    body(self, i)
                return
            if self.ctx.b(eq(n, 0)):
                return
            if x is None:
                raise Mismatch("w-ends", "ends before the " + what)
            raise Mismatch("w-list:" + what, "has no list of %s" % what)
        self.pos += 1
        node = x[1]
        if not node.exact:
            return self.filtered(x, n, body, what)
        if node.trip is None or not same(node.trip, n, f):
            raise Mismatch("w-count:" + what, "has %s %s instead of %s" % (show(node.trip)[:100], what, show(n)[:100]))
        if not x[3]:
            raise Mismatch("w-stop:" + what, "has a list of %s that stops early" % what)
        for i in range(len(node.nexts)):
            self.P.each(node, i, body, self.ctx)

    def filtered(self, x, n, body, what):
        """a list of only those members that are found by a search; the others have nothing to write"""
        node = x[1]
        bad = Mismatch("w-list:" + what, "has a list of %s that is not understood" % what)
        pos = None
        for v, (init, nx) in node.phis.items():
            if not isinstance(v, T):
                continue
            ins = []
            for alt in node.nexts:
                c = [y for y in alt if y[0] == "loop" and y[1].exact and not y[3] and same(y[1].trip, tmax((sub(n, v), 0)), self.ctx.facts)]
                ins.append(c[0] if len(c) == 1 else None)
            if all(ins) and same(init, 0, self.ctx.facts):
                if pos is not None:
                    raise bad
                pos = (v, nx, ins)
        if pos is None or x[3]:
            raise bad
        v, nx, ins = pos
        for i, y in enumerate(ins):
            f = self.P.facts_in(node, i, self.ctx)
            if f is None:
                continue
            if not same(nx[i], add(v, y[2], 1), f):
                raise bad
            # everything before what is found has nothing to write
            self.P.silent(y[1], v, body, Ctx2(f, self.P.e, self.ctx.extras))
            self.P.each(node, i, body, self.ctx, at=add(v, y[2]))
        end = subst(v, {node.it: x[2]})
        k = [j for j, y in enumerate(self.all) if y is x][0]
        tail = [y for y in self.all[k + 1:] if y[0] == "loop" and y[1].exact and y[3] and same(y[1].trip, tmax((sub(n, end), 0)), self.ctx.facts)]
        if not tail:
            raise bad
        self.P.silent(tail[0][1], end, body, self.ctx)


class Parse:
    """The reference grammar applied to the paths of the setup header analysis."""

    def __init__(self, R, rep, nch, byte7, seq):
        self.R, self.e, self.rep = R, R.eng, rep
        self.memo, self.hasev = {}, {}
        self.nch, self.seq, self.ncb = nch, seq, add(byte7, 1)

    def facts_in(self, node, i, ctx):
        """what holds on the i-th path through an iteration; None if it cannot be taken"""
        if node.nstates:
            f = node.nstates[i].facts
            more = ctx.extras
        else:
            # a loop within one particular iteration of another one
            f = ctx.facts
            more = [(ge(node.it, 0), 1), (lt(node.it, node.trip), 1)] + [(x[1], x[2]) for x in node.nexts[i] if x[0] == "as"]
        for c, v in more:
            f = f.assume(c, v) if f is not None else None
        return f if f is not None and (not more or consistent(f)) else None

    def element(self, node, i, body, ctx, cls):
        """alternatives (literals, element) of iteration `it` along its i-th path"""
        extras = ctx.extras
        k = (node, i, body.__name__ if not getattr(body, "ctxdep", None) else body.ctxdep, extras, cls)
        r = self.memo.get(k)
        if r is not None:
            return r
        f = self.facts_in(node, i, ctx)
        out = []
        if f is not None:
            ls = tuple((x[1], x[2]) for x in node.nexts[i] if x[0] == "as")

            def run(ctx):
                r = cls(self, node.nexts[i], ctx, "cont")
                el = body(r, node.it)
                if r.peek() is not None:
                    raise Mismatch("more", "has more fields than it should")
                verdict(r)
                return el
            for ex, c, el in runs(f, run, self.e, extras):
                out.append((ls + ex, el))
        self.memo[k] = out
        return out

    def open(self, w, ctx, *vals):
        """look at both sides of a condition that one of the values hangs on"""
        for v in vals:
            for c in gates(v, []):
                if isinstance(c, T) and c.op != "not" and ctx.facts.decide(c) is None:
                    raise Split(c)

    # ------------------------------------------------------------ checks of written lists
    def each(self, node, i, body, ctx, at=None):
        """what the i-th path through an iteration writes is what body says for that member"""
        f = self.facts_in(node, i, ctx)
        m = {}
        if f is not None and same(node.trip, 1, f):
            # the only iteration is the first one
            m = {v: init for v, (init, _) in node.phis.items() if isinstance(v, T) and E.is_intish(v) and E.is_intish(init)}
            m[node.it] = 0
            for v, x in m.items():
                f = f.assume(eq(v, x), 1) if f is not None else None
            for y in node.nexts[i]:
                if f is not None and y[0] == "as":
                    c = renorm(subst(y[1], m), f)
                    if (f.decide(c) if isinstance(c, T) else int(bool(c))) not in (None, int(y[2])):
                        return
        if f is None:
            return

        def run(c):
            w = Write(self, node.nexts[i], c, "ok")
            w.m = m
            body(w, node.it if at is None else at)
            if w.peek() is not None:
                raise Mismatch("w-more", "has more fields than it should")
        runs(f, run, self.e, ctx.extras)

    def silent(self, node, base, body, ctx):
        """iterations of this loop pass over members that have nothing to write"""
        for i in range(len(node.nexts)):
            f = self.facts_in(node, i, ctx)
            if f is None:
                continue

            def run(c):
                w = Write(self, node.nexts[i], c, "ok")
                body(w, add(base, node.it))
                if w.peek() is not None:
                    raise Mismatch("w-more", "has more fields than it should")
            runs(f, run, self.e, ctx.extras)

    def is_mask(self, node, v, init, nx, x, ctx):
        """v collects the bits of x, lowest first"""
        t = node.trip
        if not same(init, 0, ctx.facts) or rng(x, ctx.facts)[1] >= 1 << t:
            return False
        for i, n1 in enumerate(nx):
            f = self.facts_in(node, i, ctx)
            if f is None:
                continue

            def run(c):
                one = bit(c, x, node.it)
                n2 = self.e.force(n1, St(c.facts))
                p = pow2(node.it)
                if not one:
                    return same(n2, v, c.facts)
                return same(n2, add(v, p), c.facts) or (n2.op == "bits" and n2.a[1] == "or" and n2.a[2:] in ((v, p), (p, v)))
            if not all(r for _, _, r in runs(f, run, self.e, ctx.extras)):
                return False
        return True

    # ------------------------------------------------------------ grammar, writing
    def write_packet(self, w, a):
        w.rep(self.ncb, lambda w, i: self.w_codebook(w, a["codebooks"].at(w.ctx, i), i), "codebooks")
        w.emit(6, 0, "the number of time domain transforms")
        w.emit(16, 0, "a time domain transform")
        n = a["floors"].n
        w.emit(6, sub(n, 1), "the number of floors")
        w.rep(n, lambda w, i: self.w_floor(w, a["floors"].at(w.ctx, i)), "floors")
        n = a["residues"].n
        w.emit(6, sub(n, 1), "the number of residues")
        w.rep(n, lambda w, i: self.w_residue(w, a["residues"].at(w.ctx, i)), "residues")
        n = a["mappings"].n
        w.emit(6, sub(n, 1), "the number of mappings")
        w.rep(n, lambda w, i: self.w_mapping(w, a["mappings"].at(w.ctx, i)), "mappings")
        n = a["modes"].n
        w.emit(6, sub(n, 1), "the number of modes")

        def mode(w, i):
            m = a["modes"].at(w.ctx, i)
            w.flag(m["big"], "the block flag")
            w.emit(16, 0, "the window type")
            w.emit(16, 0, "the transform type")
            w.emit(8, m["mapping"], "the mapping of a mode")
        w.rep(n, mode, "modes")
        w.flag(1, "the framing flag")

    def w_codebook(self, w, c, i):
        n = c["n"]
        w.emit(24, 0x564342, "the codebook pattern")
        w.emit(16, c["dims"], "the codebook dimensions")
        w.emit(24, n, "the codebook entries")
        ls = [y for y in w.all if y[0] == "ev" and y[1] == "lengths"]
        if len(ls) != 1 or not same(ls[0][2][0], i, w.ctx.facts):
            raise Mismatch("w-lengths", "has a codebook without codeword lengths of its own")
        L = ls[0][3]
        if not same(slen(L), n, w.ctx.facts):
            raise Mismatch("w-lengths", "has %s codeword lengths" % show(slen(L))[:80])
        at = lambda j: w_elem(self.e, L, j, w.ctx.facts)
        flag = w.take(1, "the ordered flag")
        self.rep.n("C06", "formats")
        if w.ctx.true(w.masked(flag)):
            self.w_ordered(w, at, n)
        else:
            sparse = w.ctx.true(w.masked(w.take(1, "the sparse flag")))
            if not sparse:
                self.all_used(w, L, n)

            def length(w, j):
                l = w_elem(self.e, L, j, w.ctx.facts)
                if sparse:
                    used = w.ctx.b(ge(l, 1))
                    w.flag(int(used), "the used flag")
                    if not used:
                        return
                    w.emit(5, sub(l, 1), "a codeword length")
                else:
                    # used, as shown above
                    w.ctx.assume([(ge(l, 1), 1)])
                    w.emit(5, sub(l, 1), "a codeword length")
            w.rep(n, length, "codeword lengths")
        t = c["lookup"]
        w.emit(4, t, "the lookup type")
        if w.ctx.b(ge(t, 1)):
            w.emit("float", c["min"], "the minimum value")
            w.emit("float", c["delta"], "the delta value")
            w.emit(4, sub(c["bits"], 1), "the value bits")
            w.flag(c["seq"], "the sequence flag")
            w.rep(c["values"].n, lambda w, j: w.emit(c["bits"], c["values"].at(w.ctx, j), "a codebook value"), "codebook values")

    def all_used(self, w, L, n):
        """the sparse format is left out only if no codeword length is zero"""
        self.rep.n("C06", "proofs")
        if not self.for_all(w, L, n, lambda f, j: f.decide(ge(w_elem(self.e, L, j, f), 1)) == 1):
            raise Mismatch("w-dense", "uses the dense format although an entry may have no codeword")

    def for_all(self, w, L, n, claim):
        """claim(facts, j) for every j below n, by what the completed loops before have established"""
        f = w.ctx.facts
        if f.decide(eq(n, 0)) == 1:
            return True
        if f.decide(eq(n, 1)) == 1 and claim(f, 0):
            return True
        if f.decide(app("notin", (0, L), ("r", 0, 1))) == 1:
            j = sym("any-entry", 0, E.LEN_MAX)
            g = f.assume(ge(w_elem(self.e, L, j, f), 1), 1)
            if g is None or claim(g, j):
                return True
        for x in w.all:
            if x[0] != "loop" or not x[3]:
                continue
            node = x[1]
            k = x[2]
            for v in [None] + [v for v in node.phis if isinstance(v, T)]:
                val = None
                if v is not None:
                    vk = subst(v, {node.it: k})
                    val, cond = self.truth(f, vk)
                    if val is None:
                        continue
                for d in (0, 1):
                    if f.decide(ge(add(renorm(node.trip, f), d), n)) != 1:
                        continue
                    if self.inductive(node, v, val, d, claim, w.ctx):
                        return True
        return False

    def truth(self, f, x):
        """(decided truth value of a flag, condition as a function of the flag)"""
        for c in (lambda x: x, lambda x: ge(x, 1), lambda x: bnot(eq(x, 0))):
            y = c(x)
            d = f.decide(y) if isinstance(y, T) else (int(bool(y)))
            if d is not None:
                return bool(d), c
        return None, None

    def inductive(self, node, v, val, d, claim, ctx):
        """v is val after an iteration only if it was before and the claim holds for the member the iteration looks at"""
        if v is not None:
            init, nexts = node.phis[v]
            if d:
                t, c = self.truth(ctx.facts, init)
                todo = []
                if t is None:
                    g = ctx.facts.assume(init if rng(init, ctx.facts)[1] <= 1 else ge(init, 1), int(val))
                    if g is not None and not claim(g, 0):
                        return False
                elif t == val and not claim(ctx.facts, 0):
                    return False
        elif d:
            return False
        for i in range(len(node.nexts)):
            g = self.facts_in(node, i, ctx)
            if g is None:
                continue
            if v is not None:
                x = nexts[i]
                t, _ = self.truth(g, x)
                if t is not None:
                    if t != val:
                        continue
                else:
                    g = g.assume(x if rng(x, g)[1] <= 1 else ge(x, 1), int(val))
                    if g is None:
                        continue
                t, _ = self.truth(g, v)
                if t != val:
                    return False
            if not claim(g, add(node.it, d)):
                return False
        return True

    def w_ordered(self, w, at, n):
        """A single entry; more of them never qualify: a complete code has two codewords of the biggest length."""
        if not w.ctx.b(eq(n, 1)):
            many = w.ctx.b(ge(n, 2))
            if not many:
                raise Mismatch("w-ordered", "uses the ordered format for a codebook without entries")
            self.rep.n("C06", "proofs")
            L = [y for y in w.all if y[0] == "ev" and y[1] == "lengths"][0][3]
            el = lambda j, f: w_elem(self.e, L, j, f)
            if not self.for_all(w, L, n, lambda f, j: f.decide(ge(el(j, f), 1)) == 1) or \
                    not self.for_all(w, L, sub(n, 1), lambda f, j: f.decide(ge(el(j, f), add(el(add(j, 1), f), 1))) == 1):
                raise Mismatch("w-ordered", "uses the ordered format for codeword lengths that may not follow one another")
            raise Done()
        l = at(0)
        L = [y for y in w.all if y[0] == "ev" and y[1] == "lengths"][0][3]
        if not self.for_all(w, L, n, lambda f, j: f.decide(ge(w_elem(self.e, L, j, f), 1)) == 1):
            raise Mismatch("w-ordered", "uses the ordered format for an entry without codeword")
        w.ctx.assume([(ge(l, 1), 1)])
        w.emit(5, sub(l, 1), "the first codeword length")
        w.rep(1, lambda w, j: w.emit(1, 1, "the number of codewords"), "codeword runs")

    def w_floor(self, w, a):
        w.emit(16, 1, "the floor type")
        w.emit(5, a["partitions"], "the number of partitions")
        w.rep(a["partitions"], lambda w, p: w.emit(4, a["cls"].at(w.ctx, p), "a partition class"), "partition classes")

        def cls(w, i):
            c = a["classes"].at(w.ctx, i)
            w.emit(3, sub(c["dims"], 1), "the class dimensions")
            w.emit(2, c["sub"], "the subclass bits")
            if w.ctx.b(ge(c["sub"], 1)):
                w.emit(8, c["master"], "the masterbook")
            w.rep(c["books"].n, lambda w, j: w.emit(8, c["books"].at(w.ctx, j), "a subclass book"), "subclass books")
        w.rep(a["nc"], cls, "floor classes")
        w.emit(2, sub(a["mult"], 1), "the floor multiplier")
        w.emit(4, a["bits"], "the range bits")
        x = w.peek()
        if a.get("flat") is None:
            w.rep(0, None, "floor points")
            return
        flat = a["flat"]
        if x is not None and x[0] == "loop" and not same(x[1].trip, a["partitions"], w.ctx.facts):
            w.rep(slen(flat), lambda w, q: w.emit(a["bits"], w_elem(self.e, flat, q, w.ctx.facts), "a floor point"), "floor points")
        else:
            w.rep(a["partitions"], lambda w, p: w.rep(a["xs"].at(w.ctx, p).n, lambda w, q: w.emit(a["bits"], a["xs"].at(w.ctx, p).at(w.ctx, q), "a floor point"), "points of a partition"), "floor points")

    def w_residue(self, w, a):
        w.emit(16, a["type"], "the residue type")
        w.emit(24, a["begin"], "the residue begin")
        # nothing is decoded from the begin on in either case
        w.emit(24, a["end"], "the residue end", also=tmax((a["begin"], a["end"])))
        w.emit(24, a["psize"], "the partition size")
        w.emit(6, sub(a["nc"], 1), "the number of classifications")
        w.emit(8, a["classbook"], "the classbook")

        def cascade(w, i):
            x = w.mask = self.e.force(a["cascade"].at(w.ctx, i), St(w.ctx.facts))
            w.link()
            w.emit(3, rem(x, 8), "the low cascade bits")
            hi = div(x, 8)
            any_ = w.ctx.b(ge(hi, 1))
            w.flag(int(any_), "the cascade flag")
            if any_:
                w.emit(5, hi, "the high cascade bits")
        w.rep(a["nc"], cascade, "cascades")

        def books(w, i):
            x = a["cascade"].at(w.ctx, i)
            row = a["books"].at(w.ctx, i)

            def book(w, j):
                if bit(w.ctx, x, j):
                    w.emit(8, row.at(w.ctx, j), "a residue book")
            w.rep(8, book, "residue books")
        w.rep(a["nc"], books, "residue classes")

    def w_mapping(self, w, a):
        w.emit(16, 0, "the mapping type")
        many = w.ctx.b(ge(a["nsub"], 2)) if isinstance(a["nsub"], T) else a["nsub"] >= 2
        w.flag(int(many), "the submaps flag")
        if many:
            w.emit(4, sub(a["nsub"], 1), "the number of submaps")
        steps = a["steps"]
        w.flag(int(a["coupling"] is not None), "the coupling flag")
        if a["coupling"] is not None:
            w.emit(8, sub(steps, 1), "the number of coupling steps")
            wd = mk_bitlen(sub(self.nch, 1)) if w.ctx.b(ge(self.nch, 2)) else 0

            def step(w, j):
                m, an = a["coupling"].at(w.ctx, j)
                w.emit(wd, m, "the magnitude channel")
                w.emit(wd, an, "the angle channel")
            w.rep(steps, step, "coupling steps")
        w.emit(2, 0, "the reserved field")
        if many:
            w.rep(self.nch, lambda w, j: w.emit(4, a["mux"].at(w.ctx, j), "the submap of a channel"), "channel submaps")

        def submap(w, j):
            fl, rs = a["submaps"].at(w.ctx, j)
            w.emit(8, 0, "the time configuration")
            w.emit(8, fl, "the floor of a submap")
            w.emit(8, rs, "the residue of a submap")
        w.rep(a["nsub"], submap, "submaps")

    # ------------------------------------------------------------ grammar, reading
    def packet(self, r):
        rd = r.rd
        a = dict(ncb=self.ncb)
        a["codebooks"] = self.cbs = r.rep(self.ncb, self.codebook, "codebooks")
        n = add(rd(6, "the number of time domain transforms"), 1)
        r.rep(n, self.time, "time domain transforms")
        self.nf = add(rd(6, "the number of floors"), 1)
        a["floors"] = r.rep(self.nf, self.floor, "floors")
        self.nr = add(rd(6, "the number of residues"), 1)
        a["residues"] = r.rep(self.nr, self.residue, "residues")
        self.nm = add(rd(6, "the number of mappings"), 1)
        a["mappings"] = r.rep(self.nm, self.mapping, "mappings")
        n = add(rd(6, "the number of modes"), 1)
        a["modes"] = r.rep(n, self.mode, "modes")
        return a

    def time(self, r, i):
        r.rd(16, "a time domain transform")

    def mode(self, r, i):
        big = r.rd(1, "the block flag")
        r.rd(16, "the window type")
        r.rd(16, "the transform type")
        m = r.rd(8, "the mapping of a mode")
        r.bad(ge(m, self.nm), "a mode whose mapping does not exist")
        return dict(big=big, mapping=m)

    def codebook(self, r, i):
        r.rd(24, "the codebook pattern")
        dims = r.rd(16, "the codebook dimensions")
        n = r.rd(24, "the codebook entries")
        a = dict(dims=dims, n=n)
        if r.ctx.true(r.rd(1, "the ordered flag")):
            lens = self.ordered(r, i, n)
        else:
            sparse = r.rd(1, "the sparse flag")

            def length(r, j):
                if r.ctx.true(sparse) and not r.ctx.true(r.rd(1, "the used flag")):
                    return 0
                return add(r.rd(5, "a codeword length"), 1)
            lens = r.rep(n, length, "codeword lengths")
        lt_ = a["lookup"] = r.rd(4, "the lookup type")
        r.bad(ge(lt_, 3), "an unknown lookup type")
        if r.ctx.b(ge(lt_, 1)):
            a["min"] = r.rd("float", "the minimum value")
            a["delta"] = r.rd("float", "the delta value")
            a["bits"] = add(r.rd(4, "the value bits"), 1)
            a["seq"] = r.rd(1, "the sequence flag")
            cnt = app("lookup1", (n, dims), ("r", 0, (1 << 32) - 1)) if r.ctx.b(eq(lt_, 1)) else mul(n, dims)

            def value(r, j):
                return r.rd(a["bits"], "a codebook value")
            a["values"] = r.rep(cnt, value, "codebook values")
        if r.kind == "cont":
            self.learned(r, i, n, lens)
        return a

    def learned(self, r, i, n, lens):
        """the decoder of the codebook is made from its number and codeword lengths"""
        if len(r.side) != 1:
            raise Mismatch("codebook", "has %d decoders made for a codebook" % len(r.side))
        num, seq = r.side[0][2]
        self.rep.n("C06", "codebooks")
        f = r.ctx.facts
        if not same(num, i, f):
            self.rep.bad("C06", "codebook-number", "codebook %s is numbered %s" % (show(i)[:40], show(num)[:60]))
        if not same(slen(seq), n, f):
            self.rep.bad("C06", "codebook-entries", "the decoder of a codebook has %s entries" % show(slen(seq))[:80])
            return
        if not isinstance(lens, Arr):
            if not (seq is lens or seq == lens):
                self.rep.bad("C06", "codebook-lengths", "the ordered codeword lengths of a codebook are %s" % show(seq)[:120])
            return
        j = app("entry.j", (), ("r", 0, (1 << 32) - 1))
        g = f.assume(lt(j, n), 1)
        if g is None:
            return

        def cmp(ctx):
            want = lens.at(ctx, j)
            got = self.e.force(self.e.sel(seq, j, self.e.F.u8, St(ctx.facts)), St(ctx.facts))
            self.rep.n("C06", "lengths")
            if not same(got, want, ctx.facts) and split_same(got, want, ctx.facts) is not None:
                self.rep.bad("C06", "codebook-length", "the length of a codeword is taken as %s instead of %s" % (show(got)[:100], show(want)[:100]))
        runs(g, cmp, self.e, r.ctx.extras)

    def ordered(self, r, i, n):
        l0 = add(r.rd(5, "the first codeword length"), 1)
        x = r.peek()
        if x is None or x[0] != "loop":
            if r.ctx.b(eq(n, 0)):
                return Arr(None, None, 0, [])
            if x is None:
                exhausted(r, "the codeword runs")
            raise Mismatch("runs", "has no list of codeword runs")
        r.pos += 1
        node = x[1]
        L = add(l0, node.it)
        key = ("ordered", node, r.ctx.extras)
        got = self.memo.get(key)
        if got is None:
            got = self.memo[key] = self.ordered_loop(r, node, n, L)
        S, V, width = got
        k = {node.it: x[2]}
        Sk, Lk = subst(S, k), subst(L, k)
        if r.ctx.facts.decide(ge(Sk, n)) == 1:
            return subst(V, k)
        # it must have stopped because of an invalid run
        r.bad(ge(Lk, 33), "a codeword length above 32")
        if r.peek() is None:
            exhausted(r, "the number of codewords")
        cnt = r.rd(subst(width, k), "the number of codewords")
        r.bad(ge(add(Sk, cnt), add(n, 1)), "more codewords than entries")
        if r.peek() is None:
            exhausted(r, "the next run of codewords")
        raise Mismatch("runs", "has codeword runs that stop early")

    def ordered_loop(self, r, node, n, L):
        e = self.e
        res = None
        for i, its in enumerate(node.nexts):
            f = self.facts_in(node, i, r.ctx)
            if f is None:
                continue
            c = Read(self, its, Ctx2(f, e, r.ctx.extras), "cont")
            ev = [y for y in c.items if y[0] == "ev" and y[1] == "read"]
            if len(ev) != 1 or len(c.items) != 1:
                raise Mismatch("run", "has %d fields for a run of codewords" % len(c.items))
            cnt, width = ev[0][3], ev[0][2][0]
            S = None
            for v, (init, nx) in node.phis.items():
                if isinstance(v, T) and v.op == "app" and same(init, 0, f) and same(width, mk_bitlen(sub(n, v)), f):
                    S = v
                    if not same(nx[i], add(v, cnt), f):
                        raise Mismatch("run-next", "continues after a run of codewords at %s" % show(nx[i])[:100])
            if S is None:
                raise Mismatch("width:run", "has the number of codewords read with %s bits" % show(width)[:100])
            for cond, why in ((lt(S, n), "all entries having a length"), (lt(L, 33), "a codeword length above 32"),
                              (ge(n, add(S, cnt)), "more codewords than entries")):
                self.rep.n("C17", "conditions")
                if f.decide(cond) != 1:
                    raise Mismatch("accepts:" + why, "has a run of codewords read in spite of " + why)
            V = None
            for v, (init, nx) in node.phis.items():
                if isinstance(v, T) and v.op == "seqsym":
                    V = v
                    self.run_lengths(v, nx[i], S, cnt, L, n, f)
            if V is None:
                raise Mismatch("run-lengths", "does not keep the ordered codeword lengths")
            if res is not None and res != (S, V, width):
                raise E.Unsupported("two kinds of codeword runs")
            res = (S, V, width)
        if res is None:
            raise Mismatch("runs", "has no codeword runs")
        return res

    def run_lengths(self, v, nx, S, cnt, L, n, f):
        """elements [S, S + cnt) of the lengths become L, the others stay"""
        e = self.e
        j = app("entry.j", (), ("r", 0, (1 << 32) - 1))
        g = f.assume(lt(j, n), 1)
        if g is None:
            return
        if not same(slen(nx), n, g):
            raise Mismatch("run-lengths", "has %s ordered codeword lengths" % show(slen(nx))[:80])

        def cmp(ctx):
            inside = ctx.b(ge(j, S)) and ctx.b(lt(j, add(S, cnt)))
            want = L if inside else e.sel(v, j, e.F.u8, St(ctx.facts))
            got = e.force(e.sel(nx, j, e.F.u8, St(ctx.facts)), St(ctx.facts))
            self.rep.n("C06", "lengths")
            if not same(got, want, ctx.facts):
                self.rep.bad("C06", "run-length", "the length of a codeword of a run is taken as %s instead of %s" % (show(got)[:100], show(want)[:100]))
        runs(g, cmp, e, ())

    def floor(self, r, i):
        t = r.rd(16, "the floor type")
        r.bad(bnot(eq(t, 1)), "a floor type other than 1")
        n = r.rd(5, "the number of partitions")
        cls = r.rep(n, self.partition, "partition classes")
        nc = r.trip("floor classes")
        if nc is None:
            if r.peek() is None:
                exhausted(r, "the floor classes")
            nc = 0
        self.max_class(r, cls, n, nc)
        classes = r.rep(nc, self.floor_class, "floor classes")
        a = dict(partitions=n, cls=cls, nc=nc, classes=classes)
        a["mult"] = add(r.rd(2, "the floor multiplier"), 1)
        rb = a["bits"] = r.rd(4, "the range bits")

        def dims(ctx, p):
            return classes.at(ctx, cls.at(ctx, p))["dims"]

        def points(r, p):
            def point(r, q):
                v = r.rd(rb, "a floor point")
                lits = [y[1] for y in r.all if y[0] == "as" and isinstance(y[1], T) and y[1].op == "app" and y[1].a[0] == "notin" and y[1].a[1][0] is v]
                if not lits:
                    raise Mismatch("accepts:point", "is accepted with a repeated floor point")
                self.before(r, lits[0].a[1][1], v, p, q, n, dims)
                r.bad(bnot(lits[0]), "a repeated floor point")
                return v
            point.ctxdep = ("point", p)
            return r.rep(dims(r.ctx, p), point, "points of a partition")
        points.ctxdep = "points"
        xs = a["xs"] = r.rep(n, points, "floor points")
        if xs.it is not None:
            a["flat"] = self.flatten(r, xs, dims)
            r.bad(ge(slen(a["flat"]), 66), "more than 65 floor points")
        return a

    def partition(self, r, i):
        return r.rd(4, "a partition class")

    def max_class(self, r, cls, n, nc):
        """nc is one more than the biggest class"""
        f = r.ctx.facts
        if cls.it is None or f.decide(eq(n, 0)) == 1:
            if same(nc, 0, f):
                return
            raise Mismatch("classes", "has %s floor classes without partitions" % show(nc)[:80])
        hit = []
        for node in [cls.node] + [x[1] for x in r.all if x[0] == "loop" and x[3] and x[1] is not cls.node and same(x[1].trip, n, f)]:
            at = {node.it: n}
            hit += [(v, i, nx) for v, (i, nx) in node.phis.items() if isinstance(v, T) and E.contains(nc, subst(v, at))]
            if hit:
                break
        self.rep.n("C17", "class_counts")
        if len(hit) != 1:
            raise Mismatch("classes", "has %s floor classes" % show(nc)[:100])
        v, init, nexts = hit[0]
        h = lambda x: subst(nc, {subst(v, at): x})
        if not same(h(init), 0, f) and f.decide(ge(n, 1)) != 1:
            raise Mismatch("classes", "has %s floor classes for no partitions" % show(h(init))[:80])
        if rng(h(init), f)[1] > 1:
            raise Mismatch("classes", "has at least %s floor classes" % show(h(init))[:80])
        for i, nx in enumerate(nexts):
            fx = self.facts_in(node, i, r.ctx)
            if fx is None:
                continue
            if node is cls.node:
                ev = [y for y in node.nexts[i] if y[0] == "ev" and y[1] == "read"]
                c = ev[0][3] if ev else None
            else:
                c = cls.at(Ctx2(fx, self.e, ()), node.it)
            w = split_same(h(nx), tmax((h(v), add(c, 1))), fx) if c is not None else fx
            if w is not None:
                raise Mismatch("classes", "has %s floor classes after a partition of class %s" % (show(h(nx))[:100], show(c)[:40]))

    def floor_class(self, r, i):
        a = dict(dims=add(r.rd(3, "the class dimensions"), 1))
        s = a["sub"] = r.rd(2, "the subclass bits")
        a["master"] = None
        if r.ctx.b(ge(s, 1)):
            a["master"] = r.rd(8, "the masterbook")
            r.bad(ge(a["master"], self.ncb), "a floor whose codebook does not exist")
        a["books"] = r.rep(pow2(s), self.subclass_book, "subclass books")
        return a

    def subclass_book(self, r, i):
        b = r.rd(8, "a subclass book")
        r.bad(ge(b, add(self.ncb, 1)), "a floor whose codebook does not exist")
        return b

    def flatten(self, r, xs, dims):
        """the points as one sequence"""
        p = xs.bv

        def one(ctx):
            row = xs.at(ctx, p)
            return mk("flat", p, xs.n, mk("lam", row.bv, row.n, row.at(ctx, row.bv)))
        f = r.ctx.facts.assume(ge(p, 0), 1)
        f = f.assume(lt(p, xs.n), 1) if f is not None else None
        rs = [x for _, _, x in runs(f, one, self.e, ())] if f is not None else []
        if not rs or any(x != rs[0] for x in rs):
            raise E.Unsupported("floor points depend on something else")
        return rs[0]

    def before(self, r, s, v, p, q, n, dims):
        """s are the points read before point q of partition p, which is v"""
        ps = s.a[0] if s.op == "cat" else (s,)
        f = r.ctx.facts
        self.rep.n("C17", "points")
        ok = 0
        for x in ps:
            if x.op == "flat" and same(x.a[1], p, f) and x.a[2].op == "lam":
                bv, _, l = x.a
                m = lambda t: subst(subst(t, {q: l.a[0]}), {p: bv})
                if m(v) is l.a[2]:
                    ok |= 1
            elif x.op == "lam" and same(x.a[1], q, f) and subst(v, {q: x.a[0]}) is x.a[2]:
                ok |= 2
        if len(ps) != 2 or ok != 3:
            raise Mismatch("points", "has a floor point compared with %s instead of those before it" % show(s)[:160])

    def residue(self, r, i):
        a = {}
        t = a["type"] = r.rd(16, "the residue type")
        r.bad(ge(t, 3), "an unknown residue type")
        a["begin"] = r.rd(24, "the residue begin")
        a["end"] = r.rd(24, "the residue end")
        a["psize"] = r.rd(24, "the partition size")
        nc = add(r.rd(6, "the number of classifications"), 1)
        b = a["classbook"] = r.rd(8, "the classbook")
        a["nc"] = nc
        no = ge(b, self.ncb)
        r.bad(no, "a residue whose classbook does not exist")
        if r.ctx.facts.decide(no) != 1:
            cb = self.cbs.at(r.ctx, b)
            r.bad(lt(cb["n"], app("satpow:u32", (nc, cb["dims"]), ("r", 0, (1 << 32) - 1))), "a classbook with too few entries")

        def cascade(r, i):
            lo = r.rd(3, "the low cascade bits")
            hi = 0
            if r.ctx.true(r.rd(1, "the cascade flag")):
                hi = r.rd(5, "the high cascade bits")
            return add(lo, scale(hi, 8))
        a["cascade"] = casc = r.rep(nc, cascade, "cascades")

        def books(r, c):
            x = casc.at(r.ctx, c)

            def book(r, j):
                if bit(r.ctx, x, j):
                    b = r.rd(8, "a residue book")
                    r.bad(ge(b, self.ncb), "a residue whose codebook does not exist")
                    return b
                return None
            book.ctxdep = ("book", x)
            return r.rep(8, book, "residue books")
        a["books"] = r.rep(nc, books, "residue classes")
        return a

    def mapping(self, r, i):
        a = {}
        t = r.rd(16, "the mapping type")
        r.bad(ge(t, 1), "a mapping type other than 0")
        nsub = 1
        if r.ctx.true(r.rd(1, "the submaps flag")):
            nsub = add(r.rd(4, "the number of submaps"), 1)
        a["nsub"] = nsub
        a["steps"], a["coupling"] = 0, None
        if r.ctx.true(r.rd(1, "the coupling flag")):
            steps = a["steps"] = add(r.rd(8, "the number of coupling steps"), 1)
            w = mk_bitlen(sub(self.nch, 1)) if r.ctx.b(ge(self.nch, 2)) else 0

            def step(r, j):
                m = r.rd(w, "the magnitude channel")
                an = r.rd(w, "the angle channel")
                r.bad(eq(m, an) if isinstance(m, T) or isinstance(an, T) else int(m == an), "a channel coupled with itself")
                r.bad(ge(m, self.nch), "a channel that does not exist")
                r.bad(ge(an, self.nch), "a channel that does not exist")
                return (m, an)
            a["coupling"] = r.rep(steps, step, "coupling steps")
        r.rd(2, "the reserved field")
        a["mux"] = None
        if r.ctx.b(ge(nsub, 2)) if isinstance(nsub, T) else nsub >= 2:
            def mux(r, j):
                m = r.rd(4, "the submap of a channel")
                r.bad(ge(m, nsub), "a channel whose submap does not exist")
                return m
            a["mux"] = r.rep(self.nch, mux, "channel submaps")

        def submap(r, j):
            r.rd(8, "the time configuration")
            fl = r.rd(8, "the floor of a submap")
            r.bad(ge(fl, self.nf), "a submap whose floor does not exist")
            rs = r.rd(8, "the residue of a submap")
            r.bad(ge(rs, self.nr), "a submap whose residue does not exist")
            return (fl, rs)
        a["submaps"] = r.rep(nsub, submap, "submaps")
        return a


def w_elem(e, seq, j, f):
    return e.force(e.sel(seq, j, e.F.u8, St(f)), St(f))


def mk_bitlen(t):
    return mk("bitlen", t, 32) if isinstance(t, T) else max(t, 0).bit_length()


def bit(ctx, x, j):
    """bit j of x, however the code asks for it"""
    q = rem(div(x, pow2(j)), 2) if isinstance(j, T) or isinstance(x, T) else x >> j & 1
    if isinstance(q, int):
        return bool(q)
    for c in (ge(q, 1), eq(q, 1), ge(mul(pow2(j), q), 1)):
        d = ctx.facts.decide(c)
        if d is not None:
            return bool(d)
    raise Split(ge(q, 1))


# ---------------------------------------------------------------- the analysis of a setup header
STRUCT = ("C01", "C17")


def setup_paths(R):
    """-> (state before, packet, paths of the analysis of the setup header)"""
    st, V = R.after_comments()
    pk = R.arg("root_analyze", 1, "setup")
    pre = len(st.items())
    return st, V, pk, pre, R.on("root_analyze", st, V, pk)


def check_parse(R, rep):
    """-> [(path state, Ast alternatives)] of the accepted setup headers"""
    import optim
    e = R.eng
    st, V, pk, pre, outs = setup_paths(R)
    good = []
    P = None
    for o in outs:
        rep.n("C17", "paths")
        if o[0] != "ret":
            rep.bad("C17", "panic", "reading a setup header panics")
            continue
        s, v = o[1], e.force(o[2], o[1])
        if P is None:
            seq = R.seq(pk, s)
            idseq = R.seq(R.id, s)
            byte = lambda q, i: e.sel(q, i, e.F.u8, St(s.facts))
            P = Parse(R, rep, byte(idseq, 11), byte(seq, 7), seq)
        items = s.items()[pre:]
        kind = "err" if optim.is_err(v) else "ok"
        hd = [i for i, x in enumerate(items) if x[0] == "ev" and x[1] == "reader"]

        def run(ctx):
            n = slen(seq)
            ok = ctx.b(ge(n, 8)) and ctx.b(E.eq(byte(seq, 0), 5)) and all(ctx.b(E.eq(byte(seq, 1 + i), c)) for i, c in enumerate(optim.VORBIS))
            if not ok:
                if kind == "ok":
                    raise Mismatch("prefix", "is accepted without its type, signature and codebook count")
                return None
            if not hd:
                raise Mismatch("start", "is not read")
            src = items[hd[0]][2][0]
            if len(hd) != 1 or not (isinstance(src, T) and same_source(e, ctx.facts, src, seq)):
                raise Mismatch("start", "is read from %s" % show(src)[:80])
            r = Read(P, items[hd[0]:], ctx, kind)
            a = P.packet(r)
            if r.peek() is not None:
                raise Mismatch("more", "has more fields than it should")
            verdict(r)
            if kind == "err":
                raise Mismatch("rejects:valid", "is rejected although it is valid")
            return a
        try:
            for ex, c, a in runs(s.facts, run, e):
                if a is not None:
                    good.append((s, ex, c, a))
        except Mismatch as m:
            structural = m.key.split(":")[0] not in ("accepts", "rejects", "prefix", "eof")
            for p in (STRUCT + ("C06",) * codeword(m.key) if structural else ("C17",)):
                rep.bad(p, m.key, "a setup header %s" % m.text)
    return P, good, pk


def codeword(key):
    """whether a difference is about the codeword lengths of a codebook"""
    return key in ("w-dense", "w-ordered", "w-lengths") or any(w in key for w in ("codeword", "used flag", "sparse", "ordered", "run"))


def same_source(e, f, a, b):
    """a is b from its 8th byte on"""
    return a is E.ssub(b, 8, sub(slen(b), 8)) or (a.op == "sub" and a.a[0] is b and same(a.a[1], 8, f) and same(slen(a), sub(slen(b), 8), f))


def check_write(R, rep, P, good, pk):
    """the rewritten setup header of every accepted one"""
    import optim
    e = R.eng
    for s0, ex0, ctx0, a in good:
        cur = []
        st = s0.clone()
        st.facts = ctx0.facts
        cur.append((st, st.mem[optim.H]))
        for p in (R.id, R.comment):
            nxt = []
            for st, V in cur:
                st = st.clone()
                st.occ = {}
                for o in R.on("root_optimize_slice", st, V, p):
                    if o[0] == "ret" and optim.is_ok(e.force(o[2], o[1])):
                        nxt.append((o[1], o[1].mem[optim.H]))
            # they differ only in what was written of the comments
            cur = distinct(e, nxt)
        for st, V in cur:
            st = st.clone()
            st.occ = {}
            pre = len(st.items())
            for o in R.on("root_optimize_slice", st, V, pk):
                rep.n("C01", "outcomes")
                if o[0] != "ret":
                    rep.bad("C01", "w-panic", "rewriting a setup header panics")
                    continue
                s, v = o[1], e.force(o[2], o[1])
                if optim.is_err(v):
                    rep.bad("C01", "w-error", "the setup header is analysed but cannot be rewritten")
                    continue
                items = s.items()[pre:]
                try:
                    check_written(R, rep, P, s, v, items, a, ex0)
                except Mismatch as m:
                    rep.bad("C06" if codeword(m.key) else "C01", m.key, "the rewritten setup header %s" % m.text)


def distinct(e, outs):
    seen, out = [], []
    for st, V in outs:
        v = e.force(V, st)
        if not any(same(v, u, st.facts) for u in seen):
            seen.append(v)
            out.append((st, V))
    return out


def check_written(R, rep, P, s, v, items, a, ex0):
    import optim
    e = R.eng
    wr = [i for i, x in enumerate(items) if x[0] == "ev" and x[1] == "writer"]
    fin = [i for i, x in enumerate(items) if x[0] == "ev" and x[1] == "finalised"]
    if len(wr) != 1 or len(fin) != 1 or fin[0] < wr[0]:
        raise Mismatch("w-start", "is not packed once")

    def run(ctx):
        head = optim.pieces(items[wr[0]][2][0])
        want = [("b", x) for x in (5,) + optim.VORBIS] + [("b", sub(P.ncb, 1))]
        d = optim.match_pieces(e, ctx.facts, head, want)
        if d:
            raise Mismatch("w-prefix", "starts wrongly: it %s" % d)
        pay = optim.payload(e, St2(s, ctx.facts), v)
        if pay is None:
            raise Mismatch("w-none", "is left out")
        d = optim.match_pieces(e, ctx.facts, optim.pieces(pay[0]), want + [("s", mk("seqsym", "packed", (), e.F.u8, app("packed.len", (), ("r", 0, LEN_MAX))))])
        if d:
            raise Mismatch("w-packet", "is not what was packed: it %s" % d)
        if pay[1] is not None:
            raise Mismatch("w-size", "has a block size")
        w = Write(P, items[wr[0]:fin[0]], ctx, "ok")
        P.write_packet(w, a)
        if w.peek() is not None:
            raise Mismatch("w-more", "has more fields than it should")
        if any(x[0] == "ev" and x[1] == "write" for x in items[:wr[0]] + items[fin[0]:]):
            raise Mismatch("w-more", "has fields written at another time")
    runs(s.facts, run, e, ex0)


def St2(s, facts):
    t = s.clone()
    t.facts = facts
    return t


# ---------------------------------------------------------------- the number of values of lookup type 1
def check_lookup1(F, rep):
    """lookup1_values(n, d) is the greatest r with r ** d <= n"""
    fs = F.find(r"::lookup1_values$")
    if len(fs) != 1:
        raise E.Unsupported("lookup1_values")
    e = E.Engine(F, [], {})
    L = fs[0]["body"]["locals"]
    n, d = [e.fresh(x, (), L[i + 1]) for i, x in enumerate(("entries", "dims"))]

    def fits(f, t):
        """is t ** d <= n known"""
        if isinstance(t, int) and t == 0 and f.decide(ge(d, 1)) == 1:
            return True
        t = renorm(t, f) if isinstance(t, T) else t
        if isinstance(t, int) and t == 0:
            return True
        for ty in ("u64", "u128", "i64", "i128"):
            hi = INT_RANGE[ty]
            p = app("pow:" + ty, (t, d), ("r",) + hi)
            k = f.decide(app("powfits:" + ty, (t, d), ("r", 0, 1)))
            if k == 0:
                return False
            if k == 1:
                r = f.decide(ge(n, p))
                if r is not None:
                    return bool(r)
            r = f.decide(ge(n, app("satpow:" + ty, (t, d), ("r",) + hi)))
            if r is not None:
                return bool(r)
        return None

    def holds(items, facts, v, depth=0):
        if fits(facts, v):
            return True
        if depth > 3:
            return False
        for x in items:
            if x[0] != "loop":
                continue
            node = x[1]
            for w, (init, nexts) in node.phis.items():
                if not isinstance(w, T) or v is not subst(w, {node.it: x[2]}):
                    continue
                if not holds(items, facts, init, depth + 1):
                    continue
                ok_ = True
                for i, nx in enumerate(nexts):
                    f = node.nstates[i].facts if node.nstates else facts
                    for y in node.nexts[i]:
                        if y[0] == "as" and f is not None:
                            f = f.assume(y[1], y[2])
                    if f is not None and nx is not w and not fits(f, nx):
                        ok_ = False
                if ok_:
                    return True
        return False
    for o in e.call_fn(e.initial(), fs[0], [n, d]):
        if o[0] != "ret":
            for p in STRUCT:
                rep.bad(p, "lookup1-panic", "the number of values of a lookup table may panic")
            continue
        st = o[1]

        def run(ctx):
            v = e.force(o[2], St(ctx.facts))
            for p in STRUCT:
                rep.n(p, "lookup1_outcomes")
            if ctx.b(eq(d, 0)):
                if not same(v, (1 << 32) - 1, ctx.facts):
                    raise Mismatch("lookup1-dims", "is %s without dimensions" % show(v)[:100])
                return
            if not holds(st.items(), ctx.facts, v):
                raise Mismatch("lookup1-big", "may be too big: %s" % show(v)[:100])
            up = [add(v, 1), rem(add(v, 1), 1 << 32)]
            if not any(fits(ctx.facts, u) is False for u in up):
                raise Mismatch("lookup1-small", "may be too small: %s" % show(v)[:100])
        try:
            runs(st.facts, run, e)
        except Mismatch as m:
            for p in STRUCT:
                rep.bad(p, m.key, "the number of values of a lookup table " + m.text)
    return e.analysed
