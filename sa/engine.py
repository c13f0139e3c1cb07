"""Path-partitioned abstract interpretation of monomorphised MIR.

State = (memory of value terms, facts, event trace).  Branches partition the trace,
loops are taken to a fixpoint (modified locations become loop-indexed values, affine
and append/store recurrences get their closed form) and become one Loop item holding
the paths of one arbitrary iteration.  Nothing is executed; calls to the outside are
events (hooks), models or opaque.
"""
import re
from terms import *
import terms as TM

sys_rec = __import__("sys")
sys_rec.setrecursionlimit(20000)


class Dead(Exception):
    """a value none of whose cases is possible: the path is infeasible"""


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Loop:
    """One loop: paths of an arbitrary iteration `it` in [0, trip)."""
    __slots__ = ("uid", "it", "trip", "nexts", "exits", "phis", "where", "exact", "bv", "nstates", "estates")

    def __repr__(self):
        return f"Loop({self.where},trip={self.trip})"


class Join:
    """ways that end in the same kind of failure, treated as one from here on"""
    __slots__ = ("alts",)


class State:
    __slots__ = ("mem", "facts", "trace", "binders", "occ", "user")

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.trace = self.trace
        s.binders = self.binders
        s.occ = dict(self.occ)
        s.user = self.user
        return s

    def emit(self, item):
        self.trace = (self.trace, item)

    def assume(self, t, val=True):
        """False when contradictory"""
        d = self.facts.decide(t)
        if d is not None:
            return d == int(bool(val))
        f = self.facts.assume(t, val)
        if f is None:
            return False
        self.facts = f
        val = int(bool(val))
        while isinstance(t, T) and t.op == "lin" and t.a[0] == 1 and len(t.a[1]) == 1 and t.a[1][0][1] == -1:
            t = t.a[1][0][0]
            val = 1 - val
        self.trace = (self.trace, ("as", t, val))
        return True

    def items(self):
        return unroll(self.trace)


def unroll(tr):
    r = []
    while tr is not None:
        tr, x = tr
        r.append(x)
    r.reverse()
    return r


# ------------------------------------------------------------------ sequences
def cat(parts_):
    fl = []
    for p in parts_:
        if p.op == "cat":
            fl.extend(p.a[0])
        else:
            fl.append(p)
    out = []
    for p in fl:
        if p.op == "arr" and not p.a[0]:
            continue
        if p.op == "rep" and p.a[1] == 0 or p.op == "lam" and p.a[1] == 0:
            continue
        if out and out[-1].op == "arr" and p.op == "arr":
            out[-1] = mk("arr", out[-1].a[0] + p.a[0])
        else:
            out.append(p)
    if not out:
        return mk("arr", ())
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


EMPTY = mk("arr", ())


def slen(s):
    op, a = s.op, s.a
    if op == "arr":
        return len(a[0])
    if op == "str":
        return len(a[0].encode())
    if op == "rep":
        return a[1]
    if op == "lam":
        return a[1]
    if op == "seqsym":
        return a[3]
    if op == "cat":
        return add(*[slen(x) for x in a[0]])
    if op in ("store", "lamst"):
        return slen(a[0])
    if op == "sub":
        return a[2]
    if op == "map":
        return slen(a[1])
    if op == "rev":
        return slen(a[0])
    if op == "ite":
        l1, l2 = slen(a[1]), slen(a[2])
        return l1 if l1 == l2 else ite(a[0], l1, l2)
    return mk("len", s)


def ite(c, x, y):
    if isinstance(c, int):
        return x if c else y
    if x == y:
        return x
    return mk("ite", c, x, y)


def ssub(s, off, n, facts=None):
    if off == 0 and n == slen(s):
        return s
    if s.op == "sub":
        return ssub(s.a[0], add(s.a[1], off), n, facts)
    if s.op == "rep":
        return mk("rep", s.a[0], n)
    if s.op == "str":
        s = mk("arr", tuple(s.a[0].encode()))
    if s.op == "arr" and isinstance(off, int) and isinstance(n, int) and off + n <= len(s.a[0]):
        return mk("arr", s.a[0][off:off + n])
    if n == 0:
        return EMPTY
    return mk("sub", s, off, n)


def store(s, i, x):
    if s.op == "arr" and isinstance(i, int) and 0 <= i < len(s.a[0]):
        l = list(s.a[0])
        l[i] = x
        return mk("arr", tuple(l))
    if s.op == "rep" and isinstance(i, int) and isinstance(s.a[1], int) and s.a[1] <= 64 and 0 <= i < s.a[1]:
        l = [s.a[0]] * s.a[1]
        l[i] = x
        return mk("arr", tuple(l))
    if s.op == "store" and s.a[1] == i:
        return mk("store", s.a[0], i, x)
    if s.op == "cat":
        off = i
        for k, p in enumerate(s.a[0]):
            if p.op == "arr" and isinstance(off, int) and 0 <= off < len(p.a[0]):
                return cat(s.a[0][:k] + (store(p, off, x),) + s.a[0][k + 1:])
            off = sub(off, slen(p))
    return mk("store", s, i, x)


# ------------------------------------------------------------------ substitution
def subst(t, m, cache=None):
    """replace terms by terms (simultaneously), rebuilding normal forms"""
    if cache is None:
        cache = {}
    return _subst(t, m, cache)


def _subst(t, m, c):
    if isinstance(t, (int, str)) or t is None:
        return t
    if isinstance(t, tuple):
        return tuple(_subst(x, m, c) for x in t)
    if not isinstance(t, T):
        return t
    mask = c.get(0)
    if mask is None:
        # a term without any of the names that are replaced stays as it is
        mask = 0
        for k in m:
            mask |= 1 << (k.id & 511) if isinstance(k, T) and k.op in ("app", "sym", "seqsym") else -1
        c[0] = mask
    if not t.bl & mask:
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = c.get(t)
    if r is not None:
        return r
    r = _subst1(t, m, c)
    c[t] = r
    return r


def _subst1(t, m, c):
    op, a = t.op, t.a
    if op == "app":
        n = tuple(_subst(x, m, c) for x in a[1])
        if n == a[1]:
            return t
        return mk("app", a[0], n, a[2])
    if op == "lin":
        r = a[0]
        ch = False
        ps = [r]
        for at, k in a[1]:
            x = _subst(at, m, c)
            ch |= x is not at
            ps.append(scale(x, k))
        return add(*ps) if ch else t
    n = tuple(_subst(x, m, c) for x in a)
    if n == a:
        return t
    return rebuild(op, n)


def rebuild(op, n):
    if op == "mono":
        r = 1
        for x in n[0]:
            r = mul(r, x)
        return r
    if op == "mulop":
        return mul(*n)
    if op == "ge":
        return ge(n[0], n[1])
    if op == "eq":
        return eq(n[0], n[1])
    if op == "rem":
        return rem(*n)
    if op == "div":
        return div(*n)
    if op == "fdiv":
        return shr("i64", n[0], n[1].bit_length() - 1) if isinstance(n[1], int) else mk(op, *n)
    if op == "wrap":
        return wrap(*n)
    if op == "pow2":
        return pow2(*n)
    if op == "max":
        return tmax(n[0])
    if op == "min":
        return tmin(n[0])
    if op == "ite":
        return ite(*n)
    if op == "bits":
        if n[1] == "or":
            return bor(n[0], n[2], n[3])
        if n[1] == "and":
            return band(n[0], n[2], n[3])
        if n[1] == "xor":
            return bxor(n[0], n[2], n[3])
    if op == "cat":
        return cat(n[0])
    if op == "sub":
        return ssub(*n)
    if op == "store":
        return store(*n)
    if op == "len":
        return slen(n[0])
    if op == "sel":
        return ssel_basic(n[0], n[1], n[2])
    return mk(op, *n)


_contains = {}


def contains(t, x):
    if t is x:
        return True
    if isinstance(t, tuple):
        return any(contains(y, x) for y in t)
    if not isinstance(t, T):
        return False
    k = (t, x)
    r = _contains.get(k)
    if r is None:
        r = any(contains(y, x) for y in t.a)
        _contains[k] = r
    return r


def ssel_basic(s, i, ety):
    return mk("sel", s, i, ety)


# ------------------------------------------------------------------ references
def ref(obj, path=()):
    return mk("ref", obj, path)


def agg(tag, variant, fields):
    return mk("agg", tag, variant, tuple(fields))


UNIT = agg("()", 0, ())


def tup(*f):
    return agg("()", 0, f)


def some(x):
    return agg("Option", 1, (x,))


NONE = agg("Option", 0, ())


def ok(x):
    return agg("Result", 0, (x,))


def err(x):
    return agg("Result", 1, (x,))


# ------------------------------------------------------------------ CFG
def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [] if t[5] is None else [t[5]]
    if k == "assert":
        return [t[4]]
    return []


def live_at(body):
    """block -> the locals whose value may still matter at its start"""
    r = body.get("_live")
    if r:
        return r
    bl = body["blocks"]
    always = {0}

    def uses(x, acc):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                acc.add(x[0])
            if len(x) == 2 and x[0] == "i" and isinstance(x[1], int):
                acc.add(x[1])
            for y in x:
                uses(y, acc)
        elif isinstance(x, dict):
            for y in x.values():
                uses(y, acc)
    steps = []
    for B in bl:
        l = []
        for s in B["s"]:
            u, d = set(), None
            if s[0] == "=":
                uses(s[2], u)
                if s[1][1]:
                    uses(s[1], u)
                else:
                    d = s[1][0]
                if s[2][0] in ("ref", "rawptr", "addr"):
                    always |= u
            else:
                uses(s, u)
            l.append((u, d))
        t, u, d = B["t"], set(), None
        if t[0] == "call":
            uses(t[1:4], u)
            if t[4][1]:
                uses(t[4], u)
            else:
                d = t[4][0]
        else:
            uses(t, u)
        l.append((u, d))
        steps.append(l)
    live = [set(always) for _ in bl]
    su = [succs(B["t"]) for B in bl]
    ch = True
    while ch:
        ch = False
        for b in range(len(bl) - 1, -1, -1):
            x = set(always)
            for n in su[b]:
                if n is not None:
                    x |= live[n]
            for u, d in reversed(steps[b]):
                if d is not None and d not in always:
                    x.discard(d)
                x |= u
            if x != live[b]:
                live[b] = x
                ch = True
    body["_live"] = live
    return live


def cfg_of(body):
    c = body.get("_cfg")
    if c:
        return c
    bl = body["blocks"]
    n = len(bl)
    su = [succs(b["t"]) for b in bl]
    # reverse post order
    seen = [0] * n
    post = []
    stack = [(0, iter(su[0]))]
    seen[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if not seen[s]:
                seen[s] = 1
                stack.append((s, iter(su[s])))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in su[b]:
            pred[s].append(b)
    dom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            d = None
            for p in pred[b]:
                if p in dom:
                    if d is None:
                        d = p
                    else:
                        x, y = d, p
                        while x != y:
                            while num[x] > num[y]:
                                x = dom[x]
                            while num[y] > num[x]:
                                y = dom[y]
                        d = x
            if dom.get(b) != d:
                dom[b] = d
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = dom[b]

    loops = {}
    for b in rpo:
        for s in su[b]:
            if dominates(s, b):
                body_ = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body_:
                        body_.add(x)
                        st.extend(pred[x])
    c = {"su": su, "loops": loops, "rpo": rpo, "dom": dom, "pred": pred, "dominates": dominates, "num": num}
    body["_cfg"] = c
    return c


class Frame:
    __slots__ = ("fid", "fn", "body", "depth", "tys", "chain")


class Call:
    __slots__ = ("fn", "name", "defn", "args", "aty", "dty", "frame", "bb", "span", "fty")


class Engine:
    def __init__(self, facts, hooks=(), opts=None):
        self.F = facts
        self.ty = facts.tys
        self.fns = facts.fns
        self.hooks = [(re.compile(p), f) for p, f in hooks]
        import models
        self.models = models.MODELS
        self._mcache = {}
        self.opts = {"max_paths": 60000, "unroll": 0, "range_unroll": 0, "join": False, "panics": False, "max_depth": 80}
        self.opts.update(opts or {})
        self.fids = {}
        self.plans = {}
        self.ptype = {}
        self.objty = {}
        self.steps = 0
        self.budget = self.opts.get("budget", 3_000_000)
        self.analysed = set()
        self.opaque = {}
        self.callsites = 0
        self.loops_seen = {}
        self.stats_paths = 0
        self.notes = {}

    # ---------------- types
    def T(self, i):
        return self.ty[i]

    def kind(self, i):
        return self.ty[i]["k"]

    def is_adt(self, i, name, crate=None):
        t = self.ty[i]
        return t["k"] == "adt" and t["n"] == name and (crate is None or t["c"] == crate)

    def int_ty(self, i):
        t = self.ty[i]
        if t["k"] == "int":
            return t["n"]
        if t["k"] == "bool":
            return "bool"
        if t["k"] == "char":
            return "char"
        if t["k"] == "adt" and t["n"] == "NonZero":
            return self.int_ty(t["a"][0])
        return None

    def adt_arg(self, i, k=0):
        return self.ty[i]["a"][k]

    def pointee(self, i):
        t = self.ty[i]
        if t["k"] in ("ref", "ptr"):
            return t["t"]
        if t["k"] == "adt" and t["n"] == "Box":
            return t["a"][0]
        return None

    def elem_ty(self, i):
        t = self.ty[i]
        if t["k"] in ("slice", "array"):
            return t["t"]
        if t["k"] == "str":
            return self.F.u8
        if t["k"] == "adt" and t["n"] in ("Vec", "VecDeque", "IndexSet"):
            return t["a"][0]
        if t["k"] == "adt" and t["n"] == "String":
            return self.F.u8
        if t["k"] == "adt" and t["n"] == "TinyVec":
            return self.elem_ty(t["a"][0])
        return None

    # ---------------- fresh values
    def fresh(self, name, args, ti, depth=0):
        t = self.ty[ti]
        k = t["k"]
        if k in ("int", "bool", "char"):
            lo, hi = INT_RANGE[self.int_ty(ti)]
            return app(name, args, ("r", lo, hi))
        if k in ("ref", "ptr"):
            b = app(name + "*", args, ("ty", ti))
            self.ptype[b.a[0]] = t["t"]
            return ref(("P", b))
        if k in ("tuple", "closure"):
            tag = "()" if k == "tuple" else "closure:%d" % ti
            return agg(tag, 0, [self.fresh(f"{name}.{i}", args, f, depth + 1) for i, f in enumerate(t["f"])])
        if k == "array":
            return mk("seqsym", name, tuple(args), t["t"], t["l"])
        if k in ("slice", "str"):
            e = self.elem_ty(ti)
            return mk("seqsym", name, tuple(args), e, app(name + ".len", args, ("r", 0, LEN_MAX)))
        if k == "fndef":
            return agg("fndef:%d" % ti, 0, ())
        if k == "adt":
            n = t["n"]
            if n in ("Vec", "String", "TinyVec", "IndexSet"):
                e = self.elem_ty(ti)
                return mk("seqsym", name, tuple(args), e, app(name + ".len", args, ("r", 0, LEN_MAX)))
            if n == "NonZero":
                lo, hi = INT_RANGE[self.int_ty(ti)]
                return app(name, args, ("r", max(lo, 1), hi))
            if n == "Box":
                return agg("Box", 0, (self.fresh(name + ".box", args, t["a"][0], depth + 1),))
            if n in ("Cell", "RefCell"):
                return agg(n, 0, (self.fresh(name + ".cell", args, t["a"][0], depth + 1),))
            if t["kind"] == "struct" and (t["c"] in self.F.ws or n in ("Range", "RangeInclusive", "Wrapping", "Reverse")) and depth < 8 and t["v"]:
                return agg(n, 0, [self.fresh(f"{name}.{fn}", args, ft, depth + 1) for fn, ft in t["v"][0]["f"]])
        return app(name, args, ("ty", ti))

    def proj(self, t, v, i, fty):
        """field i of variant v of an opaque value"""
        if t.op == "app":
            return self.fresh(f"{t.a[0]}.{v}.{i}" if isinstance(t.a[0], str) else f"{t.a[0]}.{v}.{i}", t.a[1], fty)
        return self.fresh(f"proj.{v}.{i}", (t,), fty)

    # ---------------- sequences
    def sel(self, s, i, ety, st):
        """element i of sequence term s"""
        facts = st.facts
        op, a = s.op, s.a
        if op == "arr":
            if isinstance(i, int):
                if 0 <= i < len(a[0]):
                    return a[0][i]
                return app("oob", (s, i), ("ty", ety))
            vs = set(a[0])
            if len(vs) == 1:
                return a[0][0]
            l, h = rng(i, facts)
            if h - l <= 8 and 0 <= l and h < len(a[0]):
                for v in range(l, h):
                    raise NeedFork(eq(i, v))
        if op == "str":
            return self.sel(mk("arr", tuple(a[0].encode())), i, ety, st)
        if op == "rep":
            return a[0]
        if op == "seqsym":
            return self.fresh(a[0] + "[]", a[1] + (i,), a[2] if a[2] is not None else ety)
        if op == "lam":
            r = _sels.get((s, i))
            if r is None:
                r = _sels[(s, i)] = subst(a[2], {a[0]: i})
            return r
        if op == "map":
            return subst(a[2], {a[0]: self.sel(a[1], i, ety, st)})
        if op == "rev":
            return self.sel(a[0], sub(add(slen(a[0]), -1), i), ety, st)
        if op == "sub":
            return self.sel(a[0], add(a[1], i), ety, st)
        if op == "store":
            c = eq(a[1], i)
            d = facts.decide(c)
            if d is None:
                raise NeedFork(c)
            return a[2] if d else self.sel(a[0], i, ety, st)
        if op == "lamst":
            s0, lo, bv, n, body = a
            k = sub(i, lo)
            for c in (ge0(k), lt(k, n)):
                d = facts.decide(c)
                if d is None:
                    raise NeedFork(c)
                if not d:
                    return self.sel(s0, i, ety, st)
            return subst(body, {bv: k})
        if op == "cat":
            off = i
            for p in a[0][:-1]:
                n = slen(p)
                c = lt(off, n)
                d = facts.decide(c)
                if d is None:
                    raise NeedFork(c)
                if d:
                    return self.sel(p, off, ety, st)
                off = sub(off, n)
            return self.sel(a[0][-1], off, ety, st)
        if op == "ite":
            return self.sel(self.force(s, st), i, ety, st)
        if op == "cases":
            return self.sel(self.force(s, st), i, ety, st)
        if ety is None:
            ety = self.F.u8
        return self.fresh("elem", (s, i), ety)

    def force(self, t, st):
        """resolve a top-level gated value under the facts, or ask for a fork"""
        while isinstance(t, T):
            if t.op == "ite":
                d = st.facts.decide(t.a[0])
                if d is None:
                    raise NeedFork(t.a[0])
                t = t.a[1] if d else t.a[2]
            elif t.op == "cases":
                live = []
                for lits, v in t.a[0]:
                    und = None
                    dead = False
                    for c, val in lits:
                        d = st.facts.decide(c)
                        if d is None:
                            und = und if und is not None else c
                        elif d != val:
                            dead = True
                            break
                    if not dead:
                        live.append((und, v))
                if not live:
                    raise Dead()
                if len({v for _, v in live}) == 1:
                    t = live[0][1]
                    continue
                for und, v in live:
                    if und is not None:
                        raise NeedFork(und)
                t = live[0][1]
            else:
                return t
        return t

    # ---------------- memory
    def obj_get(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == "P":
                b = obj[1]
                pt = self.ptype.get(b.a[0]) if b.op == "app" else None
                if pt is None and b.op == "app" and b.a[2] and b.a[2][0] == "ty":
                    pt = self.pointee(b.a[2][1])
                if pt is None:
                    v = app("pointee", (b,), None)
                else:
                    v = self.fresh(b.a[0], b.a[1], pt)
                    self.objty[obj] = pt
                st.mem[obj] = v
            elif obj[0] == "K":
                v = obj[1]
            else:
                v = app("uninit:%s" % (obj,), (), None)
        return v

    def read_path(self, v, path, st, ti=None):
        for p in path:
            if isinstance(v, T) and v.op in ("ite", "cases"):
                v = self.force(v, st)
            k = p[0]
            if k == "f":
                if isinstance(v, T) and v.op == "agg":
                    if v.a[1] != p[1] and p[1] is not None:
                        # field of a variant the value does not have
                        v = app("novariant", (v,), None)
                    elif p[2] < len(v.a[2]):
                        v = v.a[2][p[2]]
                    else:
                        raise Unsupported("field %s of %s" % (p, show(v)[:80]))
                elif isinstance(v, T) and v.op == "app" or not isinstance(v, int):
                    v = self.proj(v, p[1] or 0, p[2], p[3]) if p[3] is not None else app("proj.%s.%s" % (p[1], p[2]), (v,), None)
                else:
                    # newtype over a scalar (e.g. NonZero)
                    v = v
            elif k == "i":
                v = self.sel(v, p[1], p[2], st)
            elif k == "sub":
                v = ssub(v, p[1], p[2], st.facts)
            elif k == "one":
                v = mk("arr", (v,))
            else:
                raise Unsupported("path %s" % (p,))
        return v

    def write_path(self, v, path, x, st):
        if not path:
            return x
        p = path[0]
        k = p[0]
        if isinstance(v, T) and v.op in ("ite", "cases"):
            v = self.force(v, st)
        if k == "f":
            if isinstance(v, T) and v.op == "agg":
                f = list(v.a[2])
                f[p[2]] = self.write_path(f[p[2]], path[1:], x, st)
                return agg(v.a[0], v.a[1], f)
            if isinstance(v, T):
                # expand an opaque struct/variant
                ti = v.a[2][1] if v.op == "app" and v.a[2] and v.a[2][0] == "ty" else None
                if ti is not None and self.kind(ti) == "adt" and self.ty[ti]["v"]:
                    vi = p[1] or 0
                    flds = self.ty[ti]["v"][vi]["f"]
                    f = [self.proj(v, vi, i, ft) for i, (_, ft) in enumerate(flds)]
                    f[p[2]] = self.write_path(f[p[2]], path[1:], x, st)
                    return agg(self.ty[ti]["n"], vi, f)
                return app("upd", (v, x if isinstance(x, (int, T)) else 0), v.a[2] if v.op == "app" else None)
            raise Unsupported("write field of scalar")
        if k == "i":
            if len(path) == 1:
                nx = x
            else:
                nx = self.write_path(self.sel(v, p[1], p[2], st), path[1:], x, st)
            return store(v, p[1], nx)
        if k == "one":
            if len(path) == 1:
                return self.sel(x, 0, seq_ety(x), st)
            if path[1][0] == "i":
                return self.write_path(v, path[2:], x, st)
        if k == "sub":
            if len(path) == 1:
                # whole sub-range replaced
                n = slen(v)
                pre = ssub(v, 0, p[1], st.facts)
                post = ssub(v, add(p[1], p[2]), sub(n, add(p[1], p[2])), st.facts)
                return cat((pre, x, post))
            q = path[1]
            if q[0] == "i":
                return self.write_path(v, (("i", add(p[1], q[1]), q[2]),) + path[2:], x, st)
            if q[0] == "sub":
                return self.write_path(v, (("sub", add(p[1], q[1]), q[2]),) + path[2:], x, st)
        raise Unsupported("write path %s" % (p,))

    def load(self, st, loc):
        return self.read_path(self.obj_get(st, loc[0]), loc[1], st)

    def store_loc(self, st, loc, x):
        obj, path = loc
        if not path:
            st.mem[obj] = x
        else:
            st.mem[obj] = self.write_path(self.obj_get(st, obj), path, x, st)

    def deref(self, v, st, ti=None):
        """location a pointer value points to"""
        v = self.force(v, st)
        if isinstance(v, T):
            if v.op == "ref":
                return v.a[0], v.a[1]
            if v.op == "agg" and v.a[0] == "Box":
                return ("K", v.a[2][0]), ()
            if v.op == "app":
                return ("P", v), ()
            if v.op in ("str", "arr", "sub", "cat", "seqsym", "lam", "rep"):
                return ("K", v), ()
        raise Unsupported("deref of %s" % show(v)[:100])

    def deval(self, v, st):
        """value behind any number of references"""
        v = self.force(v, st)
        n = 0
        while isinstance(v, T) and v.op == "ref" and n < 6:
            v = self.force(self.load(st, (v.a[0], v.a[1])), st)
            n += 1
        return v

    # ---------------- places
    def place(self, st, fr, p):
        """-> (obj, path, tyid)"""
        local, projs = p
        obj, path = ("L", fr.fid, local), ()
        ti = fr.body["locals"][local]
        variant = None
        for e in projs:
            if e == "*":
                t = self.ty[ti]
                if t["k"] == "adt" and t["n"] == "Box":
                    path = path + (("f", 0, 0, t["a"][0]),)
                    ti = t["a"][0]
                    continue
                v = self.load(st, (obj, path))
                obj, path = self.deref(v, st, ti)
                nt = self.pointee(ti)
                if nt is not None:
                    ti = nt
                if obj[0] == "P" and obj[1].op == "app" and nt is not None and obj[1].a[0] not in self.ptype:
                    self.ptype[obj[1].a[0]] = nt
                variant = None
                continue
            k = e[0]
            if k == "f":
                t = self.ty[ti]
                if t["k"] == "adt" and t["n"] == "NonZero":
                    ti = e[2]
                    continue
                path = path + (("f", variant if variant is not None else (0 if t["k"] != "adt" or t["kind"] == "struct" else 0), e[1], e[2]),)
                ti = e[2]
                variant = None
            elif k == "d":
                variant = e[1]
            elif k == "i":
                idx = self.load(st, (("L", fr.fid, e[1]), ()))
                et = self.elem_ty(ti)
                path = path + (("i", idx, et),)
                ti = et
            elif k == "ci":
                et = self.elem_ty(ti)
                if e[3]:
                    n = slen(self.force(self.load(st, (obj, path)), st))
                    path = path + (("i", sub(n, e[1]), et),)
                else:
                    path = path + (("i", e[1], et),)
                ti = et
            elif k == "ss":
                n = slen(self.force(self.load(st, (obj, path)), st))
                end = sub(n, e[2]) if e[3] else e[2]
                path = path + (("sub", e[1], sub(end, e[1])),)
            elif k == "oc":
                ti = e[1]
        return obj, path, ti

    def operand(self, st, fr, o):
        if "cp" in o or "mv" in o:
            p = o.get("cp") or o.get("mv")
            if not p[1]:
                v = st.mem.get(("L", fr.fid, p[0]))
                if v is not None:
                    return v
            obj, path, _ = self.place(st, fr, p)
            return self.load(st, (obj, path))
        if "c" in o:
            return self.const(o["c"], o["t"])
        return 0  # runtime checks: off

    def operand_ty(self, fr, o):
        if "c" in o:
            return o["t"]
        if "cp" in o or "mv" in o:
            return self.place_ty(fr, o.get("cp") or o.get("mv"))
        return None

    def place_ty(self, fr, p):
        ti = fr.body["locals"][p[0]]
        for e in p[1]:
            if e == "*":
                ti = self.pointee(ti) if self.pointee(ti) is not None else ti
            elif e[0] == "f":
                ti = e[2]
            elif e[0] in ("i", "ci"):
                ti = self.elem_ty(ti)
            elif e[0] == "oc":
                ti = e[1]
        return ti

    def const(self, c, ti):
        t = self.ty[ti]
        if "i" in c:
            return c["i"]
        if "f" in c:
            return mk("fconst", c["f"])
        if "str" in c:
            return ref(("K", mk("str", c["str"])))
        if "zst" in c:
            if t["k"] == "fndef":
                return agg("fndef:%d" % ti, 0, ())
            if t["k"] == "closure":
                return agg("closure:%d" % ti, 0, ())
            if t["k"] == "tuple":
                return agg("()", 0, ())
            if t["k"] == "array":
                return EMPTY
            if t["k"] == "adt":
                if t["n"] == "Vec":
                    return EMPTY
                return agg(t["n"], 0, [self.const({"zst": 1}, ft) for _, ft in (t["v"][0]["f"] if t["v"] else [])])
            return UNIT
        if "agg" in c:
            if t["k"] == "tuple":
                return agg("()", 0, [self.const(x, f) for x, f in zip(c["agg"], t["f"])])
            if t["k"] == "adt":
                vi = c.get("v", 0)
                if t["n"] == "NonZero":
                    x = c["agg"][0]
                    while "agg" in x:
                        x = x["agg"][0]
                    return x.get("i", 0)
                if t["n"] in ("Vec", "String"):
                    return EMPTY
                if t["n"] in ("Cell", "RefCell"):
                    return agg(t["n"], 0, (self.const(c["agg"][-1], t["v"][vi]["f"][-1][1]),))
                return agg(t["n"], vi, [self.const(x, f[1]) for x, f in zip(c["agg"], t["v"][vi]["f"])])
        if "arr" in c:
            et = self.elem_ty(ti)
            return mk("arr", tuple(self.const(x, et) for x in c["arr"]))
        if "ref" in c:
            pt = self.pointee(ti)
            if c.get("slice") is not None and isinstance(c["ref"], list):
                et = self.elem_ty(pt)
                return ref(("K", mk("arr", tuple(self.const(x, et) for x in c["ref"]))))
            if isinstance(c["ref"], dict):
                return ref(("K", self.const(c["ref"], pt)))
            return app("constref", (), ("ty", ti))
        if "static" in c:
            b = app("static:" + str(c["static"]), (), ("ty", ti))
            if self.pointee(ti) is not None:
                self.ptype[b.a[0]] = self.pointee(ti)
            return ref(("P", b))
        if "fn" in c:
            return agg("fn:%s" % c["fn"], 0, ())
        if t["k"] == "tuple" and not t["f"]:
            return UNIT
        return app("const:%s" % (c.get("d") or "?"), (), ("ty", ti))

    # ---------------- rvalues
    def discr_val(self, ti, variant):
        return int(self.ty[ti]["v"][variant]["d"])

    def discr(self, v, ti, st):
        v = self.force(v, st)
        t = self.ty[ti] if ti is not None else None
        if isinstance(v, T) and v.op == "agg" and v.a[0] != "()":
            if t and t["k"] == "adt":
                return self.discr_val(ti, v.a[1])
            return v.a[1]
        if t and t["k"] == "adt" and t["v"]:
            ds = [int(x["d"]) for x in t["v"]]
            if len(ds) == 1:
                return ds[0]
            return app("discr", (v,), ("r", min(ds), max(ds)))
        return app("discr", (v,), ("r", 0, 255))

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "addr":
            p = r[2] if k == "ref" else r[1]
            obj, path, _ = self.place(st, fr, p)
            return ref(obj, path)
        if k == "bin":
            return self.binop(r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]),
                              self.operand_ty(fr, r[2]), dty, st)
        if k == "cbin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            ty = self.int_ty(self.operand_ty(fr, r[2]))
            m = {"Add": add, "Sub": sub, "Mul": mul}[r[1]]
            x = m(a, b)
            lo, hi = INT_RANGE[ty]
            l, h = rng(x, st.facts)
            ov = 0 if lo <= l and h <= hi else bnot(band("bool", ge(x, lo), ge(hi, x)))
            return tup(wrap(ty, x, st.facts), ov)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                ty = self.int_ty(dty)
                if ty == "bool":
                    return bnot(a)
                if ty and ty[0] == "u":
                    return sub(INT_RANGE[ty][1], a)
                return add(neg(a), -1)
            if r[1] == "Neg":
                ty = self.int_ty(dty)
                if ty:
                    return wrap(ty, neg(a), st.facts)
                return mk("fop", "neg", a)
            if r[1] == "PtrMetadata":
                v = self.force(a, st)
                if isinstance(v, T) and v.op == "ref":
                    return slen(self.force(self.load(st, (v.a[0], v.a[1])), st))
                return app("ptrmeta", (a,), ("r", 0, LEN_MAX))
            return app("un" + r[1], (a,), ("ty", dty))
        if k == "cast":
            return self.cast(st, fr, r, dty)
        if k == "discr":
            obj, path, ti = self.place(st, fr, r[1])
            return self.discr(self.load(st, (obj, path)), ti, st)
        if k == "len":
            obj, path, ti = self.place(st, fr, r[1])
            return slen(self.force(self.load(st, (obj, path)), st))
        if k == "tuple":
            return agg("()", 0, [self.operand(st, fr, o) for o in r[1]])
        if k == "array":
            return mk("arr", tuple(self.operand(st, fr, o) for o in r[2]))
        if k == "adt":
            t = self.ty[r[1]]
            if t["n"] == "NonZero":
                return self.operand(st, fr, r[3][0])
            return agg(t["n"], r[2], [self.operand(st, fr, o) for o in r[3]])
        if k == "closure":
            return agg("closure:%d" % r[1], 0, [self.operand(st, fr, o) for o in r[2]])
        if k == "repeat":
            x = self.operand(st, fr, r[1])
            n = r[2]
            if isinstance(n, str):
                n = int(n)
            return mk("rep", x, n)
        if k == "rawptr":
            return self.operand(st, fr, r[1][0])
        return app("unk", (), ("ty", dty))

    def binop(self, op, a, b, aty, dty, st):
        fa = st.facts
        ty = self.int_ty(aty) if aty is not None else None
        op = op.replace("Unchecked", "")
        if ty is None and not (isinstance(a, int) and isinstance(b, int)):
            if aty is not None and self.kind(aty) == "tuple" and not self.ty[aty]["f"]:
                return int(op in ("Eq", "Le", "Ge"))
            # pointers / floats
            if op == "Ne":
                return bnot(self.binop("Eq", a, b, aty, dty, st))
            if op in ("Eq",):
                if a == b and self.kind(aty) != "float":
                    return 1
                x, y = sorted((a, b), key=lambda z: z.id if isinstance(z, T) else -1)
                return app("feq", (x, y), ("r", 0, 1))
            if op in ("Lt", "Le", "Gt", "Ge"):
                return app("f" + op, (a, b), ("r", 0, 1))
            return mk("fop", op, a, b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            a = self.force(a, st)
            b = self.force(b, st)
        if op == "Add":
            return wrap(ty, add(a, b), fa)
        if op == "Sub":
            return wrap(ty, sub(a, b), fa)
        if op == "Mul":
            return wrap(ty, mul(a, b), fa)
        if op == "Div":
            return div(a, b, fa)
        if op == "Rem":
            if rng(a, fa)[0] >= 0:
                return rem(a, b, fa)
            return mk("srem", a, b)
        if op == "BitAnd":
            return band(ty, a, b, fa)
        if op == "BitOr":
            return bor(ty, a, b, fa)
        if op == "BitXor":
            return bxor(ty, a, b, fa)
        if op == "Shl":
            return shl(ty, a, b, fa)
        if op == "Shr":
            return shr(ty, a, b, fa)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return bnot(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return ge(b, a)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return ge(a, b)
        if op == "Cmp":
            return self.cmp(a, b, st)
        return app("bin" + op, (a, b), ("ty", dty))

    def cmp(self, a, b, st):
        """Ordering value: variants Less=0, Equal=1, Greater=2"""
        for c, v in ((lt(a, b), 0), (eq(a, b), 1)):
            d = st.facts.decide(c)
            if d is None:
                raise NeedFork(c)
            if d:
                return agg("Ordering", v, ())
        return agg("Ordering", 2, ())

    def cast(self, st, fr, r, dty):
        kind = r[1]
        a = self.operand(st, fr, r[2])
        sty = self.operand_ty(fr, r[2])
        if kind.startswith("IntToInt"):
            ty = self.int_ty(dty)
            if self.int_ty(sty) is None and isinstance(a, T) and a.op == "agg":
                a = self.discr(a, sty, st)
            if ty is None:
                return app("cast", (a,), ("ty", dty))
            return wrap(ty, a, st.facts)
        if kind.startswith("Transmute"):
            t1, t2 = self.int_ty(sty), self.int_ty(dty)
            if t1 and t2:
                return wrap(t2, a, st.facts)
            if self.kind(sty) in ("ref", "ptr") and self.kind(dty) in ("ref", "ptr"):
                return a
            if sty == dty:
                return a
            t = self.ty[sty]
            # a newtype around the target
            if isinstance(a, T) and a.op == "agg" and t["k"] == "adt" and t["kind"] == "struct" and len(a.a[2]) == 1:
                return a.a[2][0]
            return app("transmute", (a,), ("ty", dty))
        if kind.startswith("FloatToInt"):
            ty = self.int_ty(dty)
            lo, hi = INT_RANGE[ty]
            return app("f2i:" + ty, (a,), ("r", lo, hi))
        if kind.startswith("IntToFloat"):
            return mk("fop", "i2f:" + self.ty[dty]["n"], a)
        if kind.startswith("FloatToFloat"):
            return mk("fop", "f2f:" + self.ty[dty]["n"], a)
        return a  # pointer casts keep the location

    # ---------------- execution
    def fid(self, parent, bb, fnid):
        k = (parent, bb, fnid)
        v = self.fids.get(k)
        if v is None:
            v = len(self.fids) + 1
            self.fids[k] = v
        return v

    def initial(self):
        s = State()
        s.mem = {}
        s.facts = Facts()
        s.trace = None
        s.binders = ()
        s.occ = {}
        s.user = None
        return s

    def span(self, sp):
        return f"{self.F.files[sp[0]]}:{sp[1]}"

    def call_fn(self, st, fn, args, parent=None, bb=0):
        """-> list of (kind, state, value): kind 'ret' or 'panic'"""
        body = fn["body"]
        depth = parent.depth + 1 if parent else 0
        if depth > self.opts["max_depth"]:
            raise Unsupported("call depth")
        fr = Frame()
        fr.fid = self.fid(parent.fid if parent else 0, bb, fn["id"])
        fr.fn = fn
        fr.body = body
        fr.depth = depth
        fr.chain = (parent.chain if parent else ()) + (fn["id"],)
        if fr.chain.count(fn["id"]) > 3:
            return self.opaque_call(st, self._mkcall(fn, args, parent, bb))
        self.analysed.add(fn["id"])
        argc = body["argc"]
        loc = body["locals"]
        args = list(args)
        if body.get("spread") is not None:
            # rust-call ABI body: last formal is a tuple of the remaining actuals
            sp = body["spread"]
            if len(args) != argc:
                args = args[:sp - 1] + [agg("()", 0, args[sp - 1:])]
        elif len(args) != argc:
            # caller passed (env, tuple); body wants them flat
            if len(args) == 2 and isinstance(args[1], T) and args[1].op == "agg" and args[1].a[0] == "()":
                args = [args[0]] + list(args[1].a[2])
        if len(args) != argc:
            raise Unsupported("arity of %s: %d vs %d" % (fn["name"], len(args), argc))
        for i, a in enumerate(args):
            st.mem[("L", fr.fid, i + 1)] = a
        n = len(loc)
        base = (st.trace, st.facts, dict(st.occ), None) if self.opts["join"] else None
        outs = self.region(st, fr, 0, None, None)
        res = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                v = s.mem.get(("L", fr.fid, 0), UNIT)
                for i in range(n):
                    s.mem.pop(("L", fr.fid, i), None)
                res.append(("ret", s, v))
            else:
                res.append(o)
        if base is not None:
            res = [o if o[0] != "ret" else ("ret", o[1], o[2]) for o in res]
            res = [("ret", s, v[0]) if k == "ret" else (k, s, v) for k, s, v in
                   self.join(base, [(o[0], o[1], (o[2],)) if o[0] == "ret" else o for o in res], body["locals"][0])]
        return res

    def join(self, base, outs, ti=None):
        """Treat the outcomes that fail in the same way as a single one; outs: [(kind, state, pay)]"""
        if len(outs) < 2:
            return outs
        groups, order = {}, []
        for i, (kind, s, pay) in enumerate(outs):
            sk = set()
            if kind == "panic" or kind[0] == "panic":
                pass
            elif ti is not None:
                if kind == "ret":
                    sk.add(("", failure(pay[0])))
            else:
                for obj, v in s.mem.items():
                    if isinstance(v, T) and v.op == "agg" and obj[0] == "L" and base[3].get(obj) is not v:
                        x = failure(v)
                        if x is not None:
                            sk.add((obj, x))
            if not any(x for _, x in sk):
                order.append([i])
                continue
            k = (kind, None if kind == "ret" else pay, frozenset(sk), str(s.user))
            if k in groups:
                order[groups[k]].append(i)
            else:
                groups[k] = len(order)
                order.append([i])
        res = []
        for g in order:
            if len(g) == 1:
                res.append(outs[g[0]])
                continue
            kind, s0, pay = outs[g[0]]
            os = [outs[i][1] for i in g]
            s = s0.clone()
            s.trace, s.facts, s.occ = base[0], base[1], dict(base[2])
            for o in os:
                for x, y in o.occ.items():
                    s.occ[x] = max(y, s.occ.get(x, 0))
            node = Join()
            node.alts = []
            for o in os:
                tr, l = o.trace, []
                while tr is not base[0]:
                    tr, x = tr
                    l.append(x)
                node.alts.append(l[::-1])
            s.trace = (s.trace, ("join", node))
            self.joins = getattr(self, "joins", 0) + 1
            for obj in list(s.mem):
                if any(obj not in o.mem for o in os):
                    del s.mem[obj]
                    continue
                s.mem[obj] = self.join_value([o.mem[obj] for o in os], lambda path: self.loc_ty((obj, path), s), s.binders, "jn%d.%s" % (self.joins, obj))
            if kind == "ret" and ti is not None:
                def tyat(path):
                    key = ("H", "join")
                    self.objty[key] = ti
                    return self.loc_ty((key, path), s)
                pay = (self.join_value([outs[i][2][0] for i in g], tyat, s.binders, "jn%d" % self.joins),)
            res.append((kind, s, pay))
        return res

    def join_value(self, vs, tyat, binders, name):
        v = vs[0]
        if all(x is v or x == v for x in vs):
            return v
        acc = set()
        for x in vs[1:]:
            self.leaf_diff(v, x, (), acc)
        paths = [p for p in acc if not any(q != p and p[:len(q)] == q for q in acc)]
        for i, p in enumerate(sorted(paths, key=str)):
            t = tyat(p)
            n = "%s.%d" % (name, i)
            x = self.fresh(n, binders, t) if t is not None else app(n, binders, None)
            v = self.lset(v, p, x)
        return v

    def _mkcall(self, fn, args, fr, bb):
        c = Call()
        c.fn = fn
        c.name = fn["name"]
        c.defn = fn["def"]
        c.args = list(args)
        c.aty = [None] * len(args)
        c.dty = None
        c.frame = fr
        c.bb = bb
        c.span = None
        c.fty = None
        return c

    def region(self, st, fr, start, stop, blocks):
        """Run from block `start`; outcomes: ('ret',st) ('panic',st,why) ('back',st) ('out',st,bb)"""
        body = fr.body
        cfg = cfg_of(body)
        out = []
        stack = [(st, start, True)]
        wait = {}
        while stack or wait:
            if not stack:
                # the earliest loop that has been reached
                head = min(wait, key=lambda b: cfg["num"].get(b, 1 << 30))
                for s in self.same_states(wait.pop(head), fr, head):
                    for o in self.mir_loop(s, fr, head, cfg["loops"][head]):
                        if o[0] == "out":
                            stack.append((o[1], o[2], False))
                        else:
                            out.append(o)
                stack.reverse()
                continue
            s, bb, first = stack.pop()
            # straight-line execution
            while True:
                if not first:
                    if bb == stop:
                        out.append(("back", s))
                        break
                    if blocks is not None and bb not in blocks:
                        out.append(("out", s, bb))
                        break
                if bb in cfg["loops"] and not (first and bb == stop):
                    if self.opts["join"]:
                        wait.setdefault(bb, []).append(s)
                        break
                    for o in self.mir_loop(s, fr, bb, cfg["loops"][bb]):
                        if o[0] == "out":
                            stack.append((o[1], o[2], False))
                        else:
                            out.append(o)
                    break
                first = False
                nxt = self.block(s, fr, bb)
                if len(nxt) == 1 and nxt[0][0] == "goto":
                    s, bb = nxt[0][1], nxt[0][2]
                    continue
                for o in reversed(nxt):
                    if o[0] == "goto":
                        stack.append((o[1], o[2], False))
                    else:
                        out.append(o)
                break
            if len(stack) > self.opts["max_paths"]:
                raise Budget("too many pending paths in " + fr.fn["name"])
        return out

    def same_states(self, states, fr, bb):
        """States from which everything goes on in the same way, with the same events so far, count as one."""
        if len(states) < 2:
            return states
        live = live_at(fr.body)[bb]
        groups = {}
        for s in states:
            m = frozenset((obj, v) for obj, v in s.mem.items() if not (obj[0] == "L" and obj[1] == fr.fid and obj[2] not in live))
            k = (m, tuple(id(x) for x in s.items() if x[0] != "as"), str(s.user), frozenset(s.occ.items()))
            groups.setdefault(k, []).append(s)
        res = []
        for g in groups.values():
            rows = [(frozenset((x[1], x[2]) for x in s.items() if x[0] == "as"), s) for s in g]
            again = len(rows) > 1
            while again:
                again = False
                for i, (l, a) in enumerate(rows):
                    for j in range(i):
                        d = l ^ rows[j][0]
                        if len(d) == 2 and len({c for c, _ in d}) == 1 or not d:
                            rows[j] = (l & rows[j][0], self.same_state(rows[j][1], a, d))
                            del rows[i]
                            again = True
                            break
                    if again:
                        break
            res.extend(s for _, s in rows)
        return res

    def same_state(self, a, b, d):
        """two states that differ in the outcome of one test"""
        s = a.clone()
        for obj in list(s.mem):
            if b.mem.get(obj) is not s.mem[obj]:
                del s.mem[obj]
        seen, tr = set(), b.trace
        while tr is not None:
            seen.add(id(tr))
            tr = tr[0]
        tr, l = a.trace, []
        while tr is not None and id(tr) not in seen:
            tr, x = tr
            l.append(x)
        for x in reversed(l):
            if x[0] != "as" or (x[1], x[2]) not in d:
                tr = (tr, x)
        s.trace = tr
        s.facts = a.facts.common(b.facts)
        return s

    def block(self, st, fr, bb):
        """one basic block; returns list of ('goto',st,bb) | ('ret',st) | ('panic',st,why)"""
        return self.block_from(st, fr, bb, 0)

    def block_from(self, st, fr, bb, i):
        B = fr.body["blocks"][bb]
        stmts = B["s"]
        n = len(stmts)
        while i < n:
            self.steps += 1
            s = stmts[i]
            try:
                self.stmt(st, fr, s)
            except Dead:
                return []
            except NeedFork as f:
                res = []
                for s2 in self.fork(st, f.cond):
                    res.extend(self.block_from(s2, fr, bb, i))
                return res
            i += 1
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("step budget exceeded")
        return self.term_f(st, fr, bb, B)

    def fork(self, st, cond):
        res = []
        a = st.clone()
        if a.assume(cond, True):
            res.append(a)
        b = st.clone()
        if b.assume(cond, False):
            res.append(b)
        return res

    def term_f(self, st, fr, bb, B):
        t = B["t"]
        if t[0] == "call":
            work = st.clone()
        else:
            work = st
        try:
            return self.term(work, fr, bb, t, B)
        except Dead:
            return []
        except NeedFork as f:
            res = []
            fs = self.fork(st, f.cond)
            for s2 in fs:
                res.extend(self.term_f(s2, fr, bb, B))
            return res

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            p = s[1]
            if not p[1]:
                v = self.rvalue(st, fr, s[2], fr.body["locals"][p[0]])
                st.mem[("L", fr.fid, p[0])] = v
            else:
                dty = self.place_ty(fr, p)
                v = self.rvalue(st, fr, s[2], dty)
                obj, path, _ = self.place(st, fr, p)
                self.store_loc(st, (obj, path), v)
        elif k == "sd":
            obj, path, ti = self.place(st, fr, s[1])
            cur = self.load(st, (obj, path))
            n = len(self.ty[ti]["v"][s[2]]["f"])
            if isinstance(cur, T) and cur.op == "agg" and cur.a[1] == s[2]:
                return
            f = [app("sd", (), None)] * n
            if isinstance(cur, T) and cur.op == "agg" and len(cur.a[2]) == n:
                f = cur.a[2]
            self.store_loc(st, (obj, path), agg(self.ty[ti]["n"], s[2], f))

    def term(self, st, fr, bb, t, B):
        k = t[0]
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "ret":
            return [("ret", st)]
        if k == "unreachable":
            return []
        if k == "resume":
            return []
        if k == "switch":
            v = self.operand(st, fr, t[1])
            v = self.force(v, st)
            if isinstance(v, T) and v.op == "agg":
                v = v.a[1]
            ty = self.int_ty(t[4])
            res = []
            rest = st
            if isinstance(v, int):
                for x, b in t[2]:
                    if ty:
                        x = wrap(ty, x)
                    if x == v:
                        return [("goto", st, b)]
                return [("goto", st, t[3])]
            alive = True
            for x, b in t[2]:
                if ty:
                    x = wrap(ty, x)
                c = eq(v, x)
                d = rest.facts.decide(c)
                if d == 1:
                    res.append(("goto", rest, b))
                    alive = False
                    break
                if d == 0:
                    continue
                y = rest.clone()
                if y.assume(c, True):
                    res.append(("goto", y, b))
                if not rest.assume(c, False):
                    alive = False
                    break
            if alive:
                res.append(("goto", rest, t[3]))
            return res
        if k == "assert":
            c = self.force(self.operand(st, fr, t[1]), st)
            exp = t[2]
            d = st.facts.decide(c)
            if d is not None:
                if d == exp:
                    return [("goto", st, t[4])]
                return self.panic(st, fr, bb, "assert:" + t[3], B)
            res = []
            if not self.opts["panics"]:
                f = st.facts.assume(c, exp)
                if f is None:
                    return []
                st.facts = f
                return [("goto", st, t[4])]
            bad = st.clone()
            if st.assume(c, exp):
                res.append(("goto", st, t[4]))
            if bad.assume(c, not exp):
                res.extend(self.panic(bad, fr, bb, "assert:" + t[3], B))
            return res
        if k == "drop":
            return self.do_drop(st, fr, bb, t)
        if k == "call":
            return self.do_call(st, fr, bb, t, B)
        raise Unsupported("terminator " + k)

    def panic(self, st, fr, bb, why, B):
        if self.opts["panics"]:
            return [("panic", st, (why, fr.fn["name"], self.span(B["l"])))]
        return []

    def do_drop(self, st, fr, bb, t):
        if t[3] is None or not self.F.ws_drop(t[3]):
            return [("goto", st, t[2])]
        # the destructor of a workspace type runs here
        obj, path, ti = self.place(st, fr, t[1])
        r = mk("ref", obj, tuple(path))
        return [("goto", o[1], t[2]) if o[0] == "ret" else o for o in self.call_fn(st, self.fns[t[3]], [r], fr, bb)]

    # ---------------- calls
    def resolve(self, v, st):
        """callable value -> (fn record, env prefix args)"""
        v = self.deval(v, st)
        if isinstance(v, T) and v.op == "agg":
            tag = v.a[0]
            if tag.startswith("fndef:"):
                t = self.ty[int(tag[6:])]
                if t["i"] is None:
                    return None, ()
                return self.fns[t["i"]], ()
            if tag.startswith("closure:"):
                t = self.ty[int(tag[8:])]
                for i in reversed(t["i"]):
                    if i is not None and self.fns[i].get("body"):
                        f = self.fns[i]
                        if f["kind"] == "item":
                            return f, (v,)
                return None, (v,)
        return None, ()

    def call_value(self, st, f, args, fr, bb):
        """call a closure / fn item value; -> outcomes of call_fn"""
        loc = None
        v = self.force(f, st)
        n = 0
        while isinstance(v, T) and v.op == "ref":
            loc = v
            v = self.force(self.load(st, (v.a[0], v.a[1])), st)
            n += 1
        fn, env = self.resolve(v, st)
        if fn is None:
            st2 = st
            r = app("callopaque", tuple(x for x in [v] + list(args) if isinstance(x, (T, int))), None)
            st2.emit(("ev", "call-opaque", (v,) + tuple(args), r, None))
            return [("ret", st2, r)]
        if env:
            body = fn["body"]
            et = self.ty[body["locals"][1]]
            if et["k"] in ("ref", "ptr"):
                if loc is None:
                    key_ = ("H", self.fid(fr.fid if fr else 0, ("env", bb), fn["id"]))
                    st.mem[key_] = v
                    loc = ref(key_)
                envv = loc
            else:
                envv = v
            a = [envv] + list(args)
            if fn["body"]["argc"] == 2 and len(args) != 1 or (fn["body"].get("spread")):
                if fn["body"].get("spread"):
                    a = [envv, agg("()", 0, args)]
            return self.call_fn(st, fn, a, fr, bb)
        return self.dispatch(st, fn, list(args), fr, bb, None, None)

    def do_call(self, st, fr, bb, t, B):
        self.callsites += 1
        fty = t[2]
        ft = self.ty[fty]
        args = [self.operand(st, fr, a) for a in t[3]]
        aty = [self.operand_ty(fr, a) for a in t[3]]
        dty = self.place_ty(fr, t[4])
        if ft["k"] == "fndef" and ft["i"] is not None:
            fn = self.fns[ft["i"]]
            if re.match(r"std::ops::Fn(Once|Mut)?::call", ft["n"]) and fn["name"].endswith("}") and fn["body"] and len(args) == 2 \
                    and fn["body"].get("spread") is None and isinstance(args[1], T) and args[1].op == "agg" and args[1].a[0] == "()":
                # a closure body takes the elements of the argument tuple
                aty = [aty[0]] + list(self.ty[aty[1]]["f"])
                args = [args[0]] + list(args[1].a[2])
            outs = self.dispatch(st, fn, args, fr, bb, aty, dty, B["l"], fty)
        elif ft["k"] == "fndef":
            fn = {"id": -1, "name": ft["n"], "def": ft["n"], "crate": "?", "kind": "virtual", "body": None}
            outs = self.dispatch(st, fn, args, fr, bb, aty, dty, B["l"], fty)
        else:
            f = self.operand(st, fr, t[1])
            outs = self.call_value(st, f, args, fr, bb)
        res = []
        for o in outs:
            if o[0] != "ret":
                res.append(o)
                continue
            s, v = o[1], o[2]
            if t[5] is None:
                continue
            p = t[4]
            if not p[1]:
                s.mem[("L", fr.fid, p[0])] = v
            else:
                obj, path, _ = self.place(s, fr, p)
                self.store_loc(s, (obj, path), v)
            res.append(("goto", s, t[5]))
        return res

    def dispatch(self, st, fn, args, fr, bb, aty, dty, sp=None, fty=None):
        c = Call()
        c.fn = fn
        c.name = fn["name"]
        c.defn = fn["def"]
        c.args = args
        c.aty = aty if aty is not None else [None] * len(args)
        c.dty = dty
        c.frame = fr
        c.bb = bb
        c.span = sp
        c.fty = fty
        for p, h in self.hooks:
            if p.search(c.name) or p.search(c.defn):
                r = h(self, st, c)
                if r is not None:
                    return self.norm(r)
        m = self._mcache.get(fn["id"], 0) if fn["id"] >= 0 else 0
        if m == 0:
            m = None
            for p, h in self.models:
                if p.search(c.defn) or p.search(c.name):
                    m = h
                    break
            if fn["id"] >= 0:
                self._mcache[fn["id"]] = m
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return self.norm(r)
        if fn.get("body"):
            return self.call_fn(st, fn, args, fr, bb)
        return self.opaque_call(st, c)

    def norm(self, r):
        out = []
        for o in r:
            if o[0] in ("ret", "panic"):
                out.append(o)
            else:
                out.append(("ret", o[0], o[1]))
        return out

    def ret_ty(self, c):
        if c.dty is not None:
            return c.dty
        return None

    def occ(self, st, c, tag=""):
        """unique name of this dynamic call inside the current iteration"""
        k = (c.frame.fid if c.frame else 0, c.bb, tag)
        n = st.occ.get(k, 0)
        st.occ[k] = n + 1
        return "%s@%s.%s%s" % (tag or short(c.defn), k[0], c.bb, ("#%d" % n) if n else "")

    def opaque_call(self, st, c):
        d = c.defn
        self.opaque[d] = self.opaque.get(d, 0) + 1
        if c.dty is not None and self.kind(c.dty) == "never":
            if self.opts["panics"]:
                return [("panic", st, ("call:" + d, c.frame.fn["name"] if c.frame else "", self.span(c.span) if c.span else ""))]
            return []
        mut = False
        vals = []
        for a, ti in zip(c.args, c.aty):
            vals.append(self.deval_safe(a, st))
            if ti is not None and self.kind(ti) == "ref" and self.ty[ti]["m"]:
                mut = True
        name = short(d)
        if mut or not c.args:
            nm = self.occ(st, c)
            for j, (a, ti) in enumerate(zip(c.args, c.aty)):
                if ti is not None and self.kind(ti) == "ref" and self.ty[ti]["m"]:
                    self.havoc(st, a, ti, f"{nm}.arg{j}")
            r = self.fresh(nm, st.binders, c.dty) if c.dty is not None else app(nm, st.binders, None)
            st.emit(("ev", "opaque:" + d, tuple(vals), r, c.span))
        else:
            r = self.fresh(name, tuple(v for v in vals if isinstance(v, (int, T))), c.dty) if c.dty is not None else app(name, tuple(vals), None)
        return [("ret", st, r)]

    def deval_safe(self, a, st):
        try:
            return self.deval(a, st)
        except (Unsupported, NeedFork):
            return a

    def havoc(self, st, a, ti, name):
        v = self.force(a, st)
        if isinstance(v, T) and v.op == "ref":
            pt = self.pointee(ti)
            if v.a[0][0] == "K":
                return
            self.store_loc(st, (v.a[0], v.a[1]), self.fresh(name, st.binders, pt))

    # ---------------- loops
    def mir_loop(self, st, fr, head, blocks):
        uid = ("L", fr.fid, head)
        def step(s):
            r = []
            for o in self.region(s, fr, head, head, blocks):
                if o[0] == "back":
                    r.append(("next", o[1], None))
                elif o[0] == "out":
                    r.append(("exit", o[1], ("out", o[2])))
                elif o[0] == "ret":
                    r.append(("exit", o[1], ("ret",)))
                else:
                    r.append(("exit", o[1], ("panic", o[2])))
            return r
        where = self.span(fr.body["blocks"][head]["l"])
        out = []
        few = 0
        for x in fr.body["blocks"][head]["s"]:
            if x[0] == "=" and x[2][0] == "ref" and not x[2][2][1]:
                few = max(few, self.few_items(st, st.mem.get(("L", fr.fid, x[2][2][0]))))
        for s, pay in self.do_loop(st, step, uid, where, fr.fn["name"], few):
            if pay[0] == "out":
                out.append(("out", s, pay[1]))
            elif pay[0] == "ret":
                out.append(("ret", s))
            else:
                out.append(("panic", s, pay[1]))
        return out

    def leaf_diff(self, a, b, path, acc):
        """leaf locations where value a (before) and b (after) differ"""
        if a is b or a == b:
            return
        if isinstance(a, T) and isinstance(b, T):
            if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
                for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                    self.leaf_diff(x, y, path + (("f", a.a[1], i, None),), acc)
                return
            if a.op == "ref" and b.op == "ref" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) \
                    and all(p[0] == q[0] for p, q in zip(a.a[1], b.a[1])):
                ok_ = True
                todo = []
                for j, (p, q) in enumerate(zip(a.a[1], b.a[1])):
                    if p == q:
                        continue
                    if p[0] == "i":
                        todo.append((j, 1))
                    elif p[0] == "sub":
                        if p[1] != q[1]:
                            todo.append((j, 1))
                        if p[2] != q[2]:
                            todo.append((j, 2))
                    else:
                        ok_ = False
                if ok_:
                    for j, k in todo:
                        acc.add(path + (("rp", j, k),))
                    return
            if a.op == "arr" and b.op == "arr" and len(a.a[0]) == len(b.a[0]):
                for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
                    self.leaf_diff(x, y, path + (("c", None, i),), acc)
                return
            if a.op == "cat" and b.op == "cat" and len(a.a[0]) == len(b.a[0]) and \
                    all(p is q or p.op == q.op == "arr" and len(p.a[0]) == len(q.a[0]) for p, q in zip(a.a[0], b.a[0])):
                for k, (p, q) in enumerate(zip(a.a[0], b.a[0])):
                    if p is not q:
                        for i, (x, y) in enumerate(zip(p.a[0], q.a[0])):
                            self.leaf_diff(x, y, path + (("c", k, i),), acc)
                return
        acc.add(path)

    def lget(self, v, path):
        for p in path:
            if p[0] == "f":
                if not (isinstance(v, T) and v.op == "agg" and v.a[1] == p[1]):
                    return None
                v = v.a[2][p[2]]
            elif p[0] == "c":
                if p[1] is not None:
                    if not (isinstance(v, T) and v.op == "cat" and p[1] < len(v.a[0])):
                        return None
                    v = v.a[0][p[1]]
                if not (isinstance(v, T) and v.op == "arr" and p[2] < len(v.a[0])):
                    return None
                v = v.a[0][p[2]]
            else:
                if not (isinstance(v, T) and v.op == "ref" and p[1] < len(v.a[1])):
                    return None
                v = v.a[1][p[1]][p[2]]
        return v

    def lset(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == "f":
            f = list(v.a[2])
            f[p[2]] = self.lset(f[p[2]], path[1:], x)
            return agg(v.a[0], v.a[1], f)
        if p[0] == "c":
            w = v if p[1] is None else v.a[0][p[1]]
            l = list(w.a[0])
            l[p[2]] = self.lset(l[p[2]], path[1:], x)
            w = mk("arr", tuple(l))
            return w if p[1] is None else cat(v.a[0][:p[1]] + (w,) + v.a[0][p[1] + 1:])
        steps = list(v.a[1])
        q = list(steps[p[1]])
        q[p[2]] = x
        steps[p[1]] = tuple(q)
        return ref(v.a[0], tuple(steps))

    def obj_type(self, obj, st):
        if obj[0] == "L":
            return self.fidloc.get(obj) if hasattr(self, "fidloc") else None
        return self.objty.get(obj)

    def few_items(self, st, v):
        """how many turns a loop over the iterator may take if it goes over a handful of written-out items, else 0"""
        if not (isinstance(v, T) and v.op == "agg"):
            return 0
        if v.a[0] in ("it:map", "it:enum", "it:copied", "it:rev"):
            return self.few_items(st, v.a[2][0])
        if v.a[0] == "Range":
            lo, hi = v.a[2]
            return hi - lo + 1 if isinstance(lo, int) and isinstance(hi, int) and 0 < hi - lo <= self.opts["range_unroll"] else 0
        if v.a[0] not in ("it:seq", "it:slice"):
            return 0
        b, lo, hi = v.a[2][:3]
        if not (isinstance(lo, int) and isinstance(hi, int) and 0 < hi - lo <= 4):
            return 0
        if v.a[0] == "it:slice":
            try:
                b = self.load(st, (b.a[0], b.a[1]))
            except (Unsupported, NeedFork, KeyError):
                return 0
        return hi - lo + 1 if isinstance(b, T) and b.op == "arr" else 0

    def do_loop(self, st, step, uid, where, fname="", few=0):
        few = few or self.opts["unroll"]
        if few:
            pend, res = [st], []
            base = (st.trace, st.facts, dict(st.occ), dict(st.mem))
            for _ in range(few):
                nxt = []
                for s in pend:
                    for kind, o, pay in step(s):
                        if kind == "next":
                            nxt.append(o)
                        else:
                            res.append((o, pay))
                pend = nxt
                if not pend:
                    if self.opts["join"]:
                        res = [(s, pay) for pay, s, _ in self.join(base, [(pay, s, pay) for s, pay in res])]
                    return res
            if self.opts["unroll"]:
                raise Unsupported("loop not decided within the unroll bound in " + fname)
        # a loop that is run again on the same path has other variables
        kind_of, again = uid, st.occ.get(uid, 0)
        st.occ[uid] = again + 1
        if again:
            uid = uid + (again,)
        it = app("it%s" % (uid,), st.binders, ("r", 0, LEN_MAX))
        bv = app("bv%s" % (uid,), st.binders, ("r", 0, LEN_MAX))
        it1 = add(it, 1)
        plan = dict(self.plans.get(kind_of, {}))  # (obj,path) -> kind
        for loc in list(plan):
            x = st.mem.get(loc[0])
            x = self.lget(x, loc[1]) if x is not None else None
            if isinstance(x, T) and (x.op == "cat" or x.op == "arr" and x.a[0]):
                del plan[loc]
        self.loops_seen[kind_of] = where
        final = None
        bodies = {}
        norel, kept = set(), set()
        for attempt in range(32):
            S0 = st.clone()
            S0.trace = None
            S0.binders = st.binders + (it,)
            S0.occ = dict(st.occ)
            phis = {}
            drop = []
            for loc in sorted(plan, key=lambda l: (plan[l][0] == "rel", str(l[0]), len(l[1]), str(l[1]))):
                obj, path = loc
                base = S0.mem.get(obj)
                if base is None:
                    if obj in st.mem:
                        base = st.mem[obj]
                    else:
                        drop.append(loc)
                        continue
                init = self.lget(base, path)
                if init is None:
                    # shape changed above: coarsen
                    drop.append(loc)
                    continue
                kind = plan[loc]
                if kind[0] == "rel":
                    if kind[1] not in phis:
                        kind = plan[loc] = "opaque"
                        norel.add(loc)
                if kind[0] == "rel":
                    u, ui = phis[kind[1]]
                    v = add(init, scale(sub(u, ui), kind[2]))
                else:
                    v = self.phi_value(uid, loc, kind, init, S0.binders, it, bv, bodies, st)
                phis[loc] = (v, init)
                S0.mem[obj] = self.lset(base, path, v)
            for l in drop:
                del plan[l]
            base = (S0.trace, S0.facts, dict(S0.occ), dict(S0.mem))
            outs = step(S0)
            nexts = [o for o in outs if o[0] == "next"]
            exits = [o for o in outs if o[0] == "exit"]
            if self.opts["join"]:
                exits = [("exit", s, pay) for pay, s, _ in self.join(base, [(pay, s, pay) for _, s, pay in exits])]
            # new modified locations
            changed = set()
            for _, o, _ in nexts:
                for obj, v0 in S0.mem.items():
                    if obj not in st.mem:
                        continue
                    v1 = o.mem.get(obj)
                    if v1 is None or v1 is v0:
                        continue
                    acc = set()
                    self.leaf_diff(v0, v1, (), acc)
                    for p in acc:
                        changed.add((obj, p))
            new = False
            for loc in changed:
                if loc in plan:
                    continue
                cov = [l for l in plan if l[0] == loc[0] and l[1] == loc[1][:len(l[1])]]
                if cov:
                    continue
                # drop finer ones
                for l in [l for l in plan if l[0] == loc[0] and loc[1] == l[1][:len(loc[1])]]:
                    del plan[l]
                plan[loc] = "try"
                new = True
            if new:
                continue
            # classification
            redo = False
            for loc in list(plan):
                if loc not in phis:
                    continue
                v, init = phis[loc]
                kind = plan[loc]
                outsv = []
                for _, o, _ in nexts:
                    w = o.mem.get(loc[0])
                    w = self.lget(w, loc[1]) if w is not None else None
                    outsv.append((w, o))
                if loc not in kept and v is not init and outsv and all(w is v for w, _ in outsv):
                    # known to change from an earlier visit of the loop, but not changed this time
                    kept.add(loc)
                    del plan[loc]
                    redo = True
                    continue
                if kind[0] == "rel":
                    u = phis[kind[1]][0]
                    k2 = kind
                    for w, o in outsv:
                        wu = o.mem.get(kind[1][0])
                        wu = self.lget(wu, kind[1][1]) if wu is not None else None
                        if not (E_int(w) and E_int(wu)) or sub(w, v) != scale(sub(wu, u), kind[2]):
                            k2 = "opaque"
                            norel.add(loc)
                else:
                    k2 = self.classify(uid, loc, kind, v, init, outsv, it, bv, bodies, nexts, st)
                if k2 != kind:
                    plan[loc] = k2
                    redo = True
            if redo:
                continue
            # counters that move together
            ops = [l for l in phis if plan[l] == "opaque" and E_int(phis[l][0]) and E_int(phis[l][1])]
            for i, l in enumerate(ops):
                if l in norel:
                    continue
                for l2 in ops[:i]:
                    for sg in (1, -1):
                        good = bool(nexts)
                        moved = False
                        for _, o, _ in nexts:
                            a, b = (self.lget(o.mem[x[0]], x[1]) if x[0] in o.mem else None for x in (l, l2))
                            if not (E_int(a) and E_int(b)):
                                good = False
                                break
                            da = sub(a, phis[l][0])
                            if da != scale(sub(b, phis[l2][0]), sg):
                                good = False
                                break
                            moved = moved or da != 0
                        if good and moved:
                            plan[l] = ("rel", l2, sg)
                            redo = True
                            break
                    if redo:
                        break
                if redo:
                    break
            if redo:
                continue
            final = (S0, phis, nexts, exits)
            break
        if final is None:
            raise Unsupported("loop fixpoint not reached at %s: %s" % (where, [(l, k) for l, k in plan.items()]))
        self.plans[kind_of] = {l: k if k[0] == "aff" and isinstance(k[1], int) else "try" for l, k in plan.items()}
        S0, phis, nexts, exits = final
        node = Loop()
        node.uid, node.it, node.bv, node.where = uid, it, bv, where
        node.nexts = [o.items() for _, o, _ in nexts]
        node.nstates = [o for _, o, _ in nexts]
        node.estates = []
        node.exits = []
        node.phis = {}
        for loc, (v, init) in phis.items():
            if plan[loc] == "opaque" or isinstance(v, T) and v.op == "seqsym":
                node.phis[v] = (init, [self.lget(o.mem.get(loc[0]), loc[1]) for _, o, _ in nexts])
        # trip count
        trip = None
        gi = None
        for i, (_, o, pay) in enumerate(exits):
            items = o.items()
            if pay[0] == "panic":
                continue
            if all(x[0] == "as" for x in items):
                n = self.solve_guard(items, it, nexts, S0)
                if n is not None:
                    trip, gi = n, i
                    break
        node.exact = trip is not None
        if trip is None:
            trip = app("trip%s" % (uid,), st.binders, ("r", 0, LEN_MAX))
        node.trip = trip
        res = []
        never = not nexts       # the loop is left in its first iteration
        for i, (_, o, pay) in enumerate(exits):
            s = st.clone()
            if never:
                k = 0
            elif i == gi:
                k = trip
            else:
                k = app("kx%s.%d" % (uid, i), st.binders, ("r", 0, LEN_MAX)) if node.exact else trip
                if node.exact and not s.assume(lt(k, trip), True):
                    continue
            cache = {}
            m = {it: k}
            if never:
                for v, init in phis.values():
                    if isinstance(v, T) and v.op in ("app", "sym", "seqsym"):
                        m[v] = init
                        if v.op == "seqsym" and isinstance(slen(v), T) and slen(v).op in ("app", "sym"):
                            m[slen(v)] = slen(init)
            for obj, v in o.mem.items():
                if st.mem.get(obj) is v:
                    continue
                s.mem[obj] = subst(v, m, cache)
            for obj in list(s.mem):
                if obj not in o.mem:
                    del s.mem[obj]
            s.occ = dict(st.occ)
            s.user = o.user
            items = o.items()
            # loop item goes first
            if not never:
                s.emit(("loop", node, k, i == gi, i, frozenset(
                    (y[1], y[2]) for y in (subst_item(x, m, cache) for x in items) if y[0] == "as")))
            okk = True
            if never or not (i == gi):
                for x in items:
                    y = subst_item(x, m, cache)
                    if y[0] == "as":
                        if not s.assume(y[1], y[2]):
                            okk = False
                            break
                    else:
                        s.emit(y)
            node.exits.append((items, pay, i == gi))
            node.estates.append(o)
            if okk:
                res.append((s, pay))
        return res

    def solve_guard(self, items, it, nexts, S0):
        """n such that the exit happens exactly when it reaches n"""
        lits = [(x[1], x[2]) for x in items]
        lits = [l for l in lits if contains(l[0], it)]
        if len(lits) != 1:
            return None
        c, val = lits[0]
        # every continuing path must carry the negation
        for _, o, _ in nexts:
            d = o.facts.decide(c)
            if d is None or d == val:
                return None
        if c.op == "ge":
            K, m = c.a
            t = sub(K, m) if val else add(sub(m, K), -1)  # exit iff t >= 0
            k, its = parts(t)
            d = dict(its)
            co = d.pop(it, 0)
            rest = lin(k, d)
            if contains(rest, it) if isinstance(rest, T) else False:
                return None
            if co == 1:
                n = neg(rest)
                return self.nonneg(n, S0)
            if co > 1:
                # it >= ceil(-rest/co)
                n = div(add(neg(rest), co - 1), co, S0.facts)
                l, h = rng(add(neg(rest), co - 1), S0.facts)
                if l >= 0:
                    return n
            return None
        if c.op == "eq" and val:
            K, v = c.a
            k, its = parts(sub(K, v))
            d = dict(its)
            co = d.pop(it, 0)
            rest = lin(k, d)
            if isinstance(rest, T) and contains(rest, it):
                return None
            if co in (1, -1):
                n = scale(rest, -co)
                l, h = rng(n, S0.facts)
                if l >= 0:
                    return n
        return None

    def nonneg(self, n, S0):
        if isinstance(n, int):
            return max(n, 0)
        l, h = rng(n, S0.facts)
        if l >= 0:
            return n
        return tmax((n, 0))

    def phi_value(self, uid, loc, kind, init, binders, it, bv, bodies, st):
        name = "phi%s" % ((uid, loc[0], tuple((p[0],) + tuple(x for x in p[1:] if isinstance(x, int) or x is None) for p in loc[1])),)
        if kind in ("try", "opaque", "oplen", "plen", "try2"):
            if isinstance(init, int) or (isinstance(init, T) and is_intish(init)):
                lo, hi = rng(init)
                return app(name, binders, ("r", -(1 << 62) if lo < 0 else 0, LEN_MAX)) if not self.tyrange(loc, st) \
                    else app(name, binders, ("r",) + self.tyrange(loc, st))
            if isinstance(init, T) and is_seq(init):
                if kind == "oplen":
                    ln = slen(init)
                elif kind in ("try", "try2", "plen") and init is EMPTY:
                    ln = it
                else:
                    ln = app(name + ".len", binders, ("r", 0, LEN_MAX))
                ety = seq_ety(init)
                if ety is None:
                    ti = self.loc_ty(loc, st)
                    ety = self.elem_ty(ti) if ti is not None else None
                return mk("seqsym", name, tuple(binders), ety, ln)
            ti = self.loc_ty(loc, st)
            if ti is not None:
                return self.fresh(name, binders, ti)
            if isinstance(init, T) and init.op == "ref":
                b = app(name + "*", binders, None)
                return ref(("P", b))
            return app(name, binders, None)
        if kind[0] == "aff":
            return add(init, mul(kind[1], it))
        if kind[0] == "push":
            return cat((init, mk("lam", bv, it, bodies[(uid, loc)])))
        if kind[0] == "flat":
            return cat((init, mk("flat", bv, it, bodies[(uid, loc)])))
        if kind[0] == "store":
            return mk("lamst", init, kind[1], bv, it, bodies[(uid, loc)])
        raise Unsupported("phi kind")

    def tyrange(self, loc, st):
        ti = self.loc_ty(loc, st)
        if ti is None:
            return None
        ty = self.int_ty(ti)
        if ty is None:
            return None
        lo, hi = INT_RANGE[ty]
        if hi > LEN_MAX:
            hi = LEN_MAX
            if lo < 0:
                lo = -LEN_MAX
        return lo, hi

    def loc_ty(self, loc, st):
        obj, path = loc
        if obj[0] == "L":
            fnid = self.fid_fn(obj[1])
            if fnid is None:
                return None
            ti = self.fns[fnid]["body"]["locals"][obj[2]]
        else:
            ti = self.objty.get(obj)
        if ti is None:
            return None
        for p in path:
            if p[0] == "rp":
                return self.F.usize
            if p[0] == "c":
                ti = self.elem_ty(ti)
                if ti is None:
                    return None
                continue
            t = self.ty[ti]
            if t["k"] in ("tuple", "closure"):
                ti = t["f"][p[2]]
            elif t["k"] == "adt":
                if t["n"] == "Box":
                    ti = t["a"][0]
                elif t["n"] in ("Cell", "RefCell"):
                    ti = t["a"][0]
                elif p[1] < len(t["v"]) and p[2] < len(t["v"][p[1]]["f"]) and t["kind"] in ("struct", "enum") and \
                        not (t["c"] == "core" and t["n"] in ITER_ADTS):
                    ti = t["v"][p[1]]["f"][p[2]][1]
                else:
                    return None
            else:
                return None
        return ti

    def fid_fn(self, fid):
        if not hasattr(self, "_ff") or len(self._ff) != len(self.fids):
            self._ff = {v: k[2] for k, v in self.fids.items()}
        return self._ff.get(fid)

    def classify(self, uid, loc, kind, v, init, outs, it, bv, bodies, nexts, st):
        """next kind for a modified location given one run of the body"""
        if kind == "opaque":
            return kind
        if any(w is None for w, _ in outs):
            return "opaque"
        if not outs:
            return kind
        isint = isinstance(v, int) or (isinstance(v, T) and is_intish(v))
        if kind == "try":
            if isint:
                ds = {sub(w, v) for w, _ in outs if isinstance(w, int) or is_intish(w)}
                if len(ds) == 1 and all(isinstance(w, int) or is_intish(w) for w, _ in outs):
                    d = ds.pop()
                    if not (isinstance(d, T) and (contains(d, it) or mentions(d, "phi%s" % (uid,), uid))):
                        return ("aff", d)
                return "opaque"
            if isinstance(v, T) and is_seq(v):
                return "try2"  # wait for the scalars to settle
            if all(w == v for w, _ in outs):
                return "opaque"
            return "opaque"
        if kind == "try2":
            # push?
            items = []
            for w, o in outs:
                if isinstance(w, T) and w.op == "cat" and w.a[0][0] is v and len(w.a[0]) == 2 and w.a[0][1].op == "arr" \
                        and len(w.a[0][1].a[0]) == 1:
                    items.append((w.a[0][1].a[0][0], o))
                else:
                    items = None
                    break
            if items:
                b = self.case_body(items)
                if not contains(b, v):
                    bodies[(uid, loc)] = subst(b, {it: bv})
                    return ("push",)
                return "opaque"
            # several elements appended?
            items = []
            for w, o in outs:
                if w is v:
                    items.append((EMPTY, o))
                elif isinstance(w, T) and w.op == "cat" and w.a[0][0] is v:
                    items.append((cat(w.a[0][1:]), o))
                else:
                    items = None
                    break
            if items and any(x is not EMPTY for x, _ in items):
                b = self.case_body(items)
                if contains(b, v):
                    return "opaque"
                bodies[(uid, loc)] = subst(b, {it: bv})
                return ("flat",)
            # store?
            sts = []
            base = None
            good = True
            for w, o in outs:
                if w is v:
                    sts.append((None, o))
                elif isinstance(w, T) and w.op == "store" and w.a[0] is v:
                    off = sub(w.a[1], it)
                    if isinstance(off, T) and (contains(off, it) or mentions(off, "phi%s" % (uid,), uid)):
                        good = False
                        break
                    if base is not None and base != off:
                        good = False
                        break
                    base = off
                    sts.append((w.a[2], o))
                else:
                    good = False
                    break
            if good and base is not None:
                ety = seq_ety(init)
                its = []
                try:
                    for x, o in sts:
                        if x is None:
                            x = self.sel(init, add(base, it), ety, o)
                        its.append((x, o))
                    b = self.case_body(its)
                    # reads of the array at the current index see the initial contents
                    b2 = b
                    if contains(b, v):
                        b2 = None
                        m = {}
                        ok_ = self.collect_self_reads(b, v, add(base, it), m, init, ety, sts[0][1])
                        if ok_:
                            b2 = subst(b, m)
                            if contains(b2, v):
                                b2 = None
                    if b2 is not None:
                        bodies[(uid, loc)] = subst(b2, {it: bv})
                        return ("store", base)
                except NeedFork:
                    pass
            if all(self.same_len(w, v) for w, _ in outs):
                if init is not EMPTY:
                    return "oplen"
            elif init is EMPTY and all(isinstance(w, T) and is_seq(w) and slen(w) == add(it, 1) for w, _ in outs):
                return "plen"
            return "opaque"
        if kind == "plen":
            if all(isinstance(w, T) and is_seq(w) and slen(w) == add(it, 1) for w, _ in outs):
                return kind
            return "opaque"
        if kind[0] == "flat":
            items = []
            base = v.a[0] if v.op == "cat" else (v,)
            for w, o in outs:
                ps = w.a[0] if isinstance(w, T) and w.op == "cat" else (w,)
                if ps[:len(base)] == base:
                    items.append((cat(ps[len(base):]), o))
                elif base[-1].op == "flat" and ps[:len(base) - 1] == base[:-1] and not isinstance(w, int):
                    return "opaque"
                else:
                    return "opaque"
            b = subst(self.case_body(items), {it: bv})
            if b != bodies[(uid, loc)]:
                n = bodies.get((uid, loc, "n"), 0)
                if n > 3:
                    return "opaque"
                bodies[(uid, loc, "n")] = n + 1
                bodies[(uid, loc)] = b
                return ("flat", n)
            return kind
        if kind == "oplen":
            if all(self.same_len(w, v) for w, _ in outs):
                return kind
            return "opaque"
        if kind[0] == "aff":
            for w, o in outs:
                if not (isinstance(w, int) or is_intish(w)) or sub(w, v) != kind[1]:
                    return "opaque"
            return kind
        if kind[0] == "push":
            items = []
            for w, o in outs:
                if isinstance(w, T) and w.op == "cat" and w.a[0][-1].op == "arr" and cat(w.a[0][:-1] + (mk("arr", w.a[0][-1].a[0][:-1]),)) is v:
                    items.append((w.a[0][-1].a[0][-1], o))
                elif isinstance(w, T) and w.op == "cat" and v.op == "lam":
                    if w.a[0][0] is v and len(w.a[0]) == 2 and w.a[0][1].op == "arr" and len(w.a[0][1].a[0]) == 1:
                        items.append((w.a[0][1].a[0][0], o))
                    else:
                        return "opaque"
                else:
                    return "opaque"
            b = subst(self.case_body(items), {it: bv})
            if b != bodies[(uid, loc)]:
                n = bodies.get((uid, loc, "n"), 0)
                if n > 3:
                    return "opaque"
                bodies[(uid, loc, "n")] = n + 1
                bodies[(uid, loc)] = b
                return ("push", n)
            return kind
        if kind[0] == "store":
            its = []
            for w, o in outs:
                if w is v:
                    return kind
                if isinstance(w, T) and w.op == "store" and w.a[0] is v and sub(w.a[1], it) == kind[1]:
                    its.append((w.a[2], o))
                elif w is not v:
                    return "opaque"
            return kind
        return kind

    def collect_self_reads(self, b, v, idx, m, init, ety, st):
        """map selections v[idx] occurring in b to init[idx]"""
        ref_el = self.sel(v, idx, ety, st)
        new_el = self.sel(init, idx, ety, st)
        self._pair(ref_el, new_el, m)
        return True

    def _pair(self, a, b, m):
        if a is b:
            return
        if isinstance(a, T) and a.op == "agg" and isinstance(b, T) and b.op == "agg" and len(a.a[2]) == len(b.a[2]):
            for x, y in zip(a.a[2], b.a[2]):
                self._pair(x, y, m)
            return
        if isinstance(a, T):
            m[a] = b

    def same_len(self, w, v):
        return isinstance(w, T) and is_seq(w) and slen(w) == slen(v)

    def case_body(self, items):
        """value of one iteration as cases over its path literals"""
        vals = {x for x, _ in items}
        if len(vals) == 1:
            return items[0][0]
        # what holds whenever a loop is left in the only way that gets here tells nothing apart
        ways, implied = {}, {}
        for _, o in items:
            for y in o.items():
                if y[0] == "loop" and len(y) > 5:
                    ways.setdefault(y[1].uid, set()).add(y[4])
                    implied.setdefault(y[1].uid, set()).update(y[5])
        skip = set()
        for u, w in ways.items():
            if len(w) == 1:
                skip |= implied[u]
        cs = []
        for x, o in items:
            lits = tuple((y[1], y[2]) for y in o.items() if y[0] == "as" and (y[1], y[2]) not in skip)
            cs.append((lits, x))
        # factor aggregates field-wise
        if all(isinstance(x, T) and x.op == "agg" for _, x in cs) and \
                len({(x.a[0], x.a[1], len(x.a[2])) for _, x in cs}) == 1:
            x0 = cs[0][1]
            fs = []
            for i in range(len(x0.a[2])):
                fs.append(self.mk_cases([(l, x.a[2][i]) for l, x in cs]))
            return agg(x0.a[0], x0.a[1], fs)
        return self.mk_cases(cs)

    def mk_cases(self, cs):
        if len({x for _, x in cs}) == 1:
            return cs[0][1]
        # drop literals common to every case
        cs = merge_cases(cs)
        if len(cs) == 1:
            return cs[0][1]
        common = set(cs[0][0])
        for l, _ in cs[1:]:
            common &= set(l)
        cs = tuple((tuple(y for y in l if y not in common), x) for l, x in cs)
        return mk("cases", cs)


def skeleton(v, d=0):
    """the variants a value is made of"""
    if isinstance(v, T) and v.op == "agg" and d < 6:
        return (v.a[0], v.a[1]) + tuple(skeleton(x, d + 1) for x in v.a[2])
    return None


_failures = {}
_sels = {}


def failure(v):
    """the variants of a value that stands for a failure, else None"""
    if not (isinstance(v, T) and v.op == "agg"):
        return None
    r = _failures.get(v, 0)
    if r == 0:
        r = skeleton(v)
        if not failed(r):
            r = None
        _failures[v] = r
    return r


def failed(sk):
    """whether a value of this make-up stands for a failure"""
    if sk is None:
        return False
    if (sk[0].startswith("Result") or sk[0].startswith("ControlFlow")) and sk[1] == 1:
        return True
    return any(failed(x) for x in sk[2:])


def merge_cases(cs):
    """join cases of the same value that differ in the outcome of one test only"""
    cs = [(tuple(l), frozenset(l), x) for l, x in cs]
    again = True
    while again:
        again = False
        seen = {}
        for i, (l, f, x) in enumerate(cs):
            for c, v in l:
                k = (f - {(c, v)}, x, c)
                j = seen.get(k)
                if j is not None and cs[j][1] != f:
                    cs[j] = (tuple(y for y in cs[j][0] if y[0] is not c), k[0], x)
                    del cs[i]
                    again = True
                    break
                seen[k] = i
            if again:
                break
    return [(l, x) for l, _, x in cs]


ITER_ADTS = {"Iter", "IterMut", "Map", "Enumerate", "Zip", "Take", "Skip", "Rev", "Copied", "Cloned", "Chain",
             "Filter", "FilterMap", "StepBy", "Windows", "Chunks", "ChunksExact", "IntoIter", "TakeWhile", "Peekable",
             "Drain", "Fuse", "Inspect", "FlatMap", "Range", "RangeInclusive"}


def subst_item(x, m, cache):
    if x[0] == "loop" and len(x) > 5:
        y = subst_item(x[:4], m, cache)
        return y + (x[4], frozenset((_subst(c, m, cache), v) for c, v in x[5]))
    if x[0] == "as":
        return ("as", _subst(x[1], m, cache), x[2])
    if x[0] == "ev":
        return ("ev", x[1], _subst(x[2], m, cache), _subst(x[3], m, cache), x[4])
    if x[0] == "loop":
        return ("loop", subst_loop(x[1], m, cache), _subst(x[2], m, cache), x[3])
    if x[0] == "join":
        r = SubstitutedJoin()
        r.src, r.m, r.cache = x[1], m, cache
        return ("join", r)
    return x


class SubstitutedJoin(Join):
    """the same with terms replaced in it, when asked for"""
    __slots__ = ("src", "m", "cache")

    def __getattr__(self, k):
        if k != "alts":
            raise AttributeError(k)
        self.alts = [[subst_item(y, self.m, self.cache) for y in p] for p in self.src.alts]
        return self.alts


class Substituted(Loop):
    """a loop with terms replaced in it; its parts are made when they are asked for"""
    __slots__ = ("src", "m", "cache")

    def __getattr__(self, k):
        n, m, cache = self.src, self.m, self.cache
        if k in ("it", "bv", "trip"):
            v = _subst(getattr(n, k), m, cache)
        elif k == "nexts":
            v = [[subst_item(y, m, cache) for y in p] for p in n.nexts]
        elif k == "exits":
            v = [([subst_item(y, m, cache) for y in p], q, g) for p, q, g in n.exits]
        elif k == "phis":
            v = {_subst(k, m, cache): (_subst(v[0], m, cache), [_subst(z, m, cache) for z in v[1]]) for k, v in n.phis.items()}
        else:
            raise AttributeError(k)
        setattr(self, k, v)
        return v


def subst_loop(n, m, cache):
    r = cache.get(("loop", id(n)))
    if r is not None:
        return r[1]
    r = Substituted()
    r.uid, r.where, r.exact, r.nstates, r.estates = n.uid, n.where, n.exact, (), ()
    r.src, r.m, r.cache = n, m, cache
    cache[("loop", id(n))] = (n, r)
    return r


def mentions(t, prefix, uid):
    if isinstance(t, tuple):
        return any(mentions(x, prefix, uid) for x in t)
    if not isinstance(t, T):
        return False
    if t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("phi%s" % ("(" + str(uid),)):
        return True
    return any(mentions(x, prefix, uid) for x in t.a)


INTISH = {"bitlen", "lin", "mono", "mulop", "ge", "eq", "rem", "div", "fdiv", "wrap", "max", "min", "bits", "pow2", "len", "clz", "srem", "bop"}


def E_int(t):
    return isinstance(t, int) or (isinstance(t, T) and is_intish(t))


def is_intish(t):
    if isinstance(t, int):
        return True
    if not isinstance(t, T):
        return False
    if t.op in INTISH:
        return True
    if t.op == "app":
        return bool(t.a[2]) and t.a[2][0] == "r"
    if t.op == "ite":
        return is_intish(t.a[1]) and is_intish(t.a[2])
    if t.op == "cases":
        return all(is_intish(v) for _, v in t.a[0])
    return False


SEQ = {"flat", "arr", "rep", "seqsym", "lam", "cat", "store", "lamst", "sub", "str", "map", "rev"}


def is_seq(t):
    if not isinstance(t, T):
        return False
    if t.op in SEQ:
        return True
    if t.op == "ite":
        return is_seq(t.a[1])
    if t.op == "cases":
        return all(is_seq(v) for _, v in t.a[0])
    return False


def seq_ety(s):
    op, a = s.op, s.a
    if op == "seqsym":
        return a[2]
    if op in ("store", "lamst", "sub", "rev"):
        return seq_ety(a[0])
    if op == "flat":
        return seq_ety(a[2])
    if op == "cat":
        for p in a[0]:
            e = seq_ety(p)
            if e is not None:
                return e
    return None


def short(d):
    return d.replace("std::", "").replace("core::", "")


class FactsDB:
    def __init__(self, data, ws):
        self.fns = data["fns"]
        self.tys = data["tys"]
        self.files = data["files"]
        self.ws = set(ws)
        for t in self.tys:
            if t["k"] == "adt" and "full" not in t:
                t["full"] = t["n"]
                t["n"] = t["n"].split("<")[0].rsplit("::", 1)[-1]
        self.roots = data["roots"]
        self.u8 = next((i for i, t in enumerate(self.tys) if t["k"] == "int" and t["n"] == "u8"), None)
        self.usize = next((i for i, t in enumerate(self.tys) if t["k"] == "int" and t["n"] == "usize"), None)
        self.u32 = next((i for i, t in enumerate(self.tys) if t["k"] == "int" and t["n"] == "u32"), None)

    def find(self, rx, body=True):
        r = re.compile(rx)
        return [f for f in self.fns if (r.search(f["name"])) and (not body or f.get("body"))]

    def ws_drop(self, i, seen=None):
        """does this drop glue run a destructor written in the workspace?"""
        c = self.__dict__.setdefault("_wsd", {})
        if i in c:
            return c[i]
        c[i] = False
        f = self.fns[i]
        r = False
        if f["name"].endswith("as std::ops::Drop>::drop"):
            r = f["crate"] in self.ws and f["crate"] != "vproots"
        elif f.get("body") and f["name"].startswith("std::ptr::drop_"):
            for b in f["body"]["blocks"]:
                t = b["t"]
                j = None
                if t[0] == "drop":
                    j = t[3]
                elif t[0] == "call" and self.tys[t[2]]["k"] == "fndef":
                    j = self.tys[t[2]].get("i")
                if j is not None and self.ws_drop(j):
                    r = True
                    break
        c[i] = r
        return r
