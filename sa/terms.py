"""Value-provenance domain.

An abstract value is a hash-consed term over the *sources* of a function (its
parameters, the results of the events it performs).  Integers are kept as canonical
polynomials over atoms with ranges; truth values are integers in [0,1].  Two
expressions that denote the same function of the sources normalise to the same term
for the arithmetic the analysed code uses, however they were written.
"""
from math import gcd

INF = 1 << 130


class T:
    __slots__ = ("op", "a", "id", "_r", "bl")

    def __repr__(self):
        return show(self)


_tab = {}


def bloom(x):
    """which names may occur in it: one of 512 bits for each"""
    if isinstance(x, T):
        return x.bl
    if isinstance(x, tuple):
        r = 0
        for y in x:
            if isinstance(y, T):
                r |= y.bl
            elif isinstance(y, tuple):
                r |= bloom(y)
        return r
    return 0


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.bl = bloom(a)
        if op in ("app", "sym", "seqsym"):
            t.bl |= 1 << (len(_tab) & 511)
        t.op = op
        t.a = a
        t.id = len(_tab)
        t._r = None
        _tab[k] = t
    return t


def is_int(t):
    return isinstance(t, int)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if isinstance(t, int):
        return str(t)
    if isinstance(t, (tuple, list)):
        return "(" + ",".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 10:
        return ".."
    op, a = t.op, t.a
    if op == "lin":
        s = []
        for at, c in a[1]:
            s.append(("" if c == 1 else "-" if c == -1 else str(c) + "*") + show(at, d + 1))
        if a[0]:
            s.append(str(a[0]))
        return "(" + "+".join(s) + ")"
    if op == "app":
        n, args, _ = a
        return str(n) + ("(" + ",".join(show(x, d + 1) for x in args) + ")" if args else "")
    if op == "agg":
        return f"{a[0]}#{a[1]}{{" + ",".join(show(x, d + 1) for x in a[2]) + "}"
    return op + "(" + ",".join(show(x, d + 1) for x in a) + ")"


# ---------------------------------------------------------------- polynomials
def parts(t):
    """(const, {atom: coef})"""
    if isinstance(t, int):
        return t, ()
    if t.op == "lin":
        return t.a
    return 0, ((t, 1),)


def lin(c, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda kv: kv[0].id))
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(*ts):
    c = 0
    d = {}
    for t in ts:
        if isinstance(t, int):
            c += t
            continue
        k, its = parts(t)
        c += k
        for at, v in its:
            d[at] = d.get(at, 0) + v
    return lin(c, d)


def scale(t, k):
    if k == 0:
        return 0
    c, its = parts(t)
    return lin(c * k, {a: v * k for a, v in its})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mono(atoms):
    flat = []
    for a in atoms:
        if a.op == "mono":
            flat.extend(a.a[0])
        else:
            flat.append(a)
    if len(flat) == 1:
        return flat[0]
    return mk("mono", tuple(sorted(flat, key=lambda x: x.id)))


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    ca, ia = parts(a)
    cb, ib = parts(b)
    if len(ia) * len(ib) > 16:
        return mk("mulop", *sorted((a, b), key=lambda x: x.id))
    r = scale(b, ca)
    for at, v in ia:
        r = add(r, scale(at, v * cb))
        for bt, w in ib:
            r = add(r, scale(mono((at, bt)), v * w))
    return r


INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE["u%d" % _b] = (0, (1 << _b) - 1)
    INT_RANGE["i%d" % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
INT_RANGE["usize"] = INT_RANGE["u64"]
INT_RANGE["isize"] = INT_RANGE["i64"]
INT_RANGE["bool"] = (0, 1)
INT_RANGE["char"] = (0, 0x10FFFF)
LEN_MAX = (1 << 60)
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64,
        "isize": 64, "u128": 128, "i128": 128}


def app(name, args=(), rg=None):
    """Uninterpreted source; rg = ('r',lo,hi) for integers, ('ty',id) otherwise."""
    return mk("app", name, tuple(args), rg)


def sym(name, lo, hi, args=()):
    return app(name, args, ("r", lo, hi))


NOFACTS = None


def rng(t, facts=None):
    if isinstance(t, int):
        return t, t
    if facts is None:
        if t._r is None:
            t._r = _rng(t, None)
        return t._r
    rc = facts.rc
    r = rc.get(t)
    if r is None:
        if len(rc) > 4000:
            rc.clear()
        r = rc[t] = _rng(t, facts)
    return r


def _rng(t, facts):
    op, a = t.op, t.a
    if op == "lin":
        lo = hi = a[0]
        for at, c in a[1]:
            l, h = rng(at, facts)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        if facts:
            l2, h2 = facts.lin_range(t)
            lo, hi = max(lo, l2), min(hi, h2)
        return lo, hi
    lo, hi = _rng0(t, facts)
    if facts:
        iv = facts.iv.get(t)
        if iv:
            lo, hi = max(lo, iv[0]), min(hi, iv[1])
    return lo, hi


def _rng0(t, facts):
    op, a = t.op, t.a
    if op == "app":
        rg = a[2]
        if rg and rg[0] == "r":
            return rg[1], rg[2]
        return -INF, INF
    if op in ("ge", "eq", "bop"):
        if facts is not None and op != "bop":
            d = facts.decide(t)
            if d is not None:
                return d, d
        return 0, 1
    if op == "bitlen":
        l, h = rng(a[0], facts)
        if l >= 0:
            return l.bit_length(), h.bit_length()
        return 0, a[1]
    if op == "len":
        return 0, LEN_MAX
    if op == "mono":
        lo = hi = 1
        for x in a[0]:
            l, h = rng(x, facts)
            c = (lo * l, lo * h, hi * l, hi * h)
            lo, hi = min(c), max(c)
        return lo, hi
    if op == "mulop":
        l, h = rng(a[0], facts)
        l2, h2 = rng(a[1], facts)
        c = (l * l2, l * h2, h * l2, h * h2)
        return min(c), max(c)
    if op == "rem":
        l, h = rng(a[1], facts)
        xl, xh = rng(a[0], facts)
        # euclidean (the truncating remainder of a negative number is a different operation, srem)
        return 0, max(0, min(xh, h - 1)) if xl >= 0 else max(0, h - 1)
    if op == "srem":
        l, h = rng(a[1], facts)
        m = max(abs(l), abs(h))
        return -m, m
    if op == "div":
        l, h = rng(a[0], facts)
        dl, dh = rng(a[1], facts)
        if l >= 0 and dl > 0:
            return l // dh, h // dl
        m = max(abs(l), abs(h))
        return -m, m
    if op == "fdiv":
        l, h = rng(a[0], facts)
        return l // a[1], h // a[1]
    if op == "pow2":
        l, h = rng(a[0], facts)
        if l >= 0 and h < 128:
            return 1 << l, 1 << h
        return 0, INF
    if op == "wrap":
        return INT_RANGE[a[0]]
    if op in ("max", "min"):
        rs = [rng(x, facts) for x in a[0]]
        f = max if op == "max" else min
        return f(r[0] for r in rs), f(r[1] for r in rs)
    if op == "bits":  # opaque bit operation on type
        return INT_RANGE[a[0]]
    if op == "ite":
        l, h = rng(a[1], facts)
        l2, h2 = rng(a[2], facts)
        return min(l, l2), max(h, h2)
    if op == "cases":
        rs = [rng(v, facts) for _, v in a[0]]
        return min(r[0] for r in rs), max(r[1] for r in rs)
    if op == "clz":
        return 0, a[1]
    return -INF, INF


def key(t):
    """Normal form K of t's linear part: t = c + g*s*K."""
    c, its = parts(t)
    g = 0
    for _, v in its:
        g = gcd(g, v)
    s = 1 if its[0][1] > 0 else -1
    if g == 1 and s == 1 and c == 0:
        return 0, 1, 1, t
    K = lin(0, {a: v // (g * s) for a, v in its})
    return c, g, s, K


def ge0(t):
    """t >= 0 as a truth value"""
    if isinstance(t, int):
        return int(t >= 0)
    lo, hi = rng(t)
    if lo >= 0:
        return 1
    if hi < 0:
        return 0
    its = t.a[1] if t.op == "lin" else ()
    if len(its) == 2 and its[0][0].op == "pow2" and its[1][0].op == "pow2" and its[0][1] == -its[1][1]:
        p = abs(its[0][1])
        a, b = (its[0][0], its[1][0]) if its[0][1] > 0 else (its[1][0], its[0][0])
        if -p < t.a[0] <= 0 or p == 1 and t.a[0] in (0, -1):
            # powers of two are ordered as their exponents
            return ge(a.a[0], b.a[0]) if t.a[0] == 0 else lt(b.a[0], a.a[0])
    c, g, s, K = key(t)
    if s > 0:
        return geK(K, -(c // g))  # K >= ceil(-c/g)
    return sub(1, geK(K, (c // g) + 1))  # K <= floor(c/g)


def geK(K, m):
    lo, hi = rng(K)
    if lo >= m:
        return 1
    if hi < m:
        return 0
    if lo == 0 and hi == 1 and m == 1:
        return K
    if K.op == "pow2" and m > 0:
        return ge(K.a[0], (m - 1).bit_length())
    if K.op == "mono" and m == 1 and lo >= 0:
        # a product of natural numbers is positive iff its factors are; drop those known to be
        rs = [rng(x) for x in K.a[0]]
        if all(r[0] >= 0 for r in rs) and any(r[0] > 0 for r in rs):
            fs = [x for x, r in zip(K.a[0], rs) if r[0] <= 0]
            return ge(mono(fs), 1) if fs else 1
    return mk("ge", K, m)


def eq0(t):
    if isinstance(t, int):
        return int(t == 0)
    lo, hi = rng(t)
    if lo > 0 or hi < 0:
        return 0
    c, g, s, K = key(t)
    if c % g:
        return 0
    v = -c // g * s
    if K is t and K.op == "mono":
        # a product is zero iff a factor is; drop factors known to be non-zero
        fs = [x for x in K.a[0] if not (rng(x)[0] > 0)]
        if len(fs) < len(K.a[0]) and v == 0:
            return eq0(mono(fs)) if fs else 0
    if K.op == "pow2":
        return eq(K.a[0], v.bit_length() - 1) if v > 0 and v & (v - 1) == 0 else 0
    lo, hi = rng(K)
    if v < lo or v > hi:
        return 0
    if lo == hi:
        return int(v == lo)
    if v == lo:
        return sub(1, geK(K, v + 1))
    if v == hi:
        return geK(K, v)
    return mk("eq", K, v)


def eq(a, b):
    return eq0(sub(a, b))


def ge(a, b):
    return ge0(sub(a, b))


def lt(a, b):
    return ge0(add(sub(b, a), -1))


def bnot(b):
    return sub(1, b)


# ---------------------------------------------------------------- machine integers
def wrap(ty, t, facts=None):
    lo, hi = INT_RANGE[ty]
    if isinstance(t, int):
        if lo <= t <= hi:
            return t
        n = hi - lo + 1
        return (t - lo) % n + lo
    l, h = rng(t, facts)
    if lo <= l and h <= hi:
        return t
    if lo == 0:
        return rem(t, hi + 1, facts)
    t2 = unwrap_mod(t, hi - lo + 1)
    if t2 is not t:
        return wrap(ty, t2, facts)
    if t.op == "wrap" and t.a[0] == ty:
        return t
    return mk("wrap", ty, t)


def unwrap_mod(t, b):
    """same value modulo b (a power of two) with inner reductions modulo multiples of b removed"""
    c, its = parts(t)
    hit = False
    ps = [c]
    for x, v in its:
        if x.op == "wrap" and (1 << BITS[x.a[0]]) % b == 0:
            ps.append(scale(x.a[1], v))
            hit = True
        elif x.op == "rem" and isinstance(x.a[1], int) and x.a[1] % b == 0:
            ps.append(scale(x.a[0], v))
            hit = True
        elif x.op == "mono" and any(y.op == "rem" and isinstance(y.a[1], int) and y.a[1] % b == 0 for y in x.a[0]):
            r = v
            for y in x.a[0]:
                r = mul(r, y.a[0] if y.op == "rem" and isinstance(y.a[1], int) and y.a[1] % b == 0 else y)
            ps.append(r)
            hit = True
        else:
            ps.append(scale(x, v))
    return add(*ps) if hit else t


def rem(a, b, facts=None):
    """a mod b; euclidean for b a power of two (machine wrapping), b > 0"""
    if isinstance(a, int) and isinstance(b, int):
        return a % b if b else 0
    if isinstance(b, int):
        if b == 1:
            return 0
        l, h = rng(a, facts)
        if 0 <= l and h < b:
            return a
        c, its = parts(a)
        # drop multiples of b
        d = {x: v % b if b & (b - 1) == 0 else v for x, v in its}
        n = lin(c % b, {x: v for x, v in d.items() if v})
        if isinstance(n, int):
            return n % b
        l, h = rng(n, facts)
        if 0 <= l and h < b:
            return n
        # a difference that has wrapped around
        if b & (b - 1) == 0 and (c % b > b // 2 or any(v > b // 2 for v in d.values())):
            c2 = c % b
            n2 = lin(c2 - b if c2 > b // 2 else c2, {x: v - b if v > b // 2 else v for x, v in d.items() if v})
            l, h = rng(n2, facts)
            if 0 <= l and h < b:
                return n2
        if b & (b - 1) == 0:
            n2 = unwrap_mod(n, b)
            if n2 is not n:
                return rem(n2, b, facts)
        # (rem(x, k*b)) mod b = x mod b
        if n.op == "rem" and isinstance(n.a[1], int) and n.a[1] % b == 0:
            return rem(n.a[0], b, facts)
        if n.op == "wrap" and b & (b - 1) == 0 and b <= (1 << BITS[n.a[0]]):
            return rem(n.a[1], b, facts)
        # common factor of two: 2^k*x mod 2^m = 2^k*(x mod 2^(m-k))
        if b & (b - 1) == 0:
            c, its = parts(n)
            g = c
            for _, v in its:
                g = gcd(g, v)
            g = g & -g
            if g > 1:
                g = min(g, b)
                return scale(rem(lin(c // g, {x: v // g for x, v in its}), b // g, facts), g)
            # split low part: if the part not divisible by 2^k is < 2^k
            r = _split_low(n, b, facts)
            if r is not None:
                return r
        return mk("rem", n, b)
    if isinstance(b, T) and b.op == "app" or True:
        return mk("rem", a, b)


def _split_low(n, b, facts):
    """n = L + 2^k*H with 0<=L<2^k: n mod b = L + 2^k*(H mod b/2^k)"""
    c, its = parts(n)
    vs = sorted({(v & -v) for _, v in its if v > 0})
    if any(v < 0 for _, v in its) or c < 0:
        return None
    for p in vs[1:]:
        low = lin(c % p, {x: v for x, v in its if v % p})
        high = lin(c // p, {x: v // p for x, v in its if v % p == 0})
        l, h = rng(low, facts)
        if 0 <= l and h < p <= b:
            return add(low, scale(rem(high, b // p, facts), p))
    return None


def div(a, b, facts=None):
    """truncating division, exact semantics for a >= 0, b > 0; otherwise opaque"""
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            return 0
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q
    if isinstance(b, int) and b > 0:
        if b == 1:
            return a
        l, h = rng(a, facts)
        if l >= 0:
            if h < b:
                return 0
            c, its = parts(a)
            # split exact multiples
            hi_ = {x: v // b for x, v in its if v % b == 0}
            lo_ = {x: v for x, v in its if v % b}
            if hi_ or c >= b or c < 0:
                rest = lin(c % b, lo_)
                q = lin(c // b, hi_)
                rl, rh = rng(rest, facts)
                if rl >= 0 and (not isinstance(q, int) or q):
                    return add(q, div(rest, b, facts))
            c, its = parts(a)
            g = b
            for _, v in its:
                g = gcd(g, v)
            if g > 1:
                return div(lin(c // g, {x: v // g for x, v in its}), b // g, facts)
            if isinstance(a, T) and a.op == "div" and isinstance(a.a[1], int):
                return div(a.a[0], a.a[1] * b, facts)
            # (x mod 2^m) div 2^k = (x div 2^k) mod 2^(m-k)
            if a.op == "rem" and isinstance(a.a[1], int) and a.a[1] % b == 0 and b & (b - 1) == 0 \
                    and a.a[1] & (a.a[1] - 1) == 0 and rng(a.a[0], facts)[0] >= 0:
                return rem(div(a.a[0], b, facts), a.a[1] // b, facts)
            # split low part
            if b & (b - 1) == 0:
                vs = sorted({(v & -v) for _, v in its if v > 0})
                if not any(v < 0 for _, v in its):
                    for p in vs:
                        low = lin(c % p, {x: v for x, v in its if v % p})
                        high = lin(c // p, {x: v // p for x, v in its if v % p == 0})
                        l2, h2 = rng(low, facts)
                        if low != 0 and 0 <= l2 and h2 < p <= b:
                            return div(high, b // p, facts)
    return mk("div", a, b)


def pow2(k, facts=None):
    if isinstance(k, int):
        return 1 << k if 0 <= k < 200 else 0
    c, its = parts(k)
    if c > 0:
        return scale(pow2(lin(0, dict(its))), 1 << c)
    return mk("pow2", k)


def shl(ty, x, k, facts=None):
    k = rem(k, BITS[ty], facts)
    return wrap(ty, mul(x, pow2(k)), facts)


def shr(ty, x, k, facts=None):
    k = rem(k, BITS[ty], facts)
    if isinstance(k, int):
        if k == 0:
            return x
        l, h = rng(x, facts)
        if l >= 0:
            return div(x, 1 << k, facts)
        # arithmetic shift: floor division
        if isinstance(x, int):
            return x >> k
        # (2^k * y) as signed >> k with no overflow
        c, its = parts(x)
        if c % (1 << k) == 0 and all(v % (1 << k) == 0 for _, v in its):
            return lin(c >> k, {a: v >> k for a, v in its})
        return mk("fdiv", x, 1 << k)
    if rng(x, facts)[0] >= 0:
        return mk("div", x, pow2(k)) if not isinstance(x, int) or x else 0
    return mk("shr", ty, x, k)


def support(t, facts=None):
    """bits that may be set (mask), for t >= 0"""
    if isinstance(t, int):
        return t if t >= 0 else -1
    l, h = rng(t, facts)
    if l < 0 or h >= INF:
        return -1
    if t.op == "lin":
        m = t.a[0]
        if m < 0:
            return (1 << h.bit_length()) - 1
        ok = True
        for x, v in t.a[1]:
            if v <= 0 or v & (v - 1):
                ok = False
                break
            s = support(x, facts)
            if s < 0:
                ok = False
                break
            s *= v
            if s & m:
                ok = False
                break
            m |= s
        if ok:
            return m
    return (1 << h.bit_length()) - 1


def bor(ty, a, b, facts=None):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if a == b:
        return a
    if a == 0:
        return b
    if b == 0:
        return a
    sa, sb = support(a, facts), support(b, facts)
    if sa >= 0 and sb >= 0 and sa & sb == 0:
        return add(a, b)
    if rng(a)[0] >= 0 and rng(b)[0] >= 0 and rng(a)[1] <= 1 and rng(b)[1] <= 1:
        return bnot(band("bool", bnot(a), bnot(b)))
    if isinstance(a, int) or (isinstance(b, T) and b.id < a.id):
        a, b = b, a
    return mk("bits", ty, "or", a, b)


def band(ty, a, b, facts=None):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if a == b:
        return a
    if isinstance(a, int):
        a, b = b, a
    if b == 0:
        return 0
    if isinstance(b, int):
        l, h = rng(a, facts)
        if b < 0 and INT_RANGE.get(ty, (0,))[0] < 0:
            if b == -1:
                return a
        if b >= 0:
            if l >= 0 and support(a, facts) >= 0:
                sa = support(a, facts)
                if sa & b == 0:
                    return 0
                if sa & ~b == 0:
                    return a
            if b & (b + 1) == 0:
                return rem(a, b + 1, facts)
            # contiguous mask
            low = b & -b
            if ((b // low) & (b // low + 1)) == 0 and l >= 0:
                return scale(rem(div(a, low, facts), b // low + 1, facts), low)
    for x, y in ((a, b), (b, a)):
        if isinstance(y, T) and y.op == "pow2" and rng(x, facts)[0] >= 0:
            bit = rem(div(x, y, facts), 2, facts)
            return mul(y, bit)
    # mask 2^k - 1 with symbolic k
    for x, y in ((a, b), (b, a)):
        if isinstance(y, T) and y.op == "lin" and y.a[0] == -1 and len(y.a[1]) == 1 and y.a[1][0][1] == 1 \
                and y.a[1][0][0].op == "pow2":
            return mk("rem", x, y.a[1][0][0])
    if rng(a)[0] >= 0 and rng(b)[0] >= 0 and rng(a)[1] <= 1 and rng(b)[1] <= 1:
        return mul(a, b)
    if isinstance(b, T) and b.id < a.id:
        a, b = b, a
    return mk("bits", ty, "and", a, b)


def bxor(ty, a, b, facts=None):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    if rng(a)[0] >= 0 and rng(b)[0] >= 0 and rng(a)[1] <= 1 and rng(b)[1] <= 1:
        if isinstance(a, int):
            a, b = b, a
        if b == 1:
            return bnot(a)
        return sub(add(a, b), scale(mul(a, b), 2))
    if isinstance(a, int) or (isinstance(b, T) and b.id < a.id):
        a, b = b, a
    return mk("bits", ty, "xor", a, b)


def tmax(ts):
    ts = list(dict.fromkeys(ts))
    if all(isinstance(x, int) for x in ts):
        return max(ts)
    c = [x for x in ts if isinstance(x, int)]
    v = [x for x in ts if not isinstance(x, int)]
    if c:
        m = max(c)
        if any(rng(x)[0] >= m for x in v):
            c = []
        else:
            v = [x for x in v if rng(x)[1] > m]
            if not v:
                return m
            c = [m]
    fl = []
    for x in v:
        fl.append(x)
    if len(fl) + len(c) == 1:
        return (fl + c)[0]
    return mk("max", tuple(sorted(fl, key=lambda x: x.id)) + tuple(c))


def tmin(ts):
    ts = list(dict.fromkeys(ts))
    if all(isinstance(x, int) for x in ts):
        return min(ts)
    c = [x for x in ts if isinstance(x, int)]
    v = [x for x in ts if not isinstance(x, int)]
    if c:
        m = min(c)
        if any(rng(x)[1] <= m for x in v):
            c = []
        else:
            v = [x for x in v if rng(x)[0] < m]
            if not v:
                return m
            c = [m]
    if len(v) + len(c) == 1:
        return (v + c)[0]
    return mk("min", tuple(sorted(v, key=lambda x: x.id)) + tuple(c))


# ---------------------------------------------------------------- bit view
def bitlist(t, n):
    """The n low bits of t as a list of 0 | 1 | (atom, index), or None if not expressible."""
    if isinstance(t, int):
        return [(t >> i) & 1 for i in range(n)]
    op, a = t.op, t.a
    if op == "rem" and isinstance(a[1], int) and a[1] & (a[1] - 1) == 0:
        k = a[1].bit_length() - 1
        b = bitlist(a[0], min(n, k))
        return None if b is None else b + [0] * (n - len(b))
    if op == "div" and isinstance(a[1], int) and a[1] & (a[1] - 1) == 0:
        k = a[1].bit_length() - 1
        b = bitlist(a[0], n + k)
        return None if b is None else b[k:]
    if op == "wrap":
        w = BITS[a[0]]
        b = bitlist(a[1], min(n, w))
        if b is None:
            return None
        while len(b) < n:
            b.append(b[w - 1])
        return b
    if op == "fdiv":
        # arithmetic shift: sign fill needs the width; use wide view
        k = a[1].bit_length() - 1
        b = bitlist(a[0], n + k)
        return None if b is None else b[k:]
    if op == "lin":
        res = [(a[0] >> i) & 1 for i in range(n)] if a[0] >= 0 else None
        if res is None:
            return None
        for at, c in a[1]:
            if c <= 0 or c & (c - 1):
                return None
            k = c.bit_length() - 1
            if k >= n:
                continue
            b = bitlist(at, n - k)
            if b is None:
                return None
            for i, x in enumerate(b):
                if x != 0:
                    if res[i + k] != 0:
                        return None
                    res[i + k] = x
        return res
    if op == "bits" and a[1] == "or":
        x, y = bitlist(a[2], n), bitlist(a[3], n)
        if x is None or y is None:
            return None
        r = []
        for p, q in zip(x, y):
            if p == 0:
                r.append(q)
            elif q == 0 or p == q:
                r.append(p)
            elif p == 1 or q == 1:
                r.append(1)
            else:
                return None
        return r
    if op == "bits" and a[1] == "and":
        x, y = bitlist(a[2], n), bitlist(a[3], n)
        if x is None or y is None:
            return None
        r = []
        for p, q in zip(x, y):
            if p == 0 or q == 0:
                r.append(0)
            elif p == 1:
                r.append(q)
            elif q == 1 or p == q:
                r.append(p)
            else:
                return None
        return r
    if op == "bits" and a[1] == "rev":
        w = BITS[a[0]]
        x = bitlist(a[2], w)
        if x is None:
            return None
        x = x[::-1][:n]
        return x + [0] * (n - len(x))
    l, h = rng(t)
    if l >= 0 and h < (1 << 128):
        w = h.bit_length()
        return [(t, i) if i < w else 0 for i in range(n)]
    if op == "app" and l >= -(1 << 127) and h < (1 << 127):
        w = max((-l - 1).bit_length(), h.bit_length()) + 1
        return [(t, min(i, w - 1)) for i in range(n)]
    return None


# ---------------------------------------------------------------- facts
class Facts:
    # rc and lk are remembered answers: whoever changes iv, ne or bv clears rc
    __slots__ = ("iv", "ne", "bv", "rc", "lk")

    def __init__(self, iv=None, ne=None, bv=None):
        self.iv = iv if iv is not None else {}
        self.ne = ne if ne is not None else frozenset()
        self.bv = bv if bv is not None else {}
        self.rc = {}
        self.lk = None

    def lins(self):
        """the linear combinations that bounds are known of"""
        if self.lk is None or self.lk[0] != len(self.iv):
            self.lk = (len(self.iv), [(k, dict(k.a[1]), k.a[1][0][0]) for k in self.iv if isinstance(k, T) and k.op == "lin"])
        return self.lk[1]

    def copy(self):
        return Facts(dict(self.iv), self.ne, dict(self.bv))

    def common(self, o):
        """what both know"""
        return Facts({k: v for k, v in self.iv.items() if o.iv.get(k) == v}, self.ne & o.ne,
                     {k: v for k, v in self.bv.items() if o.bv.get(k) == v})

    def lin_range(self, t):
        c, its = t.a
        lo, hi = -INF, INF
        c, g, s, K = key(t)
        iv = self.iv.get(K) if K is not t else self.iv.get(t)
        if iv:
            l, h = iv
            if s > 0:
                lo, hi = c + g * l, c + g * h
            else:
                lo, hi = c - g * h, c - g * l
        # one split step: t = (known combination) + rest
        if len(its) >= 2 and len(self.iv) < 400:
            d = dict(its)
            for K2, k2, a0 in self.lins():
                if not K2.bl & ~t.bl:
                    if a0 not in d or not all(x in d for x in k2):
                        continue
                    l, h = self.iv[K2]
                    v = d[a0]
                    if v % k2[a0]:
                        continue
                    f = v // k2[a0]
                    rest = dict(d)
                    for x, w in k2.items():
                        rest[x] = rest[x] - f * w
                    r = lin(c if K is not t else t.a[0], rest)
                    r = lin(t.a[0], rest)
                    nz = sum(1 for v in rest.values() if v)
                    if nz >= len(its):
                        continue
                    rl, rh = rng(r) if isinstance(r, int) else (0, 0)
                    if not isinstance(r, int):
                        rl = rh = parts(r)[0]
                        for x, w in parts(r)[1]:
                            xl, xh = rng(x, self)
                            rl += w * (xl if w > 0 else xh)
                            rh += w * (xh if w > 0 else xl)
                    if f > 0:
                        lo, hi = max(lo, f * l + rl), min(hi, f * h + rh)
                    else:
                        lo, hi = max(lo, f * h + rl), min(hi, f * l + rh)
        return lo, hi

    def decide(self, t):
        """1, 0 or None"""
        if isinstance(t, int):
            return int(t != 0)
        v = self.bv.get(t)
        if v is not None:
            return v
        if t.op == "lin":
            l, h = rng(t, self)
            if l > 0:
                return 1
            if h < 0 or (l == 0 and h == 0):
                return 0
            c, its = t.a
            if c == 1 and len(its) == 1 and its[0][1] == -1:
                r = self.decide(its[0][0])
                return None if r is None else 1 - r
            return None
        if t.op == "ge":
            l, h = rng(t.a[0], self)
            if l >= t.a[1]:
                return 1
            if h < t.a[1]:
                return 0
            return None
        if t.op == "eq":
            K, v = t.a
            l, h = rng(K, self)
            if v < l or v > h:
                return 0
            if l == h:
                return 1
            if (K, v) in self.ne:
                return 0
            return None
        l, h = rng(t, self)
        if l > 0:
            return 1
        if h <= 0:
            return 0
        return None

    def assume(self, t, val):
        """new Facts or None when contradictory"""
        if isinstance(t, int):
            return self if bool(t) == bool(val) else None
        d = self.decide(t)
        if d is not None:
            return self if d == int(bool(val)) else None
        if t.op == "lin":
            c, its = t.a
            if c == 1 and len(its) == 1 and its[0][1] == -1:
                return self.assume(its[0][0], not val)
        f = self.copy()
        if t.op == "ge":
            K, m = t.a
            f._iv(K, m if val else -INF, INF if val else m - 1)
            l, h = rng(K, f)
        elif t.op == "eq":
            K, v = t.a
            if val:
                f._iv(K, v, v)
            else:
                l, h = rng(K, self)
                if v == l:
                    f._iv(K, v + 1, INF)
                elif v == h:
                    f._iv(K, -INF, v - 1)
                else:
                    f.ne = f.ne | {(K, v)}
                    f.rc.clear()
            l, h = rng(K, f)
        elif t.op == "lin" or rng(t)[0] < 0 or rng(t)[1] > 1:
            r = self.assume(eq0(t), not val)
            return r
        else:
            f.bv[t] = int(bool(val))
            f.rc.clear()
            f._iv(t, int(bool(val)), int(bool(val)))
            if t.op == "mono" and val:
                for x in t.a[0]:
                    f = f.assume(x, True)
                    if f is None:
                        return None
            return f
        if l > h:
            return None
        for _ in range(4):
            moved = False
            for (K2, v) in f.ne:
                l, h = rng(K2, f)
                if l == h == v:
                    return None
                if v == l:
                    f._iv(K2, v + 1, INF)
                    moved = True
                elif v == h:
                    f._iv(K2, -INF, v - 1)
                    moved = True
            if not moved:
                break
        return f

    def _iv(self, K, lo, hi):
        l, h = self.iv.get(K, (-INF, INF))
        self.iv[K] = (max(l, lo), min(h, hi))
        self.rc.clear()
        if K.op == "lin" and len(K.a[1]) == 1 and K.a[1][0][1] == 1:
            x = K.a[1][0][0]
            c = K.a[0]
            l, h = self.iv[K]
            self._iv(x, l - c, h - c)
        elif K.op == "lin" and len(K.a[1]) <= 10:
            # bounds of the whole bound its parts
            l, h = self.iv[K]
            c, its = K.a
            rs = [rng(x, self) for x, _ in its]
            tot_lo = c + sum(v * (r[0] if v > 0 else r[1]) for (x, v), r in zip(its, rs))
            tot_hi = c + sum(v * (r[1] if v > 0 else r[0]) for (x, v), r in zip(its, rs))
            for (x, v), (xl, xh) in zip(its, rs):
                if not isinstance(x, T):
                    continue
                ol = tot_lo - v * (xl if v > 0 else xh)
                oh = tot_hi - v * (xh if v > 0 else xl)
                # v*x <= h - ol ; v*x >= l - oh
                if v > 0:
                    nh = (h - ol) // v if h < INF else INF
                    nl = -((oh - l) // v) if l > -INF else -INF
                else:
                    nl = -((h - ol) // -v) if h < INF else -INF
                    nh = (oh - l) // -v if l > -INF else INF
                if nl > xl or nh < xh:
                    k2 = x
                    a, b = self.iv.get(k2, (-INF, INF))
                    self.iv[k2] = (max(a, nl), min(b, nh))
                    self.rc.clear()
