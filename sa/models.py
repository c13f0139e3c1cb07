"""Abstract transformers of the standard-library (and container-crate) functions.

Each model is fn(engine, state, call) -> list of (state, value) | None (fall through).
"""
import re
from terms import *
import engine as E
from engine import (Dead, NeedFork, Unsupported, agg, ref, tup, some, NONE, ok, err, UNIT, EMPTY, cat, slen, ssub, store, ite,
                    is_seq, is_intish, seq_ety)

MODELS = []


def model(*pats):
    def deco(f):
        for p in pats:
            MODELS.append((re.compile(p), f))
        return f
    return deco


# ---------------------------------------------------------------- helpers
def forking(eng, st, f):
    """f(state) -> outcomes; re-run on both sides of every undecided condition"""
    w = st.clone()
    try:
        return f(w)
    except Dead:
        return []
    except NeedFork as nf:
        r = []
        for s in eng.fork(st, nf.cond):
            r.extend(forking(eng, s, f))
        return r


def bound(eng, st, cond, why="index"):
    """a condition whose failure panics"""
    d = st.facts.decide(cond)
    if d is not None:
        if d:
            return True
        return False
    if eng.opts["panics"]:
        raise NeedFork(cond)
    f = st.facts.assume(cond, True)
    if f is None:
        return False
    st.facts = f
    return True


def dead(eng, st, c, why):
    return [("panic", st, (why, c.frame.fn["name"] if c.frame else "", eng.span(c.span) if c.span else ""))] \
        if eng.opts["panics"] else []


def loc_of(eng, st, v):
    """location designated by a reference value"""
    v = eng.force(v, st)
    return eng.deref(v, st)


def inner_loc(eng, st, v):
    """follow references to the location of a non-reference value"""
    loc = loc_of(eng, st, v)
    for _ in range(6):
        x = eng.force(eng.load(st, loc), st)
        if isinstance(x, T) and x.op == "ref":
            loc = (x.a[0], x.a[1])
            continue
        if isinstance(x, T) and x.op == "agg" and x.a[0] == "Box":
            return (loc[0], loc[1] + (("f", 0, 0, None),))
        break
    return loc


def seq_at(eng, st, v):
    loc = inner_loc(eng, st, v)
    x = eng.force(eng.load(st, loc), st)
    if isinstance(x, T) and x.op == "agg" and x.a[0] == "Cow":
        loc = inner_loc(eng, st, ref(loc[0], loc[1] + (("f", x.a[1], 0, None),))) if x.a[1] == 1 else \
            inner_loc(eng, st, x.a[2][0])
        x = eng.force(eng.load(st, loc), st)
    return loc, x


def ety_of(eng, c, i, s):
    """element type of the sequence behind argument i"""
    ti = c.aty[i] if i < len(c.aty) else None
    n = 0
    while ti is not None and n < 6:
        e = eng.elem_ty(ti)
        if e is not None:
            return e
        t = eng.ty[ti]
        if t["k"] == "adt" and t["n"] == "Cow":
            ti = t["a"][0]
            continue
        ti = eng.pointee(ti)
        n += 1
    if s is not None and isinstance(s, T):
        return seq_ety(s)
    return None


def elem_ref(loc, i, ety):
    return ref(loc[0], loc[1] + (("i", i, ety),))


def range_of(eng, st, idx, n):
    """(lo, hi) of a range-typed index value over a sequence of length n"""
    idx = eng.deval(idx, st)
    if not (isinstance(idx, T) and idx.op == "agg"):
        return None
    t = idx.a[0]
    f = idx.a[2]
    if t == "Range":
        return f[0], f[1]
    if t == "RangeTo":
        return 0, f[0]
    if t == "RangeFrom":
        return f[0], n
    if t == "RangeFull":
        return 0, n
    if t == "RangeInclusive":
        return f[0], add(f[1], 1)
    if t == "RangeToInclusive":
        return 0, add(f[0], 1)
    return None


def conj(cs):
    r = 1
    for x in cs:
        r = mul(r, x)
    return r


def iuid(c, tag):
    return ("M", c.frame.fid if c.frame else 0, c.bb if not isinstance(c.bb, tuple) else str(c.bb), tag)


def where_of(eng, c):
    return eng.span(c.span) if c.span else ""


# ---------------------------------------------------------------- integers
NUM = r"^core::num::<impl (u8|u16|u32|u64|usize|u128|i8|i16|i32|i64|isize|i128)>::"


def num_ty(c):
    return re.match(NUM, c.defn).group(1)


def args_int(eng, st, c):
    return [eng.deval(a, st) for a in c.args]


@model(NUM + r"(wrapping|unchecked)_(add|sub|mul)$", NUM + r"(strict)_(add|sub|mul)$")
def m_wrapping(eng, st, c):
    ty = num_ty(c)
    a, b = args_int(eng, st, c)
    op = c.defn.rsplit("_", 1)[1]
    return [(st, wrap(ty, {"add": add, "sub": sub, "mul": mul}[op](a, b), st.facts))]


@model(NUM + r"wrapping_neg$")
def m_wneg(eng, st, c):
    return [(st, wrap(num_ty(c), neg(args_int(eng, st, c)[0]), st.facts))]


@model(NUM + r"saturating_(add|sub|mul)$")
def m_sat(eng, st, c):
    ty = num_ty(c)
    a, b = args_int(eng, st, c)
    op = c.defn.rsplit("_", 1)[1]
    x = {"add": add, "sub": sub, "mul": mul}[op](a, b)
    lo, hi = INT_RANGE[ty]
    l, h = rng(x, st.facts)
    if l < lo:
        x = tmax((x, lo))
    if h > hi:
        x = tmin((x, hi))
    return [(st, x)]


@model(NUM + r"saturating_pow$")
def m_satpow(eng, st, c):
    ty = num_ty(c)
    a, b = args_int(eng, st, c)
    lo, hi = INT_RANGE[ty]
    if isinstance(a, int) and isinstance(b, int):
        return [(st, max(lo, min(hi, a ** b)))]
    return [(st, app("satpow:" + ty, (a, b), ("r", lo, hi)))]


@model(NUM + r"pow$")
def m_pow(eng, st, c):
    ty = num_ty(c)
    a, b = args_int(eng, st, c)
    lo, hi = INT_RANGE[ty]
    if isinstance(a, int) and isinstance(b, int):
        return [(st, wrap(ty, a ** b))]
    if a == 2:
        return [(st, wrap(ty, pow2(b), st.facts))]
    return [(st, app("pow:" + ty, (a, b), ("r", lo, hi)))]


@model(NUM + r"checked_pow$")
def m_chkpow(eng, st, c):
    ty = num_ty(c)
    a, b = args_int(eng, st, c)
    lo, hi = INT_RANGE[ty]
    if isinstance(a, int) and isinstance(b, int):
        x = a ** b
        return [(st, some(x) if lo <= x <= hi else NONE)]
    cnd = app("powfits:" + ty, (a, b), ("r", 0, 1))
    d = st.facts.decide(cnd)
    if d is None:
        raise NeedFork(cnd)
    return [(st, some(app("pow:" + ty, (a, b), ("r", lo, hi))) if d else NONE)]


@model(NUM + r"(checked|overflowing)_(add|sub|mul|neg)$")
def m_checked(eng, st, c):
    ty = num_ty(c)
    xs = args_int(eng, st, c)
    op = c.defn.rsplit("_", 1)[1]
    x = neg(xs[0]) if op == "neg" else {"add": add, "sub": sub, "mul": mul}[op](*xs)
    lo, hi = INT_RANGE[ty]
    cnd = mul(ge(x, lo), ge(hi, x))
    if "overflowing" in c.defn:
        return [(st, tup(wrap(ty, x, st.facts), bnot(cnd)))]
    d = st.facts.decide(cnd)
    if d is None:
        raise NeedFork(cnd)
    return [(st, some(x) if d else NONE)]


@model(NUM + r"checked_(div|rem|rem_euclid|div_euclid)$")
def m_chkdiv(eng, st, c):
    a, b = args_int(eng, st, c)
    cnd = eq(b, 0)
    d = st.facts.decide(cnd)
    if d is None:
        raise NeedFork(cnd)
    if d:
        return [(st, NONE)]
    return [(st, some(rem(a, b, st.facts) if "rem" in c.defn else div(a, b, st.facts)))]


@model(NUM + r"div_ceil$")
def m_divceil(eng, st, c):
    a, b = args_int(eng, st, c)
    return [(st, div(add(a, sub(b, 1)), b, st.facts))]


@model(NUM + r"(rem_euclid|div_euclid)$")
def m_reme(eng, st, c):
    a, b = args_int(eng, st, c)
    if rng(a, st.facts)[0] >= 0:
        return [(st, rem(a, b, st.facts) if "rem" in c.defn else div(a, b, st.facts))]
    return [(st, app(c.defn[-10:], (a, b), ("r",) + INT_RANGE[num_ty(c)]))]


@model(NUM + r"checked_sh[lr]$", NUM + r"wrapping_sh[lr]$", NUM + r"unbounded_sh[lr]$", NUM + r"overflowing_sh[lr]$")
def m_shift(eng, st, c):
    ty = num_ty(c)
    a, b = args_int(eng, st, c)
    f = shl if c.defn.endswith("shl") else shr
    if "wrapping" in c.defn:
        return [(st, f(ty, a, b, st.facts))]
    cnd = lt(b, BITS[ty])
    d = st.facts.decide(cnd)
    if d is None:
        raise NeedFork(cnd)
    if "checked" in c.defn:
        return [(st, some(f(ty, a, b, st.facts)) if d else NONE)]
    if "overflowing" in c.defn:
        return [(st, tup(f(ty, a, b, st.facts), bnot(d)))]
    return [(st, f(ty, a, b, st.facts) if d else 0)]


@model(NUM + r"rotate_(left|right)$")
def m_rot(eng, st, c):
    ty = num_ty(c)
    a, k = args_int(eng, st, c)
    n = BITS[ty]
    if isinstance(k, int):
        k %= n
        if c.defn.endswith("left"):
            k = (n - k) % n
        if k == 0:
            return [(st, a)]
        return [(st, add(div(a, 1 << k, st.facts), scale(rem(a, 1 << k, st.facts), 1 << (n - k))))]
    return [(st, mk("bits", ty, "rot" + c.defn[-5:], a, k))]


@model(NUM + r"reverse_bits$")
def m_rev(eng, st, c):
    ty = num_ty(c)
    a, = args_int(eng, st, c)
    n = BITS[ty]
    if isinstance(a, int):
        return [(st, int(format(a, "0%db" % n)[::-1], 2))]
    return [(st, mk("bits", ty, "rev", a))]


@model(NUM + r"(leading_zeros|trailing_zeros|count_ones|count_zeros|leading_ones|trailing_ones|ilog2|checked_ilog2|bit_width)$")
def m_clz(eng, st, c):
    ty = num_ty(c)
    a, = args_int(eng, st, c)
    n = BITS[ty]
    name = c.defn.rsplit("::", 1)[1]
    if isinstance(a, int):
        u = a & ((1 << n) - 1)
        if name == "leading_zeros":
            return [(st, n - u.bit_length())]
        if name == "trailing_zeros":
            return [(st, (u & -u).bit_length() - 1 if u else n)]
        if name == "count_ones":
            return [(st, bin(u).count("1"))]
        if name == "ilog2" and u:
            return [(st, u.bit_length() - 1)]
    if name == "leading_zeros":
        return [(st, sub(n, mk("bitlen", a, n)))]
    if name == "ilog2":
        return [(st, add(mk("bitlen", a, n), -1))]
    return [(st, app(name + ":" + ty, (a,), ("r", 0, n)))]


@model(NUM + r"(is_power_of_two|is_negative|is_positive|signum|abs|unsigned_abs|abs_diff|next_power_of_two|isqrt)$")
def m_misc(eng, st, c):
    xs = args_int(eng, st, c)
    name = c.defn.rsplit("::", 1)[1]
    if name == "is_negative":
        return [(st, lt(xs[0], 0))]
    if name == "is_positive":
        return [(st, lt(0, xs[0]))]
    if name == "abs_diff":
        d = sub(xs[0], xs[1])
        return [(st, tmax((d, neg(d))))]
    if name in ("abs", "unsigned_abs"):
        return [(st, tmax((xs[0], neg(xs[0]))))]
    return [(st, app(name, tuple(xs), ("r", 0, 1) if name.startswith("is_") else ("r",) + INT_RANGE[num_ty(c)]))]


@model(NUM + r"(to_le_bytes|to_be_bytes|to_ne_bytes)$")
def m_tobytes(eng, st, c):
    ty = num_ty(c)
    a, = args_int(eng, st, c)
    n = BITS[ty] // 8
    u = wrap("u" + ty[1:], a, st.facts) if ty[0] == "i" and ty != "isize" else a
    if rng(u, st.facts)[0] < 0:
        u = rem(u, 1 << (8 * n), st.facts)
    bs = [rem(div(u, 1 << (8 * i), st.facts), 256, st.facts) for i in range(n)]
    if "_be_" in c.defn:
        bs.reverse()
    return [(st, mk("arr", tuple(bs)))]


@model(NUM + r"(from_le_bytes|from_be_bytes|from_ne_bytes)$")
def m_frombytes(eng, st, c):
    ty = num_ty(c)
    s = eng.deval(c.args[0], st)
    n = BITS[ty] // 8
    bs = [eng.deval(eng.sel(s, i, eng.F.u8, st), st) for i in range(n)]
    if "_be_" in c.defn:
        bs.reverse()
    x = 0
    for i, b in enumerate(bs):
        x = add(x, scale(b, 1 << (8 * i)))
    return [(st, wrap(ty, x, st.facts))]


@model(r"^std::num::NonZero::<T>::new$")
def m_nznew(eng, st, c):
    a = eng.deval(c.args[0], st)
    cnd = eq(a, 0)
    d = st.facts.decide(cnd)
    if d is None:
        raise NeedFork(cnd)
    return [(st, NONE if d else some(a))]


@model(r"^std::num::NonZero::<T>::(get|new_unchecked)$", r"From<std::num::NonZero<.*>> for ", r"^<.* as std::convert::From<std::num::NonZero")
def m_nzget(eng, st, c):
    return [(st, c.args[0])]


@model(r"^std::cmp::(max|min)$", r"^std::cmp::Ord::(max|min)$", r"std::cmp::Ord>?( for \w+)?>?::(max|min)$")
def m_maxmin(eng, st, c):
    a, b = args_int(eng, st, c)
    if not (is_intish(a) and is_intish(b)):
        return None
    f = tmax if c.defn.endswith("max") else tmin
    x = f((a, b))
    if isinstance(x, T) and x.op in ("max", "min"):
        d = st.facts.decide(ge(a, b))
        if d is not None:
            x = (a if d else b) if f is tmax else (b if d else a)
    return [(st, x)]


@model(r"^std::cmp::Ord::clamp$", r"Ord>?( for \w+)?>?::clamp$")
def m_clamp(eng, st, c):
    a, lo, hi = args_int(eng, st, c)
    return [(st, tmin((tmax((a, lo)), hi)))]


@model(r"^std::cmp::impls::<impl std::cmp::Ord for (u|i|bool|char)\w*>::cmp$", r"^std::cmp::impls::<impl std::cmp::PartialOrd for (u|i|bool|char)\w*>::partial_cmp$")
def m_cmp(eng, st, c):
    a, b = args_int(eng, st, c)
    o = eng.cmp(a, b, st)
    return [(st, some(o) if "partial" in c.defn else o)]


@model(r"^std::cmp::impls::<impl std::cmp::PartialEq(<&.*)? for .*>::(eq|ne)$", r"^std::cmp::PartialEq::ne$")
def m_eq(eng, st, c):
    a, b = eng.deval(c.args[0], st), eng.deval(c.args[1], st)
    if is_intish(a) and is_intish(b):
        x = eq(a, b)
        return [(st, bnot(x) if c.defn.endswith("ne") else x)]
    if is_seq(a) and is_seq(b):
        x = seq_eq(eng, st, a, b)
        return [(st, bnot(x) if c.defn.endswith("ne") else x)]
    return None


@model(r"^std::cmp::impls::<impl std::cmp::PartialOrd for (u|i|bool|char)\w*>::(lt|le|gt|ge)$")
def m_ord(eng, st, c):
    a, b = args_int(eng, st, c)
    o = c.defn.rsplit("::", 1)[1]
    return [(st, {"lt": lt(a, b), "le": ge(b, a), "gt": lt(b, a), "ge": ge(a, b)}[o])]


def seq_eq(eng, st, a, b):
    if a is b:
        return 1
    if a.op == "str":
        a = mk("arr", tuple(a.a[0].encode()))
    if b.op == "str":
        b = mk("arr", tuple(b.a[0].encode()))
    la, lb = slen(a), slen(b)
    n = la if isinstance(la, int) else lb if isinstance(lb, int) else None
    if n is not None and n <= 32:
        cs = [eq(la, lb)]
        d = st.facts.decide(cs[0])
        if d is None:
            raise NeedFork(cs[0])
        if not d:
            return 0
        cs = []
        for i in range(n):
            x = eng.deval(eng.sel(a, i, seq_ety(a) or eng.F.u8, st), st)
            y = eng.deval(eng.sel(b, i, seq_ety(b) or eng.F.u8, st), st)
            if not (is_intish(x) and is_intish(y)):
                return app("seqeq", (a, b), ("r", 0, 1))
            e = eq(x, y)
            if e == 0:
                return 0
            cs.append(e)
        for e in cs:
            d = st.facts.decide(e)
            if d == 0:
                return 0
            if d is None:
                raise NeedFork(e)
        return 1
    return app("seqeq", (a, b), ("r", 0, 1))


@model(r"array::equality::.*::(eq|ne)$", r"slice::cmp::.*PartialEq.*::(eq|ne)$", r"PartialEq<.*>>::(eq|ne)$", r"impl std::cmp::PartialEq.* for (\[|str|std::vec::Vec|&).*::(eq|ne)$")
def m_seqeq(eng, st, c):
    a, b = eng.deval(c.args[0], st), eng.deval(c.args[1], st)
    if not (isinstance(a, T) and isinstance(b, T) and is_seq(a) and is_seq(b)):
        return None
    x = seq_eq(eng, st, a, b)
    return [(st, bnot(x) if c.defn.endswith("ne") else x)]


# ---------------------------------------------------------------- logging and formatting
@model(r"^log::max_level$")
def m_maxlevel(eng, st, c):
    return [(st, agg("LevelFilter", 0, ()))]


@model(r"^std::cmp::PartialOrd::(le|lt|ge|gt)$")
def m_plevel(eng, st, c):
    # log level comparisons: logging is disabled in the abstract program
    if c.aty and c.aty[0] is not None:
        t = eng.ty[eng.pointee(c.aty[0])] if eng.pointee(c.aty[0]) is not None else {}
        if t.get("n") in ("Level", "LevelFilter"):
            return [(st, 0)]
    a, b = args_int(eng, st, c)
    if is_intish(a) and is_intish(b):
        o = c.defn.rsplit("::", 1)[1]
        return [(st, {"lt": lt(a, b), "le": ge(b, a), "gt": lt(b, a), "ge": ge(a, b)}[o])]
    return None


@model(r"log::Level(Filter)? as std::cmp::PartialOrd", r"impl std::cmp::PartialOrd<log::Level")
def m_plevel2(eng, st, c):
    return [(st, 0)]


@model(r"^log::__private_api")
def m_log(eng, st, c):
    return [(st, UNIT)]


@model(r"^core::fmt::rt::", r"^std::fmt::Arguments", r"^std::fmt::")
def m_fmt(eng, st, c):
    return [(st, app("fmt", (), ("ty", c.dty)))]


# ---------------------------------------------------------------- cells, mem, boxes
@model(r"^std::cell::(Cell|RefCell)::<T>::new$")
def m_cellnew(eng, st, c):
    return [(st, agg("Cell" if "::Cell::" in c.defn else "RefCell", 0, (c.args[0],)))]


def cellloc(eng, st, v):
    o, p = inner_loc(eng, st, v)
    return o, p + (("f", 0, 0, None),)


@model(r"^std::cell::RefCell::<T>::(borrow_mut|borrow|get_mut)$", r"^std::cell::Cell::<T>::(get_mut|as_ptr)$", r"^std::cell::RefCell::<T>::as_ptr$")
def m_borrow(eng, st, c):
    o, p = cellloc(eng, st, c.args[0])
    if c.dty is not None:
        t = eng.ty[c.dty]
        if t["k"] == "adt" and t["n"] in ("RefMut", "Ref") and (o, p) not in eng.objty:
            pass
    return [(st, ref(o, p))]


@model(r"^<std::cell::Ref(Mut)?<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def m_refmut(eng, st, c):
    loc = loc_of(eng, st, c.args[0])
    v = eng.force(eng.load(st, loc), st)
    return [(st, v)]


@model(r"^std::cell::Cell::<T>::(get|set|take|replace|update)$", r"^std::cell::RefCell::<T>::(replace|take)$")
def m_cell(eng, st, c):
    loc = cellloc(eng, st, c.args[0])
    v = eng.load(st, loc)
    m = c.defn.rsplit("::", 1)[1]
    if m == "get":
        return [(st, v)]
    if m == "set":
        eng.store_loc(st, loc, c.args[1])
        return [(st, UNIT)]
    if m == "replace":
        eng.store_loc(st, loc, c.args[1])
        return [(st, v)]
    if m == "take":
        eng.store_loc(st, loc, default_of(eng, c.dty))
        return [(st, v)]
    return None


@model(r"^std::cell::(Cell|RefCell)::<T>::into_inner$")
def m_cellinner(eng, st, c):
    v = eng.force(c.args[0], st)
    if isinstance(v, T) and v.op == "agg":
        return [(st, v.a[2][0])]
    return None


def default_of(eng, ti):
    t = eng.ty[ti]
    k = t["k"]
    if k in ("int", "bool", "char"):
        return 0
    if k == "float":
        return mk("fconst", 0.0)
    if k == "adt":
        if t["n"] in ("Vec", "String", "TinyVec"):
            return EMPTY
        if t["n"] == "Option":
            return NONE
        if t["n"] in ("Cell", "RefCell"):
            return agg(t["n"], 0, (default_of(eng, t["a"][0]),))
    if k == "tuple":
        return tup(*[default_of(eng, f) for f in t["f"]])
    if k == "array":
        return mk("rep", default_of(eng, t["t"]), t["l"])
    if k == "ref" and eng.ty[t["t"]]["k"] in ("str", "slice"):
        return ref(("K", EMPTY))
    return app("default", (), ("ty", ti))


@model(r"^std::mem::take$")
def m_take(eng, st, c):
    loc = loc_of(eng, st, c.args[0])
    v = eng.load(st, loc)
    eng.store_loc(st, loc, default_of(eng, c.dty))
    return [(st, v)]


@model(r"^std::mem::replace$", r"^std::cell::.*::replace$")
def m_replace(eng, st, c):
    loc = loc_of(eng, st, c.args[0])
    v = eng.load(st, loc)
    eng.store_loc(st, loc, c.args[1])
    return [(st, v)]


@model(r"^std::mem::swap$")
def m_swap(eng, st, c):
    l1, l2 = loc_of(eng, st, c.args[0]), loc_of(eng, st, c.args[1])
    a, b = eng.load(st, l1), eng.load(st, l2)
    eng.store_loc(st, l1, b)
    eng.store_loc(st, l2, a)
    return [(st, UNIT)]


@model(r"^std::mem::(drop|forget)$", r"precondition_check$", r"^std::hint::black_box$")
def m_drop(eng, st, c):
    if c.fn.get("body"):
        return None
    return [(st, UNIT)]


@model(r"^std::mem::(size_of|align_of)")
def m_sizeof(eng, st, c):
    return None


@model(r"^std::default::Default::default$", r"^core::.*::<impl std::default::Default for .*>::default$", r"^<std::vec::Vec<.*> as std::default::Default>::default$", r"^<.* as std::default::Default>::default$")
def m_default(eng, st, c):
    if c.fn.get("body"):
        return None
    if c.dty is None:
        return None
    v = default_of(eng, c.dty)
    if isinstance(v, T) and v.op == "app":
        return None
    return [(st, v)]


@model(r"^std::boxed::Box::<T>::new$", r"^std::boxed::Box::<.*>::pin$")
def m_boxnew(eng, st, c):
    return [(st, agg("Box", 0, (c.args[0],)))]


@model(r"^std::sync::Arc::<T>::new$", r"^std::rc::Rc::<T>::new$")
def m_arcnew(eng, st, c):
    return [(st, agg("Arc", 0, (c.args[0],)))]


@model(r"^<std::(sync::Arc|rc::Rc)<.*> as std::clone::Clone>::clone$")
def m_arcclone(eng, st, c):
    return [(st, eng.deval(c.args[0], st))]


@model(r"clone::Clone>?( for .*>)?::clone$", r"^<.* as std::clone::Clone>::clone$", r"ToOwned>?( for .*)?::to_owned$", r"::to_vec$", r"::to_vec_in", r"ConvertVec>::to_vec$", r"::into_vec$", r"::into_boxed_slice$", r"^std::slice::<impl \[T\]>::to_vec$",
       r"^core::str::<impl str>::(as_bytes|as_ref)$", r"str::<impl str>::to_(string|owned)$")
def m_clone(eng, st, c):
    if c.fn.get("body") and c.fn["kind"] == "item" and c.fn["crate"] in eng.F.ws:
        return None
    if c.defn.endswith("as_bytes"):
        return [(st, c.args[0])]
    v = eng.force(c.args[0], st)
    if isinstance(v, T) and v.op == "ref":
        x = eng.force(eng.load(st, (v.a[0], v.a[1])), st)
        # clone of &&T is &T, of &[T] (to_vec/to_owned) the sequence
        return [(st, x)]
    return [(st, v)]


@model(r"as_ptr$|as_mut_ptr$")
def m_asptr(eng, st, c):
    return None


# ---------------------------------------------------------------- conversions that keep the value
@model(r"^<.* as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^<.* as std::convert::As(Ref|Mut)<.*>>::as_(ref|mut)$", r"::as_slice$|::as_mut_slice$|::as_str$|::as_mut_str$|::as_bytes$",
       r"^<.* as std::borrow::Borrow(Mut)?<.*>>::borrow(_mut)?$", r"^std::slice::from_(mut|ref)$", r"impl std::convert::AsRef<.*> for .*::as_ref$", r"impl std::borrow::Borrow<.*>::borrow$", r"std::borrow::Borrow(Mut)?<T> for .*::borrow(_mut)?$")
def m_deref(eng, st, c):
    if c.fn.get("body") and c.fn["crate"] in eng.F.ws:
        return None
    if c.defn.startswith("std::slice::from_"):
        loc = loc_of(eng, st, c.args[0])
        return [(st, ref(loc[0], loc[1] + (("one",),)))]
    loc = loc_of(eng, st, c.args[0])
    for _ in range(4):
        v = eng.force(eng.load(st, loc), st)
        if isinstance(v, T) and v.op == "ref":
            loc = (v.a[0], v.a[1])
            continue
        if isinstance(v, T) and v.op == "agg" and v.a[0] in ("Box", "Arc"):
            return [(st, ref(loc[0], loc[1] + (("f", 0, 0, None),)))]
        if isinstance(v, T) and v.op == "agg" and v.a[0] == "Cow":
            if v.a[1] == 0:
                return [(st, v.a[2][0])]
            return [(st, ref(loc[0], loc[1] + (("f", 1, 0, None),)))]
        break
    return [(st, ref(*loc))]


@model(r"^std::borrow::Cow::<'_, B>::(into_owned|to_mut|is_owned|is_borrowed)$")
def m_cow(eng, st, c):
    m = c.defn.rsplit("::", 1)[1]
    if m == "into_owned":
        v = eng.force(c.args[0], st)
        if isinstance(v, T) and v.op == "agg":
            return [(st, eng.deval(v.a[2][0], st))]
        return None
    loc = inner_loc(eng, st, c.args[0])
    v = eng.force(eng.load(st, loc), st)
    if not (isinstance(v, T) and v.op == "agg"):
        return None
    if m == "to_mut":
        if v.a[1] == 0:
            eng.store_loc(st, loc, agg("Cow", 1, (eng.deval(v.a[2][0], st),)))
        return [(st, ref(loc[0], loc[1] + (("f", 1, 0, None),)))]
    return None


def convertible(eng, c):
    return c.dty is not None and eng.int_ty(c.dty) and c.aty and c.aty[0] is not None and eng.int_ty(c.aty[0])


@model(r"std::convert::From<\w+> for \w+>::from$", r"^core::convert::num::.*::from$", r"^std::convert::num::.*::from$", r"^<.* as std::convert::From<.*>>::from$", r"convert::From<.*>::from$")
def m_from(eng, st, c):
    if c.fn.get("body") and c.fn["crate"] in eng.F.ws:
        return None
    if convertible(eng, c):
        return [(st, wrap(eng.int_ty(c.dty), eng.deval(c.args[0], st), st.facts))]
    if c.dty is not None:
        t = eng.ty[c.dty]
        v = eng.force(c.args[0], st)
        if t["k"] == "adt" and t["n"] in ("Vec", "String"):
            x = eng.deval(v, st)
            if isinstance(x, T) and is_seq(x):
                return [(st, x)]
        if t["k"] == "adt" and t["n"] == "Cow":
            if isinstance(v, T) and v.op == "ref":
                return [(st, agg("Cow", 0, (v,)))]
            return [(st, agg("Cow", 1, (v,)))]
        if t["k"] == "adt" and t["n"] == "Box":
            return [(st, agg("Box", 0, (v,)))]
        if t["k"] == "adt" and t["n"] == "Option":
            return [(st, some(v))]
        if c.aty and c.aty[0] == c.dty:
            return [(st, v)]
        if t["k"] == "adt" and t["n"] in ("Cell", "RefCell"):
            return [(st, agg(t["n"], 0, (v,)))]
        if t["k"] == "float":
            return [(st, mk("fop", "i2f:" + t["n"], v))]
    return None


@model(r"^core::convert::num::.*::try_from$", r"TryFrom<\w+> for \w+>::try_from$", r"^std::convert::num::.*::try_from$")
def m_tryfrom(eng, st, c):
    if c.dty is None:
        return None
    t = eng.ty[c.dty]
    ty = eng.int_ty(t["a"][0])
    if not ty:
        return None
    x = eng.deval(c.args[0], st)
    lo, hi = INT_RANGE[ty]
    cnd = mul(ge(x, lo), ge(hi, x))
    d = st.facts.decide(cnd)
    if d is None:
        raise NeedFork(cnd)
    return [(st, ok(x) if d else err(app("TryFromIntError", (), None)))]


@model(r"TryFrom<&.*\[T\]> for .*\[T; N\]>::try_from$", r"^core::array::<impl std::convert::TryFrom")
def m_arrtry(eng, st, c):
    t = eng.ty[c.dty]["a"][0]
    v = eng.force(c.args[0], st)
    s = eng.deval(v, st)
    tt = eng.ty[t]
    n = tt["l"] if tt["k"] == "array" else eng.ty[tt["t"]]["l"]
    cnd = eq(slen(s), n)
    d = st.facts.decide(cnd)
    if d is None:
        raise NeedFork(cnd)
    if not d:
        return [(st, err(app("TryFromSliceError", (), None)))]
    if tt["k"] == "array":
        if n <= 64:
            s = mk("arr", tuple(eng.sel(s, i, tt["t"], st) for i in range(n)))
        return [(st, ok(s))]
    return [(st, ok(v))]


# ---------------------------------------------------------------- sequences
@model(r"^std::vec::Vec::<T>::(new|with_capacity)$", r"^std::string::String::(new|with_capacity)$", r"^tinyvec::tinyvec::TinyVec::<A>::(with_capacity|new)$", r"^std::vec::Vec::<T, A>::(new_in|with_capacity_in)$")
def m_vnew(eng, st, c):
    return [(st, EMPTY)]


@model(r"^tinyvec::tinyvec::TinyVec::<A>::from_array_len$")
def m_tvarr(eng, st, c):
    s = eng.deval(c.args[0], st)
    return [(st, ssub(s, 0, c.args[1], st.facts))]


@model(r"^std::vec::from_elem$")
def m_fromelem(eng, st, c):
    return [(st, mk("rep", c.args[0], c.args[1]))]


@model(r"^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit|shrink_to)$", r"^std::vec::Vec::<T, A>::try_reserve", r"^std::string::String::(reserve|shrink_to_fit)$")
def m_reserve(eng, st, c):
    if "try_reserve" in c.defn:
        return [(st, ok(UNIT))]
    return [(st, UNIT)]


@model(r"(Vec|TinyVec)::<.*>::(push|append|clear|truncate|pop|extend_from_slice|insert|remove|swap_remove|resize|drain|split_off|last_mut|dedup|retain|extend_from_within)$",
       r"^std::string::String::(push|push_str|clear|truncate|pop|insert|insert_str)$")
def m_vecmut(eng, st, c):
    m = c.defn.rsplit("::", 1)[1]
    loc, s = seq_at(eng, st, c.args[0])
    if not (isinstance(s, T) and is_seq(s)):
        raise Unsupported("vector value " + show(s)[:60])
    if m == "push" and "String" not in c.defn:
        eng.store_loc(st, loc, cat((s, mk("arr", (c.args[1],)))))
        return [(st, UNIT)]
    if m in ("extend_from_slice", "push_str"):
        x = eng.deval(c.args[1], st)
        if x.op == "str":
            x = mk("arr", tuple(x.a[0].encode()))
        eng.store_loc(st, loc, cat((s, x)))
        return [(st, UNIT)]
    if m == "append":
        l2, x = seq_at(eng, st, c.args[1])
        eng.store_loc(st, loc, cat((s, x)))
        eng.store_loc(st, l2, EMPTY)
        return [(st, UNIT)]
    if m == "clear":
        eng.store_loc(st, loc, EMPTY)
        return [(st, UNIT)]
    if m == "truncate":
        n = eng.deval(c.args[1], st)
        cnd = lt(n, slen(s))
        d = st.facts.decide(cnd)
        if d is None:
            raise NeedFork(cnd)
        if d:
            eng.store_loc(st, loc, ssub(s, 0, n, st.facts))
        return [(st, UNIT)]
    if m == "pop":
        cnd = ge(slen(s), 1)
        d = st.facts.decide(cnd)
        if d is None:
            raise NeedFork(cnd)
        if not d:
            return [(st, NONE)]
        n = add(slen(s), -1)
        x = eng.sel(s, n, ety_of(eng, c, 0, s), st)
        eng.store_loc(st, loc, ssub(s, 0, n, st.facts))
        return [(st, some(x))]
    if m == "resize":
        n = eng.deval(c.args[1], st)
        cnd = ge(n, slen(s))
        d = st.facts.decide(cnd)
        if d is None:
            raise NeedFork(cnd)
        eng.store_loc(st, loc, cat((s, mk("rep", c.args[2], sub(n, slen(s))))) if d else ssub(s, 0, n, st.facts))
        return [(st, UNIT)]
    return None


@model(r"IndexSet::<.*>::(new|with_capacity)$")
def m_isnew(eng, st, c):
    return [(st, EMPTY)]


@model(r"IndexSet::<.*>::insert$")
def m_isinsert(eng, st, c):
    """a sequence without repeated values, in insertion order"""
    loc, s = seq_at(eng, st, c.args[0])
    x = eng.deval(c.args[1], st)
    if not (isinstance(s, T) and is_seq(s)):
        return None
    cnd = app("notin", (x, s), ("r", 0, 1))
    out = []
    for v in (1, 0):
        s2 = st.clone()
        if not s2.assume(cnd, v):
            continue
        if v:
            eng.store_loc(s2, loc, cat((s, mk("arr", (x,)))))
        out.append((s2, v))
    return out


@model(r"(Vec|TinyVec|IndexSet)::<.*>::(len|is_empty)$", r"^core::slice::<impl \[T\]>::(len|is_empty)$", r"^core::str::<impl str>::(len|is_empty)$", r"^std::string::String::(len|is_empty)$")
def m_len(eng, st, c):
    _, s = seq_at(eng, st, c.args[0])
    if not (isinstance(s, T) and is_seq(s)):
        return None
    n = slen(s)
    return [(st, eq(n, 0) if c.defn.endswith("is_empty") else n)]


def do_index(eng, st, c, loc, s, idx, ety):
    i = eng.deval(idx, st)
    n = slen(s)
    if is_intish(i):
        if not bound(eng, st, lt(i, n)):
            return dead(eng, st, c, "index")
        return [(st, elem_ref(loc, i, ety))]
    r = range_of(eng, st, i, n)
    if r is None:
        return None
    lo, hi = r
    if not bound(eng, st, ge(n, hi)) or not bound(eng, st, ge(hi, lo)):
        return dead(eng, st, c, "slice")
    return [(st, ref(loc[0], loc[1] + (("sub", lo, sub(hi, lo)),)))]


@model(r"std::ops::Index(Mut)?<.*>>::index(_mut)?$", r"impl std::ops::Index(Mut)?<.*> for .*>::index(_mut)?$")
def m_index(eng, st, c):
    if c.fn.get("body") and c.fn["crate"] in eng.F.ws:
        return None
    loc, s = seq_at(eng, st, c.args[0])
    if not (isinstance(s, T) and is_seq(s)):
        return None
    return do_index(eng, st, c, loc, s, c.args[1], ety_of(eng, c, 0, s))


@model(r"^core::slice::<impl \[T\]>::get(_mut)?$", r"^core::str::<impl str>::get$", r"(Vec|TinyVec)::<.*>::get(_mut)?$")
def m_get(eng, st, c):
    loc, s = seq_at(eng, st, c.args[0])
    if not (isinstance(s, T) and is_seq(s)):
        return None
    i = eng.deval(c.args[1], st)
    n = slen(s)
    if is_intish(i):
        cnd = lt(i, n)
        d = st.facts.decide(cnd)
        if d is None:
            raise NeedFork(cnd)
        return [(st, some(elem_ref(loc, i, ety_of(eng, c, 0, s))) if d else NONE)]
    r = range_of(eng, st, i, n)
    if r is None:
        return None
    lo, hi = r
    for cnd in (ge(n, hi), ge(hi, lo)):
        d = st.facts.decide(cnd)
        if d is None:
            raise NeedFork(cnd)
        if not d:
            return [(st, NONE)]
    return [(st, some(ref(loc[0], loc[1] + (("sub", lo, sub(hi, lo)),))))]


@model(r"^core::slice::<impl \[T\]>::(first|last|first_mut|last_mut|split_first|split_last|first_chunk|split_at|split_at_mut|split_at_checked|split_first_chunk)$")
def m_first(eng, st, c):
    loc, s = seq_at(eng, st, c.args[0])
    if not (isinstance(s, T) and is_seq(s)):
        return None
    m = c.defn.rsplit("::", 1)[1]
    n = slen(s)
    ety = ety_of(eng, c, 0, s)
    if m.startswith("split_at"):
        k = eng.deval(c.args[1], st)
        cnd = ge(n, k)
        parts_ = tup(ref(loc[0], loc[1] + (("sub", 0, k),)), ref(loc[0], loc[1] + (("sub", k, sub(n, k)),)))
        if m.endswith("checked"):
            d = st.facts.decide(cnd)
            if d is None:
                raise NeedFork(cnd)
            return [(st, some(parts_) if d else NONE)]
        if not bound(eng, st, cnd):
            return dead(eng, st, c, "split_at")
        return [(st, parts_)]
    if "chunk" in m:
        # Option<&[T; N]> or Option<(&[T;N], &[T])>
        t = eng.ty[c.dty]["a"][0]
        if eng.ty[t]["k"] == "tuple":
            k = eng.ty[eng.pointee(eng.ty[t]["f"][0])]["l"]
        else:
            k = eng.ty[eng.pointee(t)]["l"]
        cnd = ge(n, k)
        d = st.facts.decide(cnd)
        if d is None:
            raise NeedFork(cnd)
        if not d:
            return [(st, NONE)]
        a = ref(loc[0], loc[1] + (("sub", 0, k),))
        if "split" in m:
            return [(st, some(tup(a, ref(loc[0], loc[1] + (("sub", k, sub(n, k)),)))))]
        return [(st, some(a))]
    cnd = ge(n, 1)
    d = st.facts.decide(cnd)
    if d is None:
        raise NeedFork(cnd)
    if not d:
        return [(st, NONE)]
    last = add(n, -1)
    if m.startswith("first"):
        return [(st, some(elem_ref(loc, 0, ety)))]
    if m.startswith("last"):
        return [(st, some(elem_ref(loc, last, ety)))]
    if m == "split_first":
        return [(st, some(tup(elem_ref(loc, 0, ety), ref(loc[0], loc[1] + (("sub", 1, last),)))))]
    if m == "split_last":
        return [(st, some(tup(elem_ref(loc, last, ety), ref(loc[0], loc[1] + (("sub", 0, last),)))))]
    return None


@model(r"^core::slice::<impl \[T\]>::(ends_with|starts_with|strip_suffix|strip_prefix)$", r"^core::str::<impl str>::(ends_with|starts_with|strip_suffix|strip_prefix)$")
def m_ends(eng, st, c):
    loc, s = seq_at(eng, st, c.args[0])
    x = eng.deval(c.args[1], st)
    if not (isinstance(s, T) and is_seq(s) and isinstance(x, T) and is_seq(x)):
        return None
    m = c.defn.rsplit("::", 1)[1]
    n, k = slen(s), slen(x)
    cnd = ge(n, k)
    d = st.facts.decide(cnd)
    if d is None:
        raise NeedFork(cnd)
    e = 0
    if d:
        part = ssub(s, 0, k, st.facts) if "prefix" in m or "starts" in m else ssub(s, sub(n, k), k, st.facts)
        e = seq_eq(eng, st, part, x)
    if "with" in m:
        return [(st, e)]
    d = st.facts.decide(e)
    if d is None:
        raise NeedFork(e)
    if not d:
        return [(st, NONE)]
    p = ("sub", 0, sub(n, k)) if "suffix" in m else ("sub", k, sub(n, k))
    return [(st, some(ref(loc[0], loc[1] + (p,))))]


@model(r"^core::slice::<impl \[T\]>::(fill|copy_from_slice|clone_from_slice|reverse|swap|sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key)$", r"^std::slice::<impl \[T\]>::(sort|sort_by|sort_by_key|sort_by_cached_key)$")
def m_slicemut(eng, st, c):
    loc, s = seq_at(eng, st, c.args[0])
    m = c.defn.rsplit("::", 1)[1]
    if m == "fill":
        eng.store_loc(st, loc, mk("rep", c.args[1], slen(s)))
        return [(st, UNIT)]
    if m in ("copy_from_slice", "clone_from_slice"):
        x = eng.deval(c.args[1], st)
        if not bound(eng, st, eq(slen(x), slen(s))):
            return dead(eng, st, c, "copy_from_slice")
        eng.store_loc(st, loc, x)
        return [(st, UNIT)]
    if m == "swap":
        i, j = eng.deval(c.args[1], st), eng.deval(c.args[2], st)
        ety = ety_of(eng, c, 0, s)
        if not bound(eng, st, lt(i, slen(s))) or not bound(eng, st, lt(j, slen(s))):
            return dead(eng, st, c, "swap")
        x, y = eng.sel(s, i, ety, st), eng.sel(s, j, ety, st)
        eng.store_loc(st, loc, store(store(s, i, y), j, x))
        return [(st, UNIT)]
    if m == "reverse":
        eng.store_loc(st, loc, mk("rev", s))
        return [(st, UNIT)]
    # sorting: a permutation, keeps the length
    nm = eng.occ(st, c, "sort")
    ety = ety_of(eng, c, 0, s)
    eng.store_loc(st, loc, mk("seqsym", nm, tuple(st.binders) + (s,), ety, slen(s)))
    st.emit(("ev", "sort:" + m, (s,), 0, c.span))
    return [(st, UNIT)]


@model(r"^core::slice::<impl \[T\]>::contains$")
def m_contains(eng, st, c):
    _, s = seq_at(eng, st, c.args[0])
    x = eng.deval(c.args[1], st)
    if s.op == "arr" and is_intish(x) and len(s.a[0]) <= 16:
        for y in s.a[0]:
            e = eq(eng.deval(y, st), x)
            d = st.facts.decide(e)
            if d is None:
                raise NeedFork(e)
            if d:
                return [(st, 1)]
        return [(st, 0)]
    return [(st, bnot(app("notin", (x, s), ("r", 0, 1))))]


@model(r"^std::ops::Range(Inclusive|From|To|ToInclusive)?::<Idx>::contains$", r"RangeBounds.*::contains$")
def m_rcontains(eng, st, c):
    v = eng.deval(c.args[0], st)
    x = eng.deval(c.args[1], st)
    if not (isinstance(v, T) and v.op == "agg" and is_intish(x)):
        return None
    f = v.a[2]
    t = v.a[0]
    if t == "Range":
        cs = [ge(x, f[0]), lt(x, f[1])]
    elif t == "RangeInclusive":
        cs = [ge(x, f[0]), ge(f[1], x)]
    elif t == "RangeFrom":
        cs = [ge(x, f[0])]
    elif t == "RangeTo":
        cs = [lt(x, f[0])]
    else:
        cs = [ge(f[0], x)]
    for cnd in cs:
        d = st.facts.decide(cnd)
        if d is None:
            raise NeedFork(cnd)
        if not d:
            return [(st, 0)]
    return [(st, 1)]


@model(r"^std::ops::RangeInclusive::<Idx>::new$")
def m_rinew(eng, st, c):
    return [(st, agg("RangeInclusive", 0, (c.args[0], c.args[1], 0)))]


@model(r"^std::ops::RangeInclusive::<Idx>::(start|end)$")
def m_ristart(eng, st, c):
    loc = inner_loc(eng, st, c.args[0])
    return [(st, ref(loc[0], loc[1] + (("f", 0, 0 if c.defn.endswith("start") else 1, None),)))]


# ---------------------------------------------------------------- iterators
def it_slice(loc, lo, hi, ety):
    return agg("it:slice", 0, (ref(*loc), lo, hi, -1 if ety is None else ety))


@model(r"^core::slice::<impl \[T\]>::iter(_mut)?$", r"^<&'a (mut )?std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$", r"IntoIterator for &'a (mut )?\[T.*\]>::into_iter$", r"^<&'a (mut )?.* as std::iter::IntoIterator>::into_iter$", r"IntoIterator for &'a (mut )?.*>::into_iter$")
def m_iter(eng, st, c):
    loc, s = seq_at(eng, st, c.args[0])
    if not (isinstance(s, T) and is_seq(s)):
        return None
    return [(st, it_slice(loc, 0, slen(s), ety_of(eng, c, 0, s)))]


@model(r"^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$", r"IntoIterator for \[T; N\]>::into_iter$", r"^std::iter::IntoIterator::into_iter$", r"^<I as std::iter::IntoIterator>::into_iter$", r"IntoIterator for .*>::into_iter$", r"^<.* as std::iter::IntoIterator>::into_iter$", r"^core::array::.*into_iter$",
       r"^std::iter::Iterator::by_ref$")
def m_intoiter(eng, st, c):
    v = eng.force(c.args[0], st)
    if isinstance(v, T) and is_seq(v):
        return [(st, agg("it:seq", 0, (v, 0, slen(v), -1 if ety_of(eng, c, 0, v) is None else ety_of(eng, c, 0, v))))]
    if isinstance(v, T) and v.op == "agg" and (v.a[0].startswith("it:") or v.a[0] in ("Range", "RangeInclusive", "RangeFrom")):
        return [(st, v)]
    if isinstance(v, T) and v.op == "agg" and v.a[0] == "Option":
        return [(st, agg("it:opt", 0, (v,)))]
    if isinstance(v, T) and v.op == "ref":
        return [(st, v)]
    if c.dty is not None and c.aty and c.aty[0] == c.dty:
        return [(st, v)]
    return None


ADAPT = {"map": "map", "enumerate": "enum", "zip": "zip", "take": "take", "skip": "skip", "rev": "rev", "copied": "copied",
         "cloned": "copied", "filter": "filter", "filter_map": "filter_map", "chain": "chain", "step_by": "step", "take_while": "take_while",
         "inspect": "inspect", "fuse": "fuse", "flatten": "flatten", "peekable": "peek", "flat_map": "flat_map", "skip_while": "skip_while", "map_while": "map_while"}


@model(r"(Iterator|Iterator>|Iterator for .*>)::(%s)$" % "|".join(ADAPT))
def m_adapt(eng, st, c):
    m = ADAPT[c.defn.rsplit("::", 1)[1]]
    a = list(c.args)
    v = eng.force(a[0], st)
    if m == "fuse":
        return [(st, v)]
    if m == "enum":
        return [(st, agg("it:enum", 0, (v, 0)))]
    if m == "zip" or m == "chain":
        b = eng.force(a[1], st)
        if isinstance(b, T) and is_seq(b):
            b = agg("it:seq", 0, (b, 0, slen(b), -1))
        elif isinstance(b, T) and b.op == "ref":
            loc, s = seq_at(eng, st, b)
            if isinstance(s, T) and is_seq(s):
                b = it_slice(loc, 0, slen(s), ety_of(eng, c, 1, s))
        if m == "chain":
            return [(st, agg("it:chain", 0, (v, b, 0)))]
        return [(st, agg("it:zip", 0, (v, b)))]
    if m == "rev":
        return [(st, agg("it:rev", 0, (v,)))]
    if m == "take":
        return [(st, agg("it:take", 0, (v, eng.deval(a[1], st))))]
    if m == "skip":
        n = eng.deval(a[1], st)
        r = it_skip(eng, st, v, n)
        if r is not None:
            return [(st, r)]
        return [(st, agg("it:skip", 0, (v, n)))]
    if m == "peek":
        return [(st, agg("it:peek", 0, (v, NONE, 0)))]
    if m == "step":
        return [(st, agg("it:step", 0, (v, eng.deval(a[1], st), 1)))]
    if m in ("take_while", "map_while"):
        return [(st, agg("it:" + m, 0, (v, a[1], 0)))]
    if m == "skip_while":
        return [(st, agg("it:skip_while", 0, (v, a[1], 0)))]
    return [(st, agg("it:" + m, 0, (v,) + tuple(a[1:])))]


def it_skip(eng, st, v, n):
    if isinstance(v, T) and v.op == "agg":
        if v.a[0] in ("it:slice", "it:seq"):
            lo, hi = v.a[2][1], v.a[2][2]
            return agg(v.a[0], 0, (v.a[2][0], tmin((add(lo, n), hi)) if st.facts.decide(ge(sub(hi, lo), n)) != 1 else add(lo, n), hi, v.a[2][3]))
        if v.a[0] in ("it:map", "it:copied"):
            r = it_skip(eng, st, v.a[2][0], n)
            if r is not None and v.a[0] == "it:copied":
                return agg(v.a[0], 0, (r,) + v.a[2][1:])
        if v.a[0] == "it:enum":
            r = it_skip(eng, st, v.a[2][0], n)
            if r is not None and st.facts.decide(ge(it_len(eng, v.a[2][0]) or 0, n)) == 1:
                return agg(v.a[0], 0, (r, add(v.a[2][1], n)))
        if v.a[0] == "Range":
            lo, hi = v.a[2]
            if st.facts.decide(ge(hi, add(lo, n))) == 1:
                return agg("Range", 0, (add(lo, n), hi))
    return None


@model(r"^core::slice::<impl \[T\]>::(windows|chunks|chunks_exact|chunks_mut|rchunks|chunks_exact_mut)$")
def m_chunks(eng, st, c):
    loc, s = seq_at(eng, st, c.args[0])
    m = c.defn.rsplit("::", 1)[1]
    k = eng.deval(c.args[1], st)
    if m == "windows":
        return [(st, agg("it:windows", 0, (ref(*loc), 0, slen(s), k)))]
    if m.startswith("chunks"):
        return [(st, agg("it:chunks", 0, (ref(*loc), 0, slen(s), k, 1 if "exact" in m else 0)))]
    return None


@model(r"^std::iter::(once|repeat|empty|repeat_n|zip|from_fn|successors)$", r"^std::iter::repeat_with$")
def m_iterfns(eng, st, c):
    m = c.defn.rsplit("::", 1)[1]
    if m == "once":
        return [(st, agg("it:seq", 0, (mk("arr", (c.args[0],)), 0, 1, -1)))]
    if m == "empty":
        return [(st, agg("it:seq", 0, (EMPTY, 0, 0, -1)))]
    if m == "repeat_n":
        return [(st, agg("it:seq", 0, (mk("rep", c.args[0], c.args[1]), 0, c.args[1], -1)))]
    if m == "repeat":
        return [(st, agg("it:seq", 0, (mk("rep", c.args[0], LEN_MAX), 0, LEN_MAX, -1)))]
    if m == "from_fn":
        return [(st, agg("it:from_fn", 0, (c.args[0],)))]
    return None


def decide(st, cnd):
    d = st.facts.decide(cnd)
    if d is None:
        raise NeedFork(cnd)
    return d


def sublocs(loc, i):
    return (loc[0], loc[1] + (("f", 0, i, None),))


def it_next(eng, st, loc, c):
    """advance the iterator stored at loc; -> list of (state, Option)"""
    v = eng.force(eng.load(st, loc), st)
    if isinstance(v, T) and v.op == "ref":
        return it_next(eng, st, (v.a[0], v.a[1]), c)
    if isinstance(v, T) and v.op == "agg" and v.a[0] == "Box":
        return it_next(eng, st, sublocs(loc, 0), c)
    if not (isinstance(v, T) and v.op == "agg"):
        raise Unsupported("iterator value " + show(v)[:80])
    tag, f = v.a[0], v.a[2]

    def put(i, x):
        eng.store_loc(st, sublocs(loc, i), x)
    if tag in ("it:slice", "it:seq"):
        b, lo, hi, ety = f
        if not decide(st, lt(lo, hi)):
            return [(st, NONE)]
        put(1, add(lo, 1))
        if tag == "it:seq":
            return [(st, some(eng.sel(b, lo, None if ety == -1 else ety, st)))]
        return [(st, some(elem_ref((b.a[0], b.a[1]), lo, None if ety == -1 else ety)))]
    if tag == "Range":
        lo, hi = f
        if not decide(st, lt(lo, hi)):
            return [(st, NONE)]
        put(0, add(lo, 1))
        return [(st, some(lo))]
    if tag == "RangeFrom":
        put(0, add(f[0], 1))
        return [(st, some(f[0]))]
    if tag == "RangeInclusive":
        if not decide(st, ge(f[1], f[0])):
            return [(st, NONE)]
        put(0, add(f[0], 1))
        return [(st, some(f[0]))]
    if tag == "it:rangeincl":
        if not decide(st, lt(f[0], f[1])):
            return [(st, NONE)]
        put(0, add(f[0], 1))
        return [(st, some(f[0]))]
    if tag == "it:windows":
        b, lo, hi, k = f
        if not decide(st, ge(hi, add(lo, k))):
            return [(st, NONE)]
        put(1, add(lo, 1))
        return [(st, some(ref(b.a[0], b.a[1] + (("sub", lo, k),))))]
    if tag == "it:chunks":
        b, lo, hi, k, exact = f
        if exact:
            if not decide(st, ge(hi, add(lo, k))):
                return [(st, NONE)]
            put(1, add(lo, k))
            return [(st, some(ref(b.a[0], b.a[1] + (("sub", lo, k),))))]
        if not decide(st, lt(lo, hi)):
            return [(st, NONE)]
        n = tmin((k, sub(hi, lo)))
        if decide(st, ge(sub(hi, lo), k)):
            n = k
        else:
            n = sub(hi, lo)
        put(1, add(lo, n))
        return [(st, some(ref(b.a[0], b.a[1] + (("sub", lo, n),))))]
    if tag == "it:enum":
        res = []
        for s, o in it_next(eng, st, sublocs(loc, 0), c):
            if o is NONE:
                res.append((s, o))
                continue
            n = eng.load(s, sublocs(loc, 1))
            eng.store_loc(s, sublocs(loc, 1), add(n, 1))
            res.append((s, some(tup(n, o.a[2][0]))))
        return res
    if tag == "it:copied":
        return [(s, o if o is NONE else some(eng.force(eng.load(s, eng.deref(o.a[2][0], s)), s)))
                for s, o in it_next(eng, st, sublocs(loc, 0), c)]
    if tag == "it:map":
        res = []
        for s, o in it_next(eng, st, sublocs(loc, 0), c):
            if o is NONE:
                res.append((s, o))
                continue
            for q in eng.call_value(s, eng.load(s, sublocs(loc, 1)), [o.a[2][0]], c.frame, ("map", c.bb)):
                if q[0] == "ret":
                    res.append((q[1], some(q[2])))
        return res
    if tag in ("it:inspect",):
        res = []
        for s, o in it_next(eng, st, sublocs(loc, 0), c):
            if o is NONE:
                res.append((s, o))
                continue
            h = ("H", c.frame.fid, str(c.bb), "insp")
            s.mem[h] = o.a[2][0]
            for q in eng.call_value(s, eng.load(s, sublocs(loc, 1)), [ref(h)], c.frame, ("insp", c.bb)):
                if q[0] == "ret":
                    res.append((q[1], o))
        return res
    if tag == "it:zip":
        res = []
        for s, o in it_next(eng, st, sublocs(loc, 0), c):
            if o is NONE:
                res.append((s, o))
                continue
            for s2, o2 in forking(eng, s, lambda w: it_next(eng, w, sublocs(loc, 1), c)):
                res.append((s2, NONE if o2 is NONE else some(tup(o.a[2][0], o2.a[2][0]))))
        return res
    if tag == "it:take":
        if not decide(st, ge(f[1], 1)):
            return [(st, NONE)]
        put(1, add(f[1], -1))
        return it_next(eng, st, sublocs(loc, 0), c)
    if tag == "it:chain":
        if f[2] == 1:
            return it_next(eng, st, sublocs(loc, 1), c)
        res = []
        for s, o in it_next(eng, st, sublocs(loc, 0), c):
            if o is not NONE:
                res.append((s, o))
                continue
            eng.store_loc(s, sublocs(loc, 2), 1)
            res.extend(forking(eng, s, lambda w: it_next(eng, w, sublocs(loc, 1), c)))
        return res
    if tag == "it:opt":
        o = eng.force(f[0], st)
        if not (isinstance(o, T) and o.op == "agg"):
            raise NeedFork(app("discr", (o,), ("r", 0, 1)))
        put(0, NONE)
        return [(st, o)]
    if tag == "it:rev":
        return it_next_back(eng, st, sublocs(loc, 0), c)
    if tag == "it:skip":
        if f[1] == 0:
            return it_next(eng, st, sublocs(loc, 0), c)
    if tag == "it:peek":
        if f[2] == 1:
            put(2, 0)
            return [(st, f[1])]
        return it_next(eng, st, sublocs(loc, 0), c)
    if tag in ("it:filter", "it:filter_map", "it:take_while", "it:map_while", "it:skip_while", "it:flat_map"):
        raise Unsupported("next on " + tag)
    if tag == "it:from_fn":
        return [(q[1], q[2]) for q in eng.call_value(st, f[0], [], c.frame, ("ff", c.bb)) if q[0] == "ret"]
    raise Unsupported("next on " + tag)


def it_next_back(eng, st, loc, c):
    v = eng.force(eng.load(st, loc), st)
    if isinstance(v, T) and v.op == "ref":
        return it_next_back(eng, st, (v.a[0], v.a[1]), c)
    if not (isinstance(v, T) and v.op == "agg"):
        raise Unsupported("iterator value " + show(v)[:80])
    tag, f = v.a[0], v.a[2]

    def put(i, x):
        eng.store_loc(st, sublocs(loc, i), x)
    if tag in ("it:slice", "it:seq"):
        b, lo, hi, ety = f
        if not decide(st, lt(lo, hi)):
            return [(st, NONE)]
        put(2, add(hi, -1))
        if tag == "it:seq":
            return [(st, some(eng.sel(b, add(hi, -1), None if ety == -1 else ety, st)))]
        return [(st, some(elem_ref((b.a[0], b.a[1]), add(hi, -1), None if ety == -1 else ety)))]
    if tag in ("Range", "it:rangeincl"):
        lo, hi = f
        if not decide(st, lt(lo, hi)):
            return [(st, NONE)]
        put(1, add(hi, -1))
        return [(st, some(add(hi, -1)))]
    if tag == "RangeInclusive":
        if not decide(st, ge(f[1], f[0])):
            return [(st, NONE)]
        put(1, add(f[1], -1))
        return [(st, some(f[1]))]
    if tag == "it:copied":
        return [(s, o if o is NONE else some(eng.force(eng.load(s, eng.deref(o.a[2][0], s)), s)))
                for s, o in it_next_back(eng, st, sublocs(loc, 0), c)]
    if tag == "it:map":
        res = []
        for s, o in it_next_back(eng, st, sublocs(loc, 0), c):
            if o is NONE:
                res.append((s, o))
                continue
            for q in eng.call_value(s, eng.load(s, sublocs(loc, 1)), [o.a[2][0]], c.frame, ("map", c.bb)):
                if q[0] == "ret":
                    res.append((q[1], some(q[2])))
        return res
    if tag == "it:enum":
        n = it_len(eng, f[0])
        if n is None:
            raise Unsupported("reverse enumerate")
        idx = add(f[1], n, -1)
        return [(s, o if o is NONE else some(tup(idx, o.a[2][0]))) for s, o in it_next_back(eng, st, sublocs(loc, 0), c)]
    if tag == "it:rev":
        return it_next(eng, st, sublocs(loc, 0), c)
    raise Unsupported("next_back on " + tag)


def it_len(eng, v):
    if not (isinstance(v, T) and v.op == "agg"):
        return None
    tag, f = v.a[0], v.a[2]
    if tag in ("it:slice", "it:seq"):
        return sub(f[2], f[1])
    if tag in ("Range", "it:rangeincl"):
        return tmax((sub(f[1], f[0]), 0))
    if tag in ("it:map", "it:copied", "it:enum", "it:rev", "it:inspect"):
        return it_len(eng, f[0])
    if tag == "it:zip":
        a, b = it_len(eng, f[0]), it_len(eng, f[1])
        return None if a is None or b is None else tmin((a, b))
    if tag == "it:take":
        a = it_len(eng, f[0])
        return None if a is None else tmin((a, f[1]))
    return None


NEXT = r"(Iterator|Iterator>|Iterator for .*>)::"


@model(r"(std::iter::DoubleEndedIterator)(>| for .*>)?::next_back$")
def m_nextback(eng, st, c):
    if c.fn.get("body") and c.fn["crate"] in eng.F.ws:
        return None
    return it_next_back(eng, st, loc_of(eng, st, c.args[0]), c)


@model(NEXT + r"next$")
def m_next(eng, st, c):
    if c.fn.get("body") and c.fn["crate"] in eng.F.ws:
        return None
    loc = loc_of(eng, st, c.args[0])
    v = eng.force(eng.load(st, loc), st)
    if isinstance(v, T) and v.op == "agg" and v.a[0] in FILTERS:
        return filter_next(eng, st, loc, v, c)
    if isinstance(v, T) and v.op == "app":
        return None
    return it_next(eng, st, loc, c)


FILTERS = ("it:filter", "it:filter_map", "it:take_while", "it:map_while", "it:flatten")


def flat_item(eng, s, x):
    """the Option that an Option, a Result or a reference to one contributes to a flattened iterator"""
    x = eng.force(x, s)
    if isinstance(x, T) and x.op == "ref":
        o = eng.force(eng.load(s, (x.a[0], x.a[1])), s)
        if isinstance(o, T) and o.op == "agg" and o.a[0] in ("Option", "Result"):
            if o.a[1] == (1 if o.a[0] == "Option" else 0):
                return some(ref(x.a[0], x.a[1] + (("f", o.a[1], 0, None),)))
            return NONE
        x = o
    if isinstance(x, T) and x.op == "agg" and x.a[0] == "Option":
        return x
    if isinstance(x, T) and x.op == "agg" and x.a[0].startswith("Result"):
        return some(x.a[2][0]) if x.a[1] == 0 else NONE
    raise Unsupported("flattening " + show(x)[:60])


def filter_next(eng, st, loc, v, c):
    """next on filtering adaptors: an inner search loop"""
    tag = v.a[0]
    if tag in ("it:take_while", "it:map_while"):
        if v.a[2][2] == 1:
            return [(st, NONE)]
        res = []
        for s, o in it_next(eng, st, sublocs(loc, 0), c):
            if o is NONE:
                res.append((s, NONE))
                continue
            x = o.a[2][0]
            if tag == "it:map_while":
                for q in eng.call_value(s, eng.load(s, sublocs(loc, 1)), [x], c.frame, ("mw", c.bb)):
                    if q[0] == "ret":
                        res.append((q[1], q[2]))
                continue
            h = ("H", c.frame.fid, str(c.bb), "tw")
            s.mem[h] = x
            for q in eng.call_value(s, eng.load(s, sublocs(loc, 1)), [ref(h)], c.frame, ("tw", c.bb)):
                if q[0] == "ret":
                    for s2, keep in split(eng, q[1], q[2]):
                        if not keep:
                            eng.store_loc(s2, sublocs(loc, 2), 1)
                        res.append((s2, o if keep else NONE))
        return res
    out_ = ("H", c.frame.fid, str(c.bb), "fnext")
    st.mem[out_] = NONE

    def body(s, x):
        r = []
        if tag == "it:filter":
            h = ("H", c.frame.fid, str(c.bb), "flt")
            s.mem[h] = x
            for q in eng.call_value(s, eng.load(s, sublocs(loc, 1)), [ref(h)], c.frame, ("flt", c.bb)):
                if q[0] == "ret":
                    for s2, keep in split(eng, q[1], q[2]):
                        if keep:
                            s2.mem[out_] = some(x)
                        r.append((s2, ("found",) if keep else None))
        elif tag == "it:flatten":
            for s2, o in forking(eng, s, lambda w: [(w, flat_item(eng, w, x))]):
                if o is not NONE:
                    s2.mem[out_] = o
                r.append((s2, ("found",) if o is not NONE else None))
        else:
            for q in eng.call_value(s, eng.load(s, sublocs(loc, 1)), [x], c.frame, ("flt", c.bb)):
                if q[0] == "ret":
                    for s2, o in split_opt(eng, q[1], q[2]):
                        if o is not NONE:
                            s2.mem[out_] = o
                        r.append((s2, ("found",) if o is not NONE else None))
        return r
    res = []
    for s, pay in loop_over(eng, st, c, sublocs(loc, 0), body, "fnext"):
        res.append((s, s.mem.pop(out_) if pay[0] == "found" else NONE))
    return res


def split(eng, st, cond):
    """[(state, bool)]"""
    cond = eng.force(cond, st)
    d = st.facts.decide(cond)
    if d is not None:
        return [(st, d)]
    r = []
    a = st.clone()
    if a.assume(cond, True):
        r.append((a, 1))
    b = st.clone()
    if b.assume(cond, False):
        r.append((b, 0))
    return r


def split_opt(eng, st, o):
    def f(s):
        v = eng.force(o, s)
        if isinstance(v, T) and v.op == "agg":
            return [(s, v)]
        raise Unsupported("opaque option " + show(v)[:60])
    return forking(eng, st, f)


# ---------------------------------------------------------------- consumers
def loop_over(eng, st, c, loc, body, tag):
    """run body(state, item) -> [(state, None | exit payload)] for every item"""
    def step(s):
        r = []
        for s1, o in forking(eng, s, lambda w: next_any(eng, w, loc, c, tag)):
            if o is NONE:
                r.append(("exit", s1, ("done",)))
                continue
            for s2, pay in forking(eng, s1, lambda w: body(w, o.a[2][0])):
                r.append(("next", s2, None) if pay is None else ("exit", s2, pay))
        return r
    few = eng.few_items(st, eng.force(eng.load(st, loc), st))
    return eng.do_loop(st, step, iuid(c, tag), where_of(eng, c), c.frame.fn["name"], few)


def next_any(eng, st, loc, c, tag):
    v = eng.force(eng.load(st, loc), st)
    n = 0
    while isinstance(v, T) and v.op == "ref" and n < 4:
        loc = (v.a[0], v.a[1])
        v = eng.force(eng.load(st, loc), st)
        n += 1
    if isinstance(v, T) and v.op == "agg" and v.a[0] in FILTERS:
        return filter_next(eng, st, loc, v, c)
    return it_next(eng, st, loc, c)


def start(eng, st, c, tag, i=0):
    h = ("H", c.frame.fid, str(c.bb), tag, "it")
    v = eng.force(c.args[i], st)
    if isinstance(v, T) and v.op == "ref":
        x = eng.force(eng.load(st, (v.a[0], v.a[1])), st)
        if isinstance(x, T) and is_seq(x):
            v = it_slice((v.a[0], v.a[1]), 0, slen(x), ety_of(eng, c, i, x))
        else:
            return (v.a[0], v.a[1]), None
    if isinstance(v, T) and is_seq(v):
        v = agg("it:seq", 0, (v, 0, slen(v), -1 if ety_of(eng, c, i, v) is None else ety_of(eng, c, i, v)))
    if isinstance(v, T) and v.op == "agg" and v.a[0] == "Option":
        v = agg("it:opt", 0, (v,))
    st.mem[h] = v
    return (h, ()), h


def acc(c, tag):
    return ("H", c.frame.fid, str(c.bb), tag, "acc")


@model(NEXT + r"(for_each)$")
def m_foreach(eng, st, c):
    loc, h = start(eng, st, c, "fe")

    def body(s, x):
        return [(q[1], None) if q[0] == "ret" else (q[1], ("panic", q[2])) for q in eng.call_value(s, c.args[1], [x], c.frame, ("fe", c.bb))]
    res = []
    for s, pay in loop_over(eng, st, c, loc, body, "fe"):
        s.mem.pop(h, None)
        res.append((s, UNIT) if pay[0] != "panic" else ("panic", s, pay[1]))
    return res


@model(NEXT + r"(fold|try_fold|try_for_each)$")
def m_fold(eng, st, c):
    m = c.defn.rsplit("::", 1)[1]
    loc, h = start(eng, st, c, m)
    A = acc(c, m)
    f = c.args[-1]
    st.mem[A] = c.args[1] if m != "try_for_each" else UNIT
    R = ("H", c.frame.fid, str(c.bb), m, "res")

    def body(s, x):
        r = []
        a = [x] if m == "try_for_each" else [s.mem[A], x]
        for q in eng.call_value(s, f, a, c.frame, (m, c.bb)):
            if q[0] == "panic":
                r.append((q[1], ("panic", q[2])))
                continue
            s2, v = q[1], q[2]
            if m == "fold":
                s2.mem[A] = v
                r.append((s2, None))
                continue

            def g(w):
                z = eng.force(v, w)
                if not (isinstance(z, T) and z.op == "agg"):
                    raise Unsupported("opaque try value")
                cont = (z.a[0] == "Result" and z.a[1] == 0) or (z.a[0] == "Option" and z.a[1] == 1) or (z.a[0] == "ControlFlow" and z.a[1] == 0)
                if cont:
                    w.mem[A] = z.a[2][0]
                    return [(w, None)]
                w.mem[R] = z
                return [(w, ("stop",))]
            r.extend(forking(eng, s2, g))
        return r
    res = []
    for s, pay in loop_over(eng, st, c, loc, body, m):
        s.mem.pop(h, None)
        if pay[0] == "panic":
            res.append(("panic", s, pay[1]))
            continue
        v = s.mem.pop(A)
        if m == "fold":
            res.append((s, v))
        elif pay[0] == "stop":
            res.append((s, s.mem.pop(R)))
        else:
            n = eng.ty[c.dty]["n"]
            res.append((s, ok(v) if n == "Result" else some(v) if n == "Option" else agg("ControlFlow", 0, (v,))))
    return res


@model(NEXT + r"(sum|product|count|max|min|last)$")
def m_sum(eng, st, c):
    m = c.defn.rsplit("::", 1)[1]
    if m == "count":
        n = it_len(eng, eng.force(c.args[0], st))
        if n is not None:
            return [(st, n)]
    loc, h = start(eng, st, c, m)
    A = acc(c, m)
    ty = eng.int_ty(c.dty)
    if m in ("sum", "product") and not ty:
        return None
    st.mem[A] = 0 if m in ("sum", "count") else 1 if m == "product" else NONE

    def body(s, x):
        a = s.mem[A]
        if m == "count":
            s.mem[A] = add(a, 1)
        elif m in ("sum", "product"):
            x = eng.deval(x, s)
            s.mem[A] = wrap(ty, add(a, x) if m == "sum" else mul(a, x), s.facts)
        else:
            raise Unsupported(m)
        return [(s, None)]
    if m in ("max", "min"):
        return extremum(eng, st, c, loc, h, m)
    if m == "last":
        return None
    res = []
    for s, pay in loop_over(eng, st, c, loc, body, m):
        s.mem.pop(h, None)
        res.append((s, s.mem.pop(A)))
    return res


def extremum(eng, st, c, loc, h, m):
    """max and min of integers: a fold from the other end of the type's range, or None of nothing"""
    n = it_len(eng, eng.force(eng.load(st, loc), st))
    it = eng.ty[eng.ty[c.dty]["a"][0]] if eng.ty[c.dty]["k"] == "adt" and eng.ty[c.dty]["n"] == "Option" else None
    tid = eng.ty[c.dty]["a"][0] if it else None
    by_ref = tid is not None and it["k"] == "ref"
    if by_ref:
        tid = it["t"]
    ty = eng.int_ty(tid) if tid is not None else None
    if n is None or not ty:
        return None
    A = acc(c, m)
    lo, hi = INT_RANGE[ty]
    res = []

    def body(s, x):
        x = eng.deval(x, s)
        s.mem[A] = (tmax if m == "max" else tmin)((s.mem[A], x))
        return [(s, None)]
    for w, some_ in split(eng, st, ge(n, 1)):
        if not some_:
            w.mem.pop(h, None)
            res.append((w, NONE))
            continue
        w.mem[A] = lo if m == "max" else hi
        for s, pay in loop_over(eng, w, c, loc, body, m):
            s.mem.pop(h, None)
            v = s.mem.pop(A)
            if by_ref:
                k = ("H", c.frame.fid, str(c.bb), m, "out")
                s.mem[k] = v
                v = ref(k)
            res.append((s, some(v)))
    return res


@model(NEXT + r"(any|all|find|position|find_map)$")
def m_any(eng, st, c):
    m = c.defn.rsplit("::", 1)[1]
    loc, h = start(eng, st, c, m)
    R = ("H", c.frame.fid, str(c.bb), m, "res")
    A = acc(c, m)
    if m == "position":
        st.mem[A] = 0

    def body(s, x):
        r = []
        a = x
        if m == "find":
            hh = ("H", c.frame.fid, str(c.bb), m, "x")
            s.mem[hh] = x
            a = ref(hh)
        for q in eng.call_value(s, c.args[1], [a], c.frame, (m, c.bb)):
            if q[0] == "panic":
                r.append((q[1], ("panic", q[2])))
                continue
            if m == "find_map":
                for s2, o in split_opt(eng, q[1], q[2]):
                    if o is not NONE:
                        s2.mem[R] = o
                    r.append((s2, ("hit",) if o is not NONE else None))
                continue
            for s2, t in split(eng, q[1], q[2]):
                hit = (not t) if m == "all" else t
                if hit:
                    if m == "find":
                        s2.mem[R] = some(x)
                    elif m == "position":
                        s2.mem[R] = some(s2.mem[A])
                elif m == "position":
                    s2.mem[A] = add(s2.mem[A], 1)
                r.append((s2, ("hit",) if hit else None))
        return r
    res = []
    for s, pay in loop_over(eng, st, c, loc, body, m):
        s.mem.pop(h, None)
        s.mem.pop(A, None)
        if pay[0] == "panic":
            res.append(("panic", s, pay[1]))
        elif m == "any":
            res.append((s, int(pay[0] == "hit")))
        elif m == "all":
            res.append((s, int(pay[0] != "hit")))
        else:
            res.append((s, s.mem.pop(R) if pay[0] == "hit" else NONE))
    return res


@model(NEXT + r"collect$", r"^std::iter::FromIterator::from_iter$", r"FromIterator<.*>>::from_iter$", r"(Extend<.*>>|Extend)::extend$", r"FromIterator<.*> for .*>::from_iter$", r"impl std::iter::Extend<.*>::extend$")
def m_collect(eng, st, c):
    ext = c.defn.endswith("extend")
    wrapk = None
    if ext:
        tl, cur = seq_at(eng, st, c.args[0])
        if not (isinstance(cur, T) and is_seq(cur)):
            return None
    else:
        t = eng.ty[c.dty]
        if t["k"] == "adt" and t["n"] in ("Result", "Option"):
            wrapk = t["n"]
            t = eng.ty[t["a"][0]]
        if not (t["k"] == "adt" and t["n"] in ("Vec", "TinyVec", "Box", "VecDeque")):
            return None
        cur = EMPTY
    v0 = eng.force(c.args[1 if ext else 0], st)
    # plain copies need no loop
    if isinstance(v0, T) and v0.op == "agg" and v0.a[0] == "it:seq":
        x = ssub(v0.a[2][0], v0.a[2][1], sub(v0.a[2][2], v0.a[2][1]), st.facts)
        if ext:
            eng.store_loc(st, tl, cat((cur, x)))
            return [(st, UNIT)]
        if wrapk is None:
            return [(st, x)]
    by_ref = ext and "&" in c.defn
    if by_ref and isinstance(v0, T) and v0.op == "ref":
        x = eng.force(eng.load(st, (v0.a[0], v0.a[1])), st)
        if isinstance(x, T) and is_seq(x):
            v0 = it_slice((v0.a[0], v0.a[1]), 0, slen(x), ety_of(eng, c, 1, x))
    if by_ref and isinstance(v0, T) and v0.op == "agg" and v0.a[0] == "it:slice":
        v0 = agg("it:copied", 0, (v0,))
    if isinstance(v0, T) and v0.op == "agg" and v0.a[0] == "it:copied" and isinstance(v0.a[2][0], T) and v0.a[2][0].op == "agg" \
            and v0.a[2][0].a[0] == "it:slice" and wrapk is None:
        b, lo, hi, ety = v0.a[2][0].a[2]
        x = ssub(eng.force(eng.load(st, (b.a[0], b.a[1])), st), lo, sub(hi, lo), st.facts)
        if ext:
            eng.store_loc(st, tl, cat((cur, x)))
            return [(st, UNIT)]
        return [(st, x)]
    loc, h = start(eng, st, c, "col", 1 if ext else 0)
    A = acc(c, "col")
    st.mem[A] = cur
    R = ("H", c.frame.fid, str(c.bb), "col", "res")
    deref_items = False
    if ext:
        # Extend<&T>
        ety = ety_of(eng, c, 0, cur)
        deref_items = "&" in c.defn

    def body(s, x):
        if deref_items:
            x = eng.deval(x, s)
        if wrapk:
            z = eng.force(x, s)
            if not (isinstance(z, T) and z.op == "agg"):
                raise Unsupported("collect opaque")
            good = z.a[1] == (0 if wrapk == "Result" else 1)
            if not good:
                s.mem[R] = z
                return [(s, ("stop",))]
            x = z.a[2][0]
        s.mem[A] = cat((s.mem[A], mk("arr", (x,))))
        return [(s, None)]
    res = []
    for s, pay in loop_over(eng, st, c, loc, body, "col"):
        s.mem.pop(h, None)
        v = s.mem.pop(A)
        if pay[0] == "stop":
            res.append((s, s.mem.pop(R)))
            continue
        if ext:
            eng.store_loc(s, tl, v)
            res.append((s, UNIT))
        else:
            res.append((s, ok(v) if wrapk == "Result" else some(v) if wrapk == "Option" else v))
    return res


@model(NEXT + r"(len|size_hint)$", r"ExactSizeIterator.*::len$")
def m_itlen(eng, st, c):
    if c.defn.endswith("size_hint"):
        return None
    v = eng.deval(c.args[0], st)
    n = it_len(eng, v)
    return None if n is None else [(st, n)]


@model(NEXT + r"nth$")
def m_nth(eng, st, c):
    loc = loc_of(eng, st, c.args[0])
    k = eng.deval(c.args[1], st)
    if k == 0:
        return it_next(eng, st, loc, c)
    v = eng.force(eng.load(st, loc), st)
    if isinstance(v, T) and v.op == "agg" and v.a[0] in ("it:slice", "it:seq"):
        r = it_skip(eng, st, v, k)
        eng.store_loc(st, loc, r)
        return it_next(eng, st, loc, c)
    return None


# ---------------------------------------------------------------- floats (opaque but pure)
@model(r"^(core|std)::f(32|64)::<impl f(32|64)>::")
def m_float(eng, st, c):
    vals = tuple(eng.deval(a, st) for a in c.args)
    nm = c.defn.rsplit("::", 1)[1]
    ty = re.search(r"<impl (f\d+)>", c.defn).group(1)
    if nm == "to_bits":
        x = vals[0]
        if isinstance(x, T) and x.op == "fop" and x.a[0] == "frombits":
            return [(st, x.a[1])]
        return [(st, app("tobits:" + ty, vals, ("r", 0, (1 << (32 if ty == "f32" else 64)) - 1)))]
    if nm == "from_bits":
        return [(st, mk("fop", "frombits", vals[0]))]
    if c.dty is not None and eng.int_ty(c.dty):
        return [(st, app("f:" + nm, vals, ("r",) + INT_RANGE[eng.int_ty(c.dty)]))]
    return [(st, mk("fop", nm, *vals))]


# ---------------------------------------------------------------- io helpers
@model(r"^alloc::io::impls::<impl std::io::(Read|Write) for &mut .>::", r"^core::io::impls::<impl std::io::(Read|Write) for &mut .>::", r"^std::io::impls::<impl std::io::(Read|Write|Seek) for &mut .>::", r"<impl std::io::(Read|Write|Seek) for &mut \w>::")
def m_iofwd(eng, st, c):
    # forwarding implementation for &mut T
    m = c.defn.rsplit("::", 1)[1]
    a = list(c.args)
    a[0] = eng.force(eng.load(st, loc_of(eng, st, a[0])), st)
    tr = "Read" if "::Read for" in c.defn else "Write" if "::Write for" in c.defn else "Seek"
    fn = {"id": -1, "name": "std::io::%s::%s" % (tr, m), "def": "std::io::%s::%s" % (tr, m), "crate": "std", "kind": "item", "body": None}
    aty = list(c.aty)
    if aty[0] is not None:
        aty[0] = eng.pointee(aty[0])
    return eng.dispatch(st, fn, a, c.frame, c.bb, aty, c.dty, c.span, c.fty)


@model(r"^std::io::Write::(write_all|write|flush)$", r"<impl std::io::Write for std::vec::Vec<u8, A>>::(write_all|write|flush)$", r"impl std::io::Write for std::vec::Vec<.*>>::(write_all|write|flush)$",
       r"impl std::io::Write for (alloc::)?vec::Vec<.*>>::(write_all|write|flush)$")
def m_vecwrite(eng, st, c):
    """writing to a vector appends to it and cannot fail"""
    ti = c.aty[0]
    for _ in range(4):
        if ti is None or eng.pointee(ti) is None:
            break
        ti = eng.pointee(ti)
    if ti is None or eng.ty[ti]["k"] != "adt" or eng.ty[ti]["n"] != "Vec":
        return None
    loc, s = seq_at(eng, st, c.args[0])
    if not (isinstance(s, T) and is_seq(s)):
        return None
    m = c.defn.rsplit("::", 1)[1]
    if m == "flush":
        return [(st, ok(UNIT))]
    x = seq_at(eng, st, c.args[1])[1]
    eng.store_loc(st, loc, cat((s, x)))
    return [(st, ok(slen(x) if m == "write" else UNIT))]
