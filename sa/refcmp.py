"""Comparing abstract code paths with reference functions, partition by partition."""
from terms import *
import engine as E
from engine import agg, slen, mk, subst


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class Ctx:
    """Reference functions are ordinary Python over terms; a condition is decided by the facts of the
    code path at hand, or else both of its sides are examined."""

    def __init__(self, facts, eng=None, st=None):
        self.facts = facts
        self.eng = eng
        self.st = st

    def b(self, cond):
        d = self.facts.decide(cond)
        if d is None:
            raise Split(cond)
        return bool(d)


def ref_runs(facts, fn, eng=None, st=None, limit=400):
    """[(facts, result)] of reference fn(ctx) on every side of the conditions the facts leave open"""
    out, todo = [], [facts]
    while todo:
        f = todo.pop()
        c = Ctx(f, eng, st)
        try:
            out.append((f, fn(c)))
        except Split as s:
            for v in (1, 0):
                g = f.assume(s.cond, v)
                if g is not None:
                    todo.append(g)
        if len(out) + len(todo) > limit:
            raise E.Unsupported("reference splits too often")
    return out


class St:
    """minimal state for engine helpers that only need facts"""

    def __init__(self, facts):
        self.facts = facts


ARITH = ("lin", "wrap", "rem", "div", "ite", "max", "min", "mono", "ge", "eq", "cases")


def shallow(t, facts):
    """renorm for the arithmetic of a term only: what it computes with keeps its name"""
    atoms = {}

    def walk(t):
        if isinstance(t, T):
            if t in atoms:
                return
            if t.op in ARITH:
                for x in t.a:
                    walk(x)
            else:
                atoms[t] = t
        elif isinstance(t, tuple):
            for x in t:
                walk(x)
    walk(t)
    return renorm(t, facts, atoms)


def renorm(t, facts, cache=None):
    """rebuild the term under the facts (drops reductions that are the identity there)"""
    if cache is None:
        cache = {}
    if isinstance(t, tuple):
        return tuple(renorm(x, facts, cache) for x in t)
    if not isinstance(t, T):
        return t
    r = cache.get(t)
    if r is not None:
        return r
    if t.op == "lin":
        r = add(t.a[0], *[scale(renorm(x, facts, cache), k) for x, k in t.a[1]])
    elif t.op == "wrap":
        r = wrap(t.a[0], renorm(t.a[1], facts, cache), facts)
    elif t.op == "rem":
        r = rem(renorm(t.a[0], facts, cache), renorm(t.a[1], facts, cache), facts)
    elif t.op == "div":
        r = div(renorm(t.a[0], facts, cache), renorm(t.a[1], facts, cache), facts)
    elif t.op == "ite":
        c = renorm(t.a[0], facts, cache)
        d = facts.decide(c) if isinstance(c, T) else c
        if d is None:
            r = E.ite(c, renorm(t.a[1], facts, cache), renorm(t.a[2], facts, cache))
        else:
            r = renorm(t.a[1] if d else t.a[2], facts, cache)
    elif t.op == "cases":
        r = None
        live = []
        for ls, x in t.a[0]:
            ds = [(facts.decide(c) if isinstance(c, T) else int(bool(c)), v) for c, v in ls]
            if any(d is not None and bool(d) != bool(v) for d, v in ds):
                continue
            if all(d is not None for d, v in ds):
                r = renorm(x, facts, cache)
                break
            live.append((ls, x))
        if r is None:
            r = t if len(live) == len(t.a[0]) or not live else renorm(live[0][1], facts, cache) if len(live) == 1 else mk("cases", tuple(live))
    elif t.op in ("max", "min"):
        xs = [renorm(x, facts, cache) for x in t.a[0]]
        keep = []
        for i, x in enumerate(xs):
            dom = False
            for j, y in enumerate(xs):
                if i == j or any(y is k for k in ()):
                    continue
                g = ge(y, x) if t.op == "max" else ge(x, y)
                if facts.decide(g) == 1 and not (j > i and facts.decide(ge(x, y) if t.op == "max" else ge(y, x)) == 1):
                    dom = True
                    break
            if not dom:
                keep.append(x)
        r = keep[0] if len(keep) == 1 else (tmax(tuple(keep)) if t.op == "max" else tmin(tuple(keep)))
    elif t.op == "app":
        a = tuple(renorm(x, facts, cache) for x in t.a[1])
        r = t if a == t.a[1] else mk("app", t.a[0], a, t.a[2])
    elif t.op in ("seqsym",):
        r = t
    else:
        n = tuple(renorm(x, facts, cache) for x in t.a)
        r = t if n == t.a else E.rebuild(t.op, n)
    if isinstance(r, T):
        l, h = rng(r, facts) if E.is_intish(r) else (0, 1)
        if l == h:
            r = l
    cache[t] = r
    return r


def same(a, b, facts):
    if a is b or a == b:
        return True
    if isinstance(a, T) and isinstance(b, T) and a.op == "agg" and b.op == "agg":
        return a.a[0].split("<")[0] == b.a[0].split("<")[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and \
            all(same(x, y, facts) for x, y in zip(a.a[2], b.a[2]))
    for t in (a, b):
        if isinstance(t, T) and t.op in ("agg", "seqsym", "arr", "cat", "ref", "str"):
            break
    else:
        try:
            if facts.decide(eq(a, b)) == 1:
                return True
        except (TypeError, AttributeError):
            pass
    ra, rb = renorm(a, facts), renorm(b, facts)
    if ra is a and rb is b:
        return False
    if ra == rb:
        return True
    if isinstance(ra, T) and isinstance(rb, T) and ra.op == "agg" and rb.op == "agg":
        return same(ra, rb, facts) if (ra is not a or rb is not b) else False
    if E.is_intish(ra) and E.is_intish(rb):
        return facts.decide(eq(ra, rb)) == 1
    return False


def split_same(a, b, facts, limit=64):
    """equality decided on every side of the conditions gating either value; -> None or a witness fact set"""
    conds = gates(a, []) + gates(b, [])
    todo = [facts]
    n = 0
    while todo:
        f = todo.pop()
        n += 1
        if same(a, b, f):
            continue
        for c in conds:
            if f.decide(c) is None:
                break
        else:
            return f
        if n > limit:
            return f
        for v in (1, 0):
            g = f.assume(c, v)
            if g is not None:
                todo.append(g)
    return None


def gates(t, acc, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, tuple):
        for x in t:
            gates(x, acc, seen)
        return acc
    if not isinstance(t, T) or t in seen:
        return acc
    seen.add(t)
    if t.op == "ite":
        acc.append(t.a[0])
    elif t.op == "cases":
        for lits, _ in t.a[0]:
            acc.extend(c for c, _ in lits)
    elif t.op in ("max", "min") and len(t.a[0]) == 2:
        acc.append(ge(t.a[0][0], t.a[0][1]))
    for x in t.a:
        gates(x, acc, seen)
    return acc


class Report:
    """violations of several properties found by one analysis"""

    def __init__(self):
        self.viol = []   # (property, key, text, where)
        self.cov = {}

    def bad(self, prop, key, text, where=""):
        for v in self.viol:
            if v[0] == prop and v[1] == key:
                return
        self.viol.append((prop, key, text, where))

    def n(self, prop, what, k=1):
        d = self.cov.setdefault(prop, {})
        d[what] = d.get(what, 0) + k

    def merge(self, o):
        for v in o.viol:
            self.bad(*v)
        for p, d in o.cov.items():
            for k, x in d.items():
                self.n(p, k, x)
