"""Setup header and audio packets: what is read, kept and written."""
import re
from terms import *
import engine as E
from engine import Engine, agg, ref, ok, err, mk, slen, subst, NeedFork, cat
from refcmp import Report, Ctx, Split, St, ref_runs, same, renorm
import optim
from optim import H, Run, is_ok, is_err, payload, fork_ref, combine, pieces

RD, WR = r"^vorbis_bitpack::BitpackReader::<.*>::", r"^vorbis_bitpack::BitpackWriter::<.*>::"


def width(eng, st, v):
    v = eng.force(v, st)
    while isinstance(v, T) and v.op == "agg":
        v = eng.force(v.a[2][0], st)
    return v


def wordrange(eng, st, w):
    if isinstance(w, int):
        return (1 << w) - 1
    return (1 << 32) - 1


def vec_loc(eng, st, v, ti=None):
    """location of the Vec behind references"""
    for _ in range(6):
        v = eng.force(v, st)
        if isinstance(v, T) and v.op == "ref":
            loc = eng.deref(v, st, None)
            w = eng.force(eng.load(st, loc), st)
            if isinstance(w, T) and w.op == "ref":
                v = w
                continue
            return loc
        break
    raise E.Unsupported("the sink of a bit packer is %s" % show(v)[:80])


class Chain(Run):
    """An optimiser whose bit packers and codebooks are replaced by their contracts (C20, C21, C03..C05)."""

    def __init__(self, F, read_errors=False, **opts):
        self.read_errors = read_errors
        self.cbs = {}
        hooks = [
            (RD + "new$", self.h_rnew), (RD + "read_unsigned_integer$", self.h_read), (RD + "read_flag$", self.h_flag),
            (RD + "read_float32$", self.h_float), (RD + "read_signed_integer$", self.h_unknown),
            (WR + "new$", self.h_wnew), (WR + "write_unsigned_integer$", self.h_write), (WR + "write_flag$", self.h_write),
            (WR + "write_float32$", self.h_writef), (WR + "write_signed_integer$", self.h_unknown),
            (WR + "(finalize|flush)$|^<vorbis_bitpack::BitpackWriter<.*> as .*Drop>::drop$", self.h_final),
            (r"VorbisCodebook::new(::<.*>)?$", self.h_cbnew),
            (r"VorbisCodebook::decode_entry_number(::<.*>)?$", self.h_decode),
            (r"VorbisCodebook::optimal_codeword_lengths$", self.h_lengths),
            (r"VorbisCodebook::optimal_codewords$", self.h_codewords),
            (r"::lookup1_values$", self.h_lookup1),
            (r"^std::io::Error::kind$", self.h_kind), (r"^<std::io::ErrorKind as std::cmp::PartialEq>::(eq|ne)$", self.h_kind_eq),
            (r"GroupBy<.*>::(exponential|linear|binary)_group(_by|_by_key)?$|^core::slice::<impl \[T\]>::chunk_by$", self.h_group),
        ]
        super().__init__(F, hooks, **opts)

    # ---------------- readers
    def h_unknown(self, eng, st, c):
        raise E.Unsupported("%s is not part of the setup header or audio packet format" % c.defn)

    def h_rnew(self, eng, st, c):
        import models
        try:
            s = models.seq_at(eng, st, c.args[0])[1]
        except E.Unsupported:
            s = c.args[0]
        st.emit(("ev", "reader", (s,), None, c.span))
        return None

    def fail(self, eng, st, c, what):
        s = st.clone()
        t = eng.ty[c.dty]["a"][1]
        s.emit(("ev", "eof", (what,), None, c.span))
        if self.read_errors != "kinds":
            return [(s, err(app("eof", s.binders, ("ty", t))))]
        # the packet is over, or the reader fails for another reason
        o = st.clone()
        o.emit(("ev", "io_error", (what,), None, c.span))
        return [(s, err(agg("io::Error:eof", 0, ()))), (o, err(agg("io::Error:other", 0, ())))]

    def h_kind(self, eng, st, c):
        v = eng.force(eng.load(st, eng.deref(c.args[0], st)), st)
        t = eng.ty[c.dty]
        if isinstance(v, T) and v.op == "agg" and v.a[0].startswith("io::Error:"):
            nm = "UnexpectedEof" if v.a[0].endswith("eof") else "Other"
            return [(st, agg("ErrorKind", [x["n"] for x in t["v"]].index(nm), ()))]
        return None

    def h_kind_eq(self, eng, st, c):
        a, b = [eng.discr(eng.load(st, eng.deref(x, st)), eng.pointee(t), st) for x, t in zip(c.args, c.aty)]
        r = eq(a, b)
        return [(st, bnot(r) if c.defn.endswith("ne") else r)]

    def h_read(self, eng, st, c):
        w = width(eng, st, c.args[1])
        r = app(eng.occ(st, c, "rd"), st.binders, ("r", 0, wordrange(eng, st, w)))
        out = []
        if self.read_errors:
            out += self.fail(eng, st, c, w)
        if not isinstance(w, int):
            st.assume(lt(r, pow2(w, st.facts)), True)
        if same(w, 0, st.facts):
            r = 0
        st.emit(("ev", "read", (w,), r, c.span))
        return out + [(st, ok(r))]

    def h_flag(self, eng, st, c):
        r = app(eng.occ(st, c, "rf"), st.binders, ("r", 0, 1))
        out = []
        if self.read_errors:
            out += self.fail(eng, st, c, 1)
        st.emit(("ev", "read", (1,), r, c.span))
        return out + [(st, ok(r))]

    def h_float(self, eng, st, c):
        r = app(eng.occ(st, c, "rx"), st.binders, ("ty", eng.ty[c.dty]["a"][0]))
        out = []
        if self.read_errors:
            out += self.fail(eng, st, c, "float")
        st.emit(("ev", "read", ("float",), r, c.span))
        return out + [(st, ok(r))]

    # ---------------- writers
    def h_wnew(self, eng, st, c):
        loc = vec_loc(eng, st, c.args[0])
        s = eng.force(eng.load(st, loc), st)
        st.emit(("ev", "writer", (s,), None, c.span))
        return None

    def h_write(self, eng, st, c):
        w = width(eng, st, c.args[2]) if len(c.args) > 2 else 1
        st.emit(("ev", "write", (w, eng.force(c.args[1], st)), None, c.span))
        return [(st, ok(agg("()", 0, ())))]

    def h_writef(self, eng, st, c):
        st.emit(("ev", "write", ("float", eng.force(c.args[1], st)), None, c.span))
        return [(st, ok(agg("()", 0, ())))]

    def h_final(self, eng, st, c):
        if c.defn.endswith("flush"):
            return [(st, ok(agg("()", 0, ())))]
        # the first finalisation marks where the packed bits end up
        done = st.mem.get(("H", "finalised"))
        if done is None:
            w = eng.load(st, eng.deref(c.args[0], st))
            w = eng.force(w, st)
            sinks = [x for x in w.a[2] if isinstance(x, T) and x.op == "ref"]
            if len(sinks) != 1:
                raise E.Unsupported("the sink of a bit packer is not known")
            loc = vec_loc(eng, st, sinks[0])
            s = eng.force(eng.load(st, loc), st)
            eng.store_loc(st, loc, cat((s, mk("seqsym", "packed", (), eng.F.u8, app("packed.len", (), ("r", 0, LEN_MAX))))))
            st.mem[("H", "finalised")] = 1
            st.emit(("ev", "finalised", (), None, c.span))
        if c.dty is not None and eng.ty[c.dty]["k"] == "adt" and eng.ty[c.dty]["n"] == "Result":
            return [(st, ok(agg("()", 0, ())))]
        return [(st, agg("()", 0, ()))]

    # ---------------- codebooks
    def h_cbnew(self, eng, st, c):
        import models
        s = models.seq_at(eng, st, c.args[1])[1]
        nm = eng.occ(st, c, "cb")
        ti = eng.ty[c.dty]["a"][0]
        v = eng.fresh(nm, st.binders, ti)
        fs = list(v.a[2])
        for i, (fn, ft) in enumerate(eng.ty[ti]["v"][0]["f"]):
            if fn == "codebook_number":
                fs[i] = c.args[0]
        v = agg(v.a[0], 0, fs)
        self.cbs[nm] = (st.binders, s)
        st.emit(("ev", "codebook", (c.args[0], s), app(nm, st.binders, None), c.span))
        return [(st, ok(v))]

    def which(self, eng, st, c):
        """(name, arguments) of a codebook made by h_cbnew"""
        v = eng.force(eng.load(st, eng.deref(c.args[0], st)), st)
        hit = set()

        def walk(t):
            if isinstance(t, T):
                if t.op in ("app", "seqsym") and isinstance(t.a[0], str) and t.a[0].startswith("cb@"):
                    hit.add((t.a[0].split(".")[0] + "." + t.a[0].split(".")[1], tuple(t.a[1])))
                elif t.op == "agg":
                    for x in t.a[2]:
                        walk(x)
        walk(v)
        if len(hit) != 1:
            raise E.Unsupported("codebook %s" % show(v)[:200])
        return hit.pop()

    def lengths_of(self, nm, args, facts):
        b, s = self.cbs[nm]
        return subst(s, dict(zip(b, args)))

    def h_decode(self, eng, st, c):
        nm, args = self.which(eng, st, c)
        n = slen(self.lengths_of(nm, args, st.facts))
        r = app(eng.occ(st, c, "entry"), st.binders, ("r", 0, (1 << 32) - 1))
        out = []
        if self.read_errors:
            t = eng.ty[c.dty]["a"][1]
            for i, v in enumerate(eng.ty[t]["v"]):
                if v["n"] == "InvalidCodebookCodewords":
                    continue
                s = st.clone()
                s.emit(("ev", "decode_eof" if v["n"].startswith("Eof") else "decode_error", (nm, args), None, c.span))
                out.append((s, err(agg(eng.ty[t]["n"], i, [eng.fresh("cberr%d.%d" % (i, j), s.binders, f[1]) for j, f in enumerate(v["f"])]))))
        st.assume(lt(r, n), True)
        st.emit(("ev", "decode", (nm,) + args, r, c.span))
        return out + [(st, ok(r))]

    def h_lengths(self, eng, st, c):
        nm, args = self.which(eng, st, c)
        n = slen(self.lengths_of(nm, args, st.facts))
        t = eng.ty[c.dty]
        s = mk("seqsym", "optlen", args, eng.elem_ty(t["t"]), n)
        key = ("H", "optlen", args)
        st.mem[key] = s
        eng.objty[key] = t["t"]
        st.emit(("ev", "lengths", args, s, c.span))
        return [(st, ref(key))]

    def h_codewords(self, eng, st, c):
        nm, args = self.which(eng, st, c)
        n = slen(self.lengths_of(nm, args, st.facts))
        return [(st, mk("seqsym", "optcw", args, eng.elem_ty(c.dty), n))]

    def h_lookup1(self, eng, st, c):
        """checked on its own"""
        return [(st, app("lookup1", (eng.force(c.args[0], st), eng.force(c.args[1], st)), ("r", 0, (1 << 32) - 1)))]

    def h_group(self, eng, st, c):
        """runs of a slice: one of them if it has a single element; several are not looked into"""
        import models
        s = models.seq_at(eng, st, c.args[0])[1]
        n = slen(s)
        if models.decide(st, lt(n, 1)):
            return [(st, agg("it:seq", 0, (E.EMPTY, 0, 0, -1)))]
        if models.decide(st, eq(n, 1)):
            return [(st, agg("it:seq", 0, (mk("arr", (c.args[0],)), 0, 1, -1)))]
        st.emit(("ev", "ordered-many", (s,), None, c.span))
        return [(st, agg("it:seq", 0, (E.EMPTY, 0, 0, -1)))]

    # ---------------- the optimiser after the comment header
    def general(self, vals, ti, name):
        """a value that stands for all the given ones: what differs becomes unknown"""
        a = vals[0]
        if all(v is a or v == a for v in vals):
            return a
        if isinstance(a, T) and a.op == "agg" and all(isinstance(v, T) and v.op == "agg" and v.a[:2] == a.a[:2] and len(v.a[2]) == len(a.a[2]) for v in vals):
            t = self.eng.ty[ti]
            if t["k"] == "adt" and len(t["v"]) > a.a[1]:
                fs = [f[1] for f in t["v"][a.a[1]]["f"]]
            elif t["k"] == "tuple":
                fs = t["f"]
            else:
                return self.eng.fresh(name, (), ti)
            if t["k"] == "adt" and t["n"] == "Option":
                return self.eng.fresh(name, (), ti)
            if len(fs) == len(a.a[2]):
                return agg(a.a[0], a.a[1], [self.general([v.a[2][i] for v in vals], f, "%s.%d" % (name, i)) for i, f in enumerate(fs)])
        return self.eng.fresh(name, (), ti)

    def after_comments(self):
        """(state, value) of the optimiser when the setup header is expected, whatever the comment header was"""
        e = self.eng
        starts = self.new()
        if len(starts) != 1:
            raise E.Unsupported("%d outcomes of a valid identification header" % len(starts))
        st, V = starts[0]
        st = st.clone()
        st.occ = {}
        st.trace = None
        self.comment = self.arg("root_analyze", 1, "comment")
        vals = []
        for o in self.on("root_analyze", st, V, self.comment):
            if o[0] == "ret" and is_ok(e.force(o[2], o[1])):
                vals.append(e.force(o[1].mem[H], o[1]))
        if not vals:
            raise E.Unsupported("no comment header is accepted")
        ti = e.pointee(self.root("root_analyze")["body"]["locals"][1])
        return st, self.general(vals, ti, "after_comments")
