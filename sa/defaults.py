"""Defaults of the settings, and what the settings given to a remuxer reach."""
from terms import *
import engine as E
import remux
from engine import Engine

WANT = {
    "Settings": dict(randomize_stream_serials=1, first_stream_serial_offset=0, ignore_start_sample_offset=0,
                     error_on_no_vorbis_streams=1, verify_ogg_page_checksums=1),
    "VorbisOptimizerSettings": dict(vendor_string_action="AppendTag", comment_fields_action="Copy"),
}


def aggs(v, name, acc=None):
    """the structs of that name within a value"""
    acc = [] if acc is None else acc
    if isinstance(v, T) and v.op == "agg":
        if v.a[0].rsplit("::", 1)[-1] == name:
            acc.append(v)
        else:
            for x in v.a[2]:
                aggs(x, name, acc)
    return acc


def adt(F, name):
    t = [t for t in F.tys if t["k"] == "adt" and t["n"].rsplit("::", 1)[-1] == name and t["c"] in ("optivorbis", "ogg")]
    if not t:
        raise E.Unsupported("no type %s" % name)
    return t[0]


def field(F, v, name):
    t = adt(F, v.a[0].rsplit("::", 1)[-1])
    for i, (n, ft) in enumerate(t["v"][v.a[1]]["f"]):
        if n == name:
            return v.a[2][i], ft
    raise E.Unsupported("no field %s" % name)


def named(F, v, ti):
    """a fieldless enum value by name"""
    t = F.tys[ti]
    if t["k"] == "adt" and t["kind"] == "enum" and isinstance(v, T) and v.op == "agg":
        return t["v"][v.a[1]]["n"]
    return v


def run(F, root, args, fns):
    e = Engine(F, [], {})
    out = e.call_fn(e.initial(), F.find(r"^vproots::%s$" % root)[0], args)
    fns |= e.analysed
    return e, out


def check(F, rep):
    fns = set()
    bad = lambda k, t: rep.bad("C26", k, t)
    # what the defaults are
    e, out = run(F, "root_defaults", [], fns)
    for o in out:
        if o[0] != "ret":
            bad("defaults-panic", "making a remuxer with the default settings may panic: %s" % (o[2],))
            continue
        v = e.deval(o[2], o[1])
        for s, want in WANT.items():
            got = aggs(v, s)
            if len(got) != 1:
                raise E.Unsupported("%d %s in a remuxer" % (len(got), s))
            for f, w in want.items():
                rep.n("C26", "defaults")
                x, ft = field(F, got[0], f)
                x = named(F, e.force(x, o[1]), ft)
                if x != w:
                    bad("default:" + f, "the default of %s is %s instead of %s" % (f, show(x) if isinstance(x, T) else x, w))
    # the default mangler changes nothing
    roots = [fn["name"].rsplit("::", 1)[1] for fn in F.find(r"^vproots::root_pass_\w+$")]
    for r in roots:
        e = Engine(F, [], {})
        fn = F.find(r"^vproots::%s$" % r)[0]
        st = e.initial()
        tys = fn["body"]["locals"][1:1 + fn["body"]["argc"]]
        args = [e.fresh("arg%d" % i, (), t) for i, t in enumerate(tys)]
        n = 3 if r.endswith("bitrates") else 1
        for o in e.call_fn(st, fn, args):
            rep.n("C26", "mangler_methods")
            if o[0] != "ret":
                bad("mangler:" + r[10:], "the default mangler may panic: %s" % (o[2],))
                continue
            v = e.deval(o[2], o[1])
            got = list(v.a[2]) if n == 3 and isinstance(v, T) and v.op == "agg" else [v]
            want = [e.deval(a, o[1]) for a in args[1:1 + n]]
            if [e.force(x, o[1]) for x in got] != [e.force(x, o[1]) for x in want]:
                bad("mangler:" + r[10:], "the default mangler turns %s into %s" % (
                    ", ".join(show(x)[:40] for x in want), ", ".join(show(x)[:80] for x in got)))
        fns |= e.analysed
    # what the settings of a remuxer reach
    e = Engine(F, [], {})
    fn = F.find(r"^vproots::root_new$")[0]
    st = e.initial()
    args = [e.deval(e.fresh("given%d" % i, (), t), st) for i, t in enumerate(fn["body"]["locals"][1:3])]
    verify = field(F, args[0], "verify_ogg_page_checksums")[0]
    for o in e.call_fn(st, fn, args):
        if o[0] != "ret":
            bad("new-panic", "making a remuxer may panic: %s" % (o[2],))
            continue
        v = e.deval(o[2], o[1])
        for given in args:
            rep.n("C26", "settings_kept")
            got = aggs(v, given.a[0].rsplit("::", 1)[-1])
            if got != [given]:
                bad("kept:" + given.a[0], "a remuxer does not keep the settings it is made with: %s" % [show(x)[:300] for x in got])
        reach(F, rep, bad, v, verify, args[1], fns)
    fns |= e.analysed
    return fns


def reach(F, rep, bad, remuxer, verify, optimiser, fns):
    """a remuxer reads with the checksum option and optimises with the optimiser settings it was given"""
    H = remux.Harness(F)
    cuts = []

    def cut(eng, st, c):
        cuts.append((st, [eng.deval_safe(a, st) for a in c.args]))
        return []
    e, out = H.run(cut=cut, remuxer=remuxer)
    fns |= H.functions
    for st, a in cuts:
        readers = [a] + [x[2] for x in events(st.items()) if x[1] == "new_reader"]
        for r in readers:
            rep.n("C26", "readers")
            o = [y for x in r for y in aggs(x, "PageParsingOptions")]
            if len(o) != 1:
                bad("reader", "the input is read with Ogg options that are not the remuxer's")
                continue
            x = e.force(field(F, o[0], "verify_checksum")[0], st)
            if x is not verify and (st.facts.decide(verify) is None or st.facts.decide(verify) != x):
                bad("verify", "checksums are verified if %s, whatever the settings say" % show(x)[:100])
        for x in events(st.items()):
            if x[1] == "opt_new":
                rep.n("C26", "optimisers")
                if x[2][1] is not optimiser:
                    bad("optimiser", "a stream is optimised with settings other than the remuxer's: %s" % show(x[2][1])[:200])


def events(items):
    for x in items:
        if x[0] == "ev":
            yield x
        elif x[0] == "loop":
            n = x[1]
            for p in list(n.nexts) + [p for p, _, _ in n.exits]:
                yield from events(p)
