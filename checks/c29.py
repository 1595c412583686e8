"""The serialised symbol tables are traced back to the collections they are made from: every entry of both
collections is written once, in the order of the comparator, which is evaluated for each pair of bindings.
The count of local symbols is followed through the insertion of symbols."""
TECHNIQUE = "dataflow and path-condition analysis over MIR of the collection, ordering and counting of symbols"
NOTE = "Section symbols are resolved to addresses and not emitted. Assumes a global symbol has a name."

from terms import *
from query import *
from roles import *
from order import *
from relocs import going
from c01 import LAYOUT

ST = ("sym", "st_info")


def run(ctx, rep):
    rep.rule("each table is the entries of its collections, once each, sorted by the comparator")
    rep.rule("the comparator puts local before non-local symbols, and nothing before the null symbol")
    rep.rule("the count of local symbols grows by one exactly when a local symbol is added, and becomes sh_info")
    for what in ("expand", "finalize"):
        fs = ctx.find("lib", r"SymbolTable.* as .*Synthesized.*>::%s$" % what)
        if not rep.need("%s of a symbol table" % what, fs):
            continue
        an = ctx.run("lib", fs[0])
        rep.an(an)
        ems = [e for e in an.events if e.kind == "emit"]
        if not rep.need("%s: entries" % what, ems):
            continue
        loops = set(e.loops for e in ems)
        w = ems[0].where()
        rep.ob("%s: entries are written in one loop" % what, len(loops) == 1 and all(len(l) == 1 for l in loops), str(loops), w)
        seq, it = emitted_seq(an, ems)
        if not rep.ob("%s: every entry is written" % what, it is not None, str(domain(an, ems[0].loops[-1]).iters)[:200], w):
            continue
        c = canon(an, seq)
        if not rep.ob("%s: the entries are sorted" % what, c is not None and c[0] == "sorted", show(seq)[:200], w):
            continue
        src = c[2]
        shapes = collected(src)
        rep.ob("%s: all named and all local symbols are collected, once" % what,
               shapes is not None and sorted(shapes) == [("local_syms",), ("symbols",)], str(src)[:200], w)
        widths = [e.d[2].a[0] if e.d[2].op == "int" else None for e in ems]
        rep.ob("%s: whole entries" % what, widths == [x for _, x in LAYOUT["Sym"][1]] and
               all(going(an, e) is I1 for e in ems), str(widths), w)
        same = all(mentions(e.d[4], lambda t: t is it[0]) for e in ems)
        rep.ob("%s: of the entry at hand" % what, same, "", w)
        G = ("gnu_hash",)
        for x, y, want in ((0, 1, {"Less"}), (0, 2, {"Less"}), (1, 0, {"Greater"}), (2, 0, {"Greater"})):
            o = outcome(c[1], {ST: x << 4}, {ST: y << 4})
            rep.ob("%s: binding %d against %d" % (what, x, y), o == want, str(o), w)
        o = outcome(c[1], {ST: 0, G: 0}, {})
        stable = all(e.d[2] for e in an.events if e.kind == "sort")
        rep.ob("%s: nothing is before the null symbol" % what, o <= {"Less", "Equal"} and
               ("Equal" not in o or stable and shapes and shapes[0] == ("symbols",)), "%s, stable: %s" % (o, stable), w)
        if what == "expand":
            st = {}
            for e in an.events:
                if e.kind == "store":
                    p = base_of(mk("ptr", e.d[0], e.d[1]))[1]
                    if p[-2:-1] == ("sh",):
                        st[p[-1]] = e
            v = strip(st["sh_info"].d[2]) if "sh_info" in st else BOT
            while v.op == "trunc" and v.a[0] == 32:
                v = v.a[2]
            rep.ob("expand: sh_info is the number of local symbols", v.op == "ld" and base_of(v)[1] == ("num_locals",)
                   and st["sh_info"].pc is I1, show(v), w)
            v = strip(st["sh_size"].d[2]) if "sh_size" in st else BOT
            c0, ds = lin_parts(v)
            names = sorted(base_of(t.a[0])[1] for t, n in ds if n == 24 and t.op == "len")
            rep.ob("expand: sh_size is the size of the entries", c0 == 0 and len(ds) == 2 and names == [("local_syms",), ("symbols",)]
                   or v.op == "len", show(v), w)
        else:
            ch = [e for e in an.events if e.kind == "store" and e.d[0].op == "elem" and base_of(e.d[0])[1][-2:] == ("chunks", "[]")
                  and not e.d[1]]
            rep.ob("finalize: the contents are replaced by the final entries", len(ch) == 1 and ch[0].pc is I1 and
                   ch[0].d[0].a[2] is I0, "", w)
    # counting
    fs = ctx.find("lib", r"SymbolTable(::<.*>|<.*>)?::add_symbol$")
    if not rep.need("insertion of symbols", fs):
        return
    an = ctx.run("lib", fs[0])
    rep.an(an)
    new = mk("ptr", an.args[0], ())
    cnt, added, named = I0, I0, I0
    cw = ""
    local = None
    for e in an.events:
        if e.kind not in ("push", "minsert", "store"):
            continue
        p = base_of(mk("ptr", e.d[0], e.d[1]))[1]
        if e.kind == "store" and p == ("num_locals",):
            v = strip(e.d[2])
            c0, ds = lin_parts(v)
            rep.ob("the count grows by one", c0 == 1 and len(ds) == 1 and ds[0][1] == 1 and base_of(ds[0][0])[1] == ("num_locals",),
                   show(v), e.where())
            rep.ob("the count grows once per symbol", band(cnt, strip(e.full())) is I0, "", e.where())
            cnt = bor(cnt, strip(e.full()))
            cw = e.where()
        if e.kind == "push" and p == ("local_syms",):
            added = bor(added, strip(e.full()))
        if e.kind == "minsert" and p == ("symbols",):
            named = bor(named, strip(e.full()))
    rep.need("count of local symbols", cnt is not I0)
    rep.need("collection of local symbols", added is not I0)
    rep.need("collection of named symbols", named is not I0)
    binds = [x for x in walk(cnt) if x.op == "shr" and x.a[1] is I(4)] + [x for x in walk(added) if x.op == "shr" and x.a[1] is I(4)]
    binds = set(x for x in binds if base_of(x.a[0])[1][-1:] == ("st_info",) and base_of(x.a[0])[0] is an_info(an))
    if rep.need("binding of the new symbol", len(binds) == 1):
        b = binds.pop()
        loc = under({b: I0})
        for k in (1, 2):
            g = under({b: I(k)})
            rep.ob("local symbols only are counted (binding %d)" % k, g(cnt) is I0, show(g(cnt)), cw)
            rep.ob("local symbols only are collected as such (binding %d)" % k, g(added) is I0, show(g(added)), cw)
        want = loc(bor(added, named))
        rep.ob("a local symbol is counted exactly when it is added", loc(cnt) is want,
               "%s against %s" % (show(loc(cnt)), show(want)), cw)
        rep.ob("a local symbol is added once", band(loc(added), loc(named)) is I0, "", cw)
    for e in an.events:
        if e.kind in ("mremove", "vremove", "pop", "retain", "clear", "truncate", "drain"):
            rep.ob("symbols are never taken back", False, e.kind, e.where())


def an_info(an):
    return base_of(an.args[1] if an.args[1].op != "ptr" else an.args[1].a[0])[0]


def collected(src):
    """the containers a collection goes through, in order, each from its start"""
    if src is None or src[0] != "collect" or not src[2]:
        return None

    def rec(s):
        if s[0] == "each":
            return [s[1]] if s[2] == 0 else None
        if s[0] == "chain":
            x, y = rec(s[1]), rec(s[2])
            return x + y if x is not None and y is not None else None
        return None
    return rec(src[1])
