"""The entries of the two relocation tables of the dynamic linker are followed from the place they are made to
the bytes that are written, for each combination of slots a symbol may have; the index they name is compared
with the order in which the dynamic symbol table is emitted. The slots of other symbols are filled."""
TECHNIQUE = "path-condition and linear dataflow analysis over MIR, comparison of the orderings of symbol tables"
NOTE = "Symbols that are dynamic are named. Thread-local slots are outside (C32)."

from terms import *
from query import *
from roles import *
from relocs import R
from slots import *
from order import *

TABLES = {"dyn_rels": "dyn_rel_section", "plt_rels": "plt_rel_section"}
HOME = {6: "dyn_rels", 7: "plt_rels", 5: "dyn_rels"}
BASE = {6: "GOT", 7: "GOTPLT", 5: "COPYREL"}
NAME = {6: "GLOB_DAT", 7: "JUMP_SLOT", 5: "COPY"}


def split_info(v):
    """(index term, type) of r_info = (index << 32) + type"""
    v = untr(v)
    if v.op in ("or", "xor") and len(v.a) == 2:
        v = add(v.a[0], v.a[1])
    c0, ds = lin_parts(v)
    if len(ds) == 1 and ds[0][1] == 1 << 32 and 0 <= c0 < 1 << 32:
        return untr(ds[0][0]), c0
    return None, c0 if not ds else None


def untr(v):
    while v.op == "trunc" and v.a[0] >= 32:
        v = v.a[2]
    return v


def add(x, y):
    from terms import _add
    return _add(x, y)


def run(ctx, rep):
    rep.rule("each slot of a dynamic symbol gets exactly one entry, of the type and in the table that belong to the slot")
    rep.rule("what is emitted is the slot's offset plus the address of the slot's section, for each type")
    rep.rule("the index is the symbol's position in the order in which the dynamic symbol table is emitted")
    rep.rule("the slot of a symbol the image defines holds the symbol's address")
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    pushes = [e for e in an.events if e.kind in ("push", "insert", "extend") and writer_path(*e.d[:2])[-1:] in (("dyn_rels",), ("plt_rels",))]
    if not rep.need("entries of the relocation tables", len(pushes) >= 3):
        return
    sl = Slots()
    ok = all(e.kind == "push" and len(e.loops) == 1 for e in pushes)
    rep.ob("entries are added one by one", ok, "", pushes[0].where())
    if not ok:
        return
    for l in set(e.loops for e in pushes):
        d = domain(an, l[0])
        w = d.whole()
        rep.ob("every named symbol is looked at", w is not None and w[0] == "each" and w[3] == 0 and "sym_section" in w[2]
               and w[2][-1:] == ("symbols",), str(w)[:200], pushes[0].where())
    rep.ob("all entries are made in one loop", len(set(e.loops for e in pushes)) == 1, "", pushes[0].where())
    # which entries, under which condition
    entries(ctx, rep, an, pushes, sl)
    index(ctx, rep, an, pushes)
    written(rep, an, sl)
    filled(rep, an, sl)


def entries(ctx, rep, an, pushes, sl):
    for got in (0, 1):
        for plt in (0, 1):
            for dyn in (0, 1):
                for ty in ((1, 2) if dyn else (2,)):
                    made = {}
                    for e in pushes:
                        u = assuming(an, e, assume("sym_section", dynamic=dyn, in_got=got, in_got_plt=plt),
                                     assume("dyn_sym_section", type=ty), first_copy)
                        c = u(e.full())
                        if c is I0:
                            continue
                        v = e.d[2]
                        _, t = split_info(u(fld(v, "r_info")))
                        o = sl(u(fld(v, "r_offset")))
                        tab = writer_path(*e.d[:2])[-1]
                        made.setdefault(t, []).append((c, o, tab, u(fld(v, "r_addend")), e))
                    k = "%s, %s, %s" % (("dynamic function", "dynamic object")[ty == 1] if dyn else "symbol of the image",
                                        "in .got" if got else "not in .got", "in .got.plt" if plt else "not in .got.plt")
                    want = {t for t, x in ((6, dyn and got), (7, dyn and plt), (5, dyn and ty == 1)) if x}
                    w = pushes[0].where()
                    rep.ob("%s: the entries it needs" % k, set(made) == want,
                           "%s instead of %s" % (sorted(NAME.get(t, str(t)) for t in made), sorted(NAME[t] for t in want)), w)
                    for t in set(made) & want:
                        l = made[t]
                        n = NAME[t]
                        w = l[0][4].where()
                        tot = I0
                        for x in l:
                            rep.ob("%s: %s once" % (k, n), band(tot, x[0]) is I0, "", x[4].where())
                            tot = bor(tot, x[0])
                        rep.ob("%s: %s always" % (k, n), tot is I1, show(tot), w)
                        for c, o, tab, a, e in l:
                            rep.ob("%s: %s in its table" % (k, n), tab == HOME[t], tab, e.where())
                            rep.ob("%s: addend of %s" % (k, n), a is I0, show(a), e.where())
                            if t != 5:
                                good = o is R({6: "GOTOFF", 7: "PLTOFF"}[t])
                            else:
                                b, p = base_of(o)
                                good = p[:1] == ("copy_rel_section",) and p[-2:] == ("0", "size")
                            rep.ob("%s: %s is at its slot" % (k, n), good, show(o), e.where())


def fld(v, name):
    return apply(lambda x: x.a[3][x.a[2].index(name)] if x.op == "agg" and name in x.a[2] else BOT, v)


def index(ctx, rep, an, pushes):
    want, em = emitted_order(ctx)
    if not rep.need("order in which the dynamic symbols are emitted", want is not None):
        return
    rep.an(em)
    n = 0
    collected = 0
    for e in pushes:
        u = assuming(an, e, assume("sym_section", dynamic=1, in_got=1, in_got_plt=1), assume("dyn_sym_section", type=1))
        ix, t = split_info(strip_keep(an, e)(fld(e.d[2], "r_info")))
        ix = ix if ix is not None else BOT
        w = e.where()
        nm = NAME.get(t, str(t))
        if not rep.ob("%s: the index comes from a table of positions" % nm, ix.op == "at" and ix.a[0].op == "mu"
                      and ix.a[0].a[0] in an.loops, show(ix), w):
            continue
        key = role(strip(ix.a[1]))
        f = symbol_field(key)
        rep.ob("%s: looked up by the symbol's name" % nm, f == ("sym_section", ("dynamic", "Some", "0", "Named", "0"))
               or f == ("sym_section", ("dynamic", "Some", "0")), show(key), w)
        m = ix.a[0]
        l = an.loops[m.a[0]]
        init, nxt = l.init.env.get(m.a[1]), l.latch.env.get(m.a[1])
        d = domain(an, l.id)
        it = d.iters[0] if len(d.iters) == 1 and not d.early else None
        ok = it is not None and init is not None and init.op == "mnew" and nxt.op == "mins" and nxt.a[0] is m \
            and it[1][0] == "each" and it[1][3] == 0 and not d.rev
        if not rep.ob("%s: every dynamic symbol has a position" % nm, ok, show(nxt)[:200], w):
            continue
        seq = it[1][1]
        if it[1][2]:
            seq = strip(mk("ld", it[1][1], tuple(it[1][2]), 0))
        if seq.op == "L":
            seq = l.init.env.get(seq.a, seq)
        k, v = nxt.a[1], nxt.a[2]
        rep.ob("%s: the position is the place in the order" % nm, v is it[0], show(v), w)
        b, p = base_of(k)
        rep.ob("%s: positions are by name" % nm, p[-1:] == ("st_name",) and b.op == "at" and b.a[1] is it[0]
               or p[-1:] == ("st_name",) and mentions(k, lambda x: x is it[0]), show(k)[-80:], w)
        c = canon(an, seq)
        rep.ob("%s: the order is the one that is emitted" % nm, c is not None and c == want, show(seq)[:200], w)
        src = sources(an, seq)
        rep.ob("%s: positions are those in the dynamic table" % nm, bool(src) and all("dyn_sym_section" in s for s in src), str(src), w)
        n += 1
        collected = max([collected] + [x.seq for x in an.events if l.id in x.loops] + [sorted_at(an)])
    rep.need("indices", n >= 3)
    # nothing the order depends on changes any more
    fields = cmp_fields(want[1])
    for e in an.events:
        if e.kind == "store" and "dyn_sym_section" in writer_path(*e.d[:2]) or e.kind == "store" and e.d[0].op in ("elem", "symof", "at"):
            f = symbol_field(mk("ld", e.d[0], e.d[1], 0)) if e.d[1] else None
            f = f or (symbol_field(role(mk("ld", e.d[0], e.d[1], 0))) if e.d[1] else None)
            if f and f[0] == "dyn_sym_section" and (f[1] in fields or f[1][-1:] == ("st_name",)):
                rep.ob("the order of the dynamic symbols stays as it is", False, "%s changes" % (f[1],), e.where())
        if e.kind in ("minsert", "mremove", "push", "clear", "retain", "vremove", "insert"):
            p = writer_path(*e.d[:2])
            if "dyn_sym_section" in p and p[-1] in ("symbols", "local_syms"):
                rep.ob("no dynamic symbol comes or goes", False, e.kind, e.where())
    # entries are found by their name
    fs = ctx.find("lib", r"SymbolTable(::<.*>|<.*>)?::add_symbol$")
    if rep.need("insertion of symbols", fs):
        a2 = ctx.run("lib", fs[0])
        for e in a2.events:
            if e.kind == "minsert" and writer_path(*e.d[:2])[-1:] == ("symbols",):
                k = strip(e.d[2])
                rep.ob("symbols are kept under their name", base_of(k)[1][-1:] == ("st_name",), show(k), e.where())
            if e.kind == "store" and writer_path(*e.d[:2])[-1:] == ("st_name",):
                rep.ob("the name of a symbol never changes", False, "", e.where())


def sorted_at(an):
    return 0


def strip_keep(an, e):
    """specialise without forgetting versions"""
    fs = [assume("sym_section", dynamic=1, in_got=1, in_got_plt=1), assume("dyn_sym_section", type=1)]
    env = going_env(an, e.loops)

    def g(t):
        if t in env:
            v = env[t]
            return v if isinstance(v, T) else I(v)
        for f in fs:
            if t.op in ("discr", "trunc", "shr"):
                r = f(strip(role(t)))
                if r is not None:
                    return r
        return None
    return Rebuild(g)


def in_order(rep, an, t):
    """the entries are emitted in the order in which they were made"""
    l = set(e.loops[-1] for e in an.events if e.kind == "emit" and e.loops
            and any(s[0] == "each" and s[2][-1:] == (t,) for ix, s in domain(an, e.loops[-1]).iters))
    w = [e.where() for e in an.events if e.loops and e.loops[-1] in l][:1]
    if rep.need("emission of " + t, len(l) == 1):
        d = domain(an, l.pop())
        rep.ob("%s: in the order in which they were made" % t, not d.rev and not d.early and
               all(s[0] == "each" and s[3] == 0 for ix, s in d.iters), str(d.iters)[:200], w[0])
    for e, n in changes(an, (t,)):
        rep.ob("%s: entries stay in place" % t, False, e.kind, e.where())


def written(rep, an, sl):
    """what is emitted for an entry of each table and type"""
    for t, sec in sorted(TABLES.items()):
        ems = []
        for e in an.events:
            if e.kind != "emit" or not e.loops:
                continue
            d = domain(an, e.loops[-1])
            if any(s[0] == "each" and s[2][-1:] == (t,) for ix, s in d.iters):
                ems.append(e)
        if not rep.need("emission of " + t, ems):
            continue
        w = ems[0].where()
        lid = ems[0].loops[-1]
        d = domain(an, lid)
        rep.ob("%s: entries are emitted in one loop" % t, len(set(e.loops for e in ems)) == 1, "", w)
        rep.ob("%s: every entry is emitted" % t, not d.early and all(s[0] == "each" and s[3] == 0 and s[2][-1:][0] in TABLES for ix, s in d.iters),
               str(d.iters)[:200], w)
        if t == "plt_rels":
            in_order(rep, an, t)
        # under which the loop goes over this table
        sel = {}
        for l in ems[0].loops[:-1]:
            dd = domain(an, l)
            if len(dd.iters) == 1 and dd.iters[0][1][0] == "each" and dd.iters[0][1][1].op == "arr":
                els = dd.iters[0][1][1].a
                for i, x in enumerate(els):
                    if mentions(x, lambda y: y.op in ("ptr", "ld") and base_of(y)[1][-1:] == (t,)) or t in show(x):
                        sel[dd.iters[0][0]] = I(i)
                rep.ob("%s: written once" % t, dd.iters[0][1][3] == 0 and not dd.early and
                       len([1 for x in els if t in show(x)]) == 1, "", w)
        # a loop of its own, which goes over all of them before that
        pre = [e for e in an.events if e.kind == "store" and e.loops and e.loops != ems[0].loops and e.seq < ems[0].seq and
               e.loops[:-1] == ems[0].loops[:-1] and writer_path(*e.d[:2])[:3] == (t, "[]", "r_offset")]
        if pre:
            pd = domain(an, pre[0].loops[-1])
            if len(pre) > 1 or pd.early or not all(s[0] == "each" and s[3] == 0 and s[2][-1:][0] in TABLES for ix, s in pd.iters):
                pre = []
        for ty in sorted(BASE):
            if HOME[ty] != t:
                continue

            def typed(x):
                if x in sel:
                    return sel[x]
                if x.op == "trunc" and x.a[0] == 32 and base_of(x.a[2])[1][-1:] == ("r_info",):
                    return I(ty)
                return None
            fields, conds = {}, {}
            for e in ems:
                u = assuming(an, e, typed)
                c = u(e.full())
                v = sl(u(e.d[4]))
                if c is I0:
                    continue
                fields.setdefault(e.seq, (v, c, e))
            order = [fields[k] for k in sorted(fields)]
            want = ["r_offset", "r_info", "r_addend"]
            ok = len(order) == 3 and all(c is I1 for v, c, e in order)
            rep.ob("%s: %s is emitted field by field" % (t, NAME[ty]), ok, str(len(order)), w)
            if not ok:
                continue
            for n, (v, c, e) in zip(want, order):
                if n == "r_offset" and pre and base_of(v)[1][-3:] == (t, "[]", n):
                    u = assuming(an, pre[0], typed)
                    if u(pre[0].full()) is I1:
                        v = sl(u(pre[0].d[2]))
                c0, ds = lin_parts(v)
                if n == "r_offset":
                    m = {x: k for x, k in ds}
                    b = R(BASE[ty])
                    own = [x for x in m if x is not b]
                    good = c0 == 0 and m.get(b) == 1 and len(own) == 1 and m[own[0]] == 1 and base_of(own[0])[1][-3:] == (t, "[]", n)
                else:
                    good = base_of(v)[1][-3:] == (t, "[]", n)
                rep.ob("%s: %s of %s" % (t, n, NAME[ty]), good, show(v), e.where())
        # nothing else changes the entries
        for e in an.events:
            if e.kind == "store" and e.loops != ems[0].loops and e not in pre:
                p = writer_path(*e.d[:2])
                if t in p[:1] and "[]" in p:
                    rep.ob("%s: entries stay as they were made" % t, False, str(p), e.where())
        for e, n in changes(an, (t,)):
            rep.ob("%s: entries stay in place" % t, False, e.kind, e.where())
        # the section
        root = ems[0].d[0]
        ch = [e for e in an.events if e.kind == "push" and writer_path(*e.d[:2])[-2:] == (sec, "chunks")]
        good = []
        for e in ch:
            u = assuming(an, e, lambda x: sel.get(x))
            c = u(e.full())
            if c is not I0:
                data = fld(e.d[2], "data")
                good.append(data.op == "mu" and data.a[0] == lid and c is I1)
        rep.ob("%s: the section consists of the entries" % t, good == [True], str(good), w)
        sz = [e for e in an.events if e.kind == "store" and writer_path(*e.d[:2])[-3:] == (sec, "sh", "sh_size")]
        ok = len(sz) >= 1
        if ok:
            c0, ds = lin_parts(strip(sz[-1].d[2]))
            ok = c0 == 0 and len(ds) == 1 and ds[0][1] == 24 and ds[0][0].op == "len" and base_of(ds[0][0].a[0])[1][-1:] == (t,) \
                and strip(sz[-1].full()) is I1
        rep.ob("%s: the section has the size of the entries" % t, ok, "", sz[-1].where() if sz else "")
        last = max(e.seq for e in an.events if e.kind == "push" and writer_path(*e.d[:2])[-1:] == (t,))
        rep.ob("%s: no entry is added once the size is known" % t, bool(sz) and last < sz[-1].seq, "", sz[-1].where() if sz else "")


def filled(rep, an, sl):
    ws = [x for x in buffer_writes(an, "got_section")]
    if not rep.need("filling of the GOT", ws):
        return
    el = symbols_of(an, "sym_section")
    for sc in ((0, 1, 2), (0, 1, 0), (1, 1, 2), (1, 1, 1), (0, 1, 1), (0, 0, 2)):
        dyn, got, ty = sc
        k = "%s of type %d" % ("dynamic symbol" if dyn else "symbol of the image", ty) + ("" if got else " without a slot")
        hits = []
        for e, sec, frm, width, end, val in ws:
            u = assuming(an, e, assume("sym_section", dynamic=dyn, in_got=got, type=ty))
            c = u(el(e.full()))
            if c is not I0:
                hits.append((e, c, sl(u(el(frm))), width, end, sl(u(el(val)))))
        if dyn or not got:
            rep.ob("%s: left to the dynamic linker" % k if dyn else "%s: nothing" % k, not hits, "", ws[0][0].where())
            continue
        w = ws[0][0].where()
        rep.ob("%s: the slot is filled" % k, len(hits) == 1 and hits[0][1] is I1, str(len(hits)), w)
        for e, c, frm, width, end, val in hits:
            rep.ob("%s: at its offset" % k, frm is R("GOTOFF"), show(frm), e.where())
            rep.ob("%s: with its address" % k, val is R("S") and width is I(8) and end == "le", "%s in %s" % (show(val), show(width)), e.where())
    for l in set(x[0].loops for x in ws):
        ok = len(l) == 1
        if ok:
            d = domain(an, l[0])
            ok = len(d.iters) == 1 and not d.early and d.iters[0][1][0] == "each" and d.iters[0][1][3] == 0
            if ok:
                s = d.iters[0][1]
                seq = s[1]
                if s[2]:
                    src = [tuple(s[2])]
                else:
                    seq = an.loops[l[0]].init.env.get(seq.a, seq) if seq.op == "L" else seq
                    src = sources(an, seq)
                ok = sorted(p[-1] for p in src) in (["local_syms", "symbols"],) and all("sym_section" in p for p in src) or \
                    False
        rep.ob("the slots of all symbols are filled", ok, "", ws[0][0].where())
