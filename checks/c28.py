"""For each of the symbols the linker defines, the section it is attached to, the value it has there and the pass that
turns this value into an address are followed, for every section name and with the symbol defined by an input or not."""
TECHNIQUE = "case analysis over the path conditions of MIR dataflow: which symbol is given which section's address, and when"
NOTE = "Several sections .init_array.N aren't merged by the linker (C08). Whether addresses are final when used: C17."

from terms import *
from query import *
from relocs import untrunc
import patch

ARRAYS = {".init_array": ("__init_array_start", "__init_array_end"), ".fini_array": ("__fini_array_start", "__fini_array_end")}
TABLE = "_GLOBAL_OFFSET_TABLE_"
ALL = [x for a in ARRAYS.values() for x in a]


def run(ctx, rep):
    rep.rule("the section .init_array and no other is given __init_array_start at 0 and __init_array_end at its size; likewise .fini_array")
    rep.rule("every symbol of a piece is moved by the address of the piece, once, after that")
    rep.rule("_GLOBAL_OFFSET_TABLE_ is the address of .got.plt, the entry point the final value of _start")
    rep.rule("a symbol that an input defines is left alone")
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    p = patch.Patch(an)
    if not rep.need("the pass which moves symbols to their addresses", p.ok):
        return
    patch.run(an, rep, p)
    arrays(an, rep, p)
    table(an, rep, p)
    entry(an, rep, p)


def names_in(t):
    """the texts that are looked up in a term"""
    return {x.a[0] for x in walk(t) if x.op == "str"}


def symbol_of(t):
    """the name of the symbol that is looked up to get an index, or None"""
    t = strip(t)
    ns = {s for x in walk(t) if x.op == "agg" for y in x.a[3] if y.op == "str" for s in [y.a[0]]}
    return ns.pop() if len(ns) == 1 and mentions(t, lambda x: x.op in ("ld", "at", "elem") and "sym_str_section" in base_of(x)[1]) else None


class Scene(object):
    """terms for a section of some name (or no section), with the symbols there and defined by no input, or else"""

    def __init__(self, section=None, there=True, defined=False, side=1, other=1, ivs=()):
        self.section, self.there, self.defined, self.side, self.other = section, there, defined, side, other
        self.ivs = dict(ivs)
        self.reb = Rebuild(lambda t: self.ivs.get(t), self.fix)

    def __call__(self, t):
        return self.reb(strip(t))

    def fix(self, t):
        o = t.op
        if o == "has":
            ns = names_in(t.a[1])
            m = base_of(t.a[0])[1]
            if len(ns) == 1:
                n = next(iter(ns))
                if "shstr_section" in m:
                    return I1 if n == self.section else I(self.other)
                if m[-1:] == ("symbols",) or "sym_str_section" in m:
                    return I(int(self.there))
        if o == "cmp":
            c0, ds = lin_parts(t.a[0])
            own = [x for x, n in ds if x.op == "ld" and base_of(x)[1][:1] == ("sections",) and base_of(x)[1][-1:] == ("sh_name",)]
            rest = [untrunc(x) for x, n in ds if x not in own]
            if len(own) == 1 and len(rest) == 1 and len(ds) == 2 and c0 == 0 and self.section is not None:
                ns = names_in(rest[0])
                if len(ns) == 1 and "shstr_section" in base_of(rest[0])[1]:
                    return I0 if ns == {self.section} else I(self.side)
                if base_of(rest[0])[1][-1:] == ("sh_name",) and base_of(rest[0])[1][0].endswith(("sym_section", "str_section")):
                    return I(self.side)
        if o == "contains" and patch.skips_tables(None, t) is I0:
            return I0
        if o == "ld":
            n = base_of(t)[1]
            if n[-1:] == ("st_shndx",) and "symbols" in n and symbol_of(t):
                return I(3 if self.defined else 0)
            if n[-1:] == ("sh_type",) and n[:1] == ("sections",):
                return I(14)
        return None


def scenes(an, loops, **kw):
    """one for each combination of elements of the constant lists that inner loops go through"""
    todo = [()]
    for l in loops:
        out = []
        for ix, s in domain(an, l).iters:
            arr = None
            if s[0] == "each" and not s[2] and s[1].op in ("L", "arr"):
                arr = an.loops[l].init.env.get(s[1].a) if s[1].op == "L" else s[1]
            if arr is None or arr.op != "arr" or domain(an, l).early or s[3] != 0:
                return None
            out = [c + ((strip(ix), I(i)),) for c in todo for i in range(len(arr.a))]
        todo = out or todo
    return [Scene(ivs=c, **kw) for c in todo]


def arrays(an, rep, p):
    ins = [e for e in an.events if e.kind == "minsert" and e.d[1][-1:] == ("symbols",) and e.loops and
           any(x in ALL or x == TABLE for x in names_in(e.d[2]))]
    vals = [e for e in an.events if e.kind == "store" and e.d[1][-1:] in (("st_value",), ("st_shndx",)) and e.loops and
            any(x in ALL for x in names_in(mk("ptr", e.d[0], tuple(e.d[1]))))]
    if not rep.need("the symbols of arrays", ins or vals):
        return
    flat = [e for e in an.events if e.kind in ("store", "minsert") and not e.loops and
            any(x in ALL for x in names_in(e.d[2] if e.kind == "minsert" else mk("ptr", e.d[0], tuple(e.d[1]))))]
    for e in flat:
        rep.ob("arrays: symbols depend on their section", False, show(e.d[2])[:120], e.where())
    outer = {e.loops[0] for e in ins + vals}
    for l in outer:
        d = domain(an, l)
        w = d.whole()
        rep.ob("arrays: looked for among all sections", bool(w) and w[2] == ("sections",) and w[3] <= 1 and
               skip(an, entry_cond(an, an.loops[l], None)), str(d.iters)[:200], (ins + vals)[0].where())
    cases = 0
    for section in sorted(ARRAYS) + [".data", ".init", ".ctors"]:
        want = ARRAYS.get(section)
        for side in (1, -1):
            for other in (0, 1):
                for there, defined in ((True, False), (True, True), (False, False)):
                    got, txt = values(an, p, ins + vals, section=section, side=side, other=other, there=there, defined=defined)
                    cases += 1
                    k = "%s%s" % (section, "" if there and not defined else ", defined by an input" if there else ", not referred to")
                    if got is None:
                        rep.ob("arrays: %s: decided by the section's name" % k, False, txt, (ins + vals)[0].where())
                        continue
                    if want and there and not defined:
                        for n, sym in enumerate(want):
                            g = got.pop(sym, None)
                            rep.ob("arrays: %s: %s is the first address%s" % (k, sym, " behind it" if n else ""), g is not None and
                                   g[0] == ("size" if n else 0) and g[1], str(g), g[2].where() if g else (ins + vals)[0].where())
                    for sym, g in sorted(got.items()):
                        rep.ob("arrays: %s: %s isn't touched" % (k, sym), False, str(g[:2]), g[2].where())
    rep.ob("arrays: symbols are given to their section", True, "%d cases, %d sites" % (cases, len(ins + vals)), (ins + vals)[0].where())
    last = max(ins + vals, key=lambda e: e.seq)
    for e in ins + vals:
        rep.ob("arrays: before symbols are moved", e.seq < p.moves[0].seq or absolute(e), "", e.where())
    sizes = [e for e in an.events if e.kind == "store" and e.d[1][-1:] == ("sh_size",)]
    for e in vals:
        if e.d[1][-1:] == ("st_value",):
            rep.ob("arrays: after sizes are final", all(s.seq < e.seq for s in sizes), "", e.where())


def absolute(e):
    return mentions(e.d[2], lambda x: x.op == "ld" and path_names(x.a[1])[-1:] == ("sh_addr",))


def skip(an, c):
    return strip(c) is I1


def values(an, p, evs, **kw):
    """symbol -> (offset in the section, in its first piece, event) in a scene"""
    at, val, shndx = {}, {}, {}
    for e in sorted(evs, key=lambda e: e.seq):
        ss = scenes(an, e.loops[1:], **kw)
        if ss is None:
            return None, "at %s" % e.where()
        for s in ss:
            c = I1
            for i, l in enumerate(e.loops):
                inner = e.cond(within=l) if i == len(e.loops) - 1 else entry_cond(an, an.loops[e.loops[i + 1]], l)
                c = band(c, s(under(domain(an, l).guards)(inner)))
            if c is I0:
                continue
            if c is not I1:
                return None, show(c)[:200]
            x = e.d[2] if e.kind == "minsert" else mk("ptr", e.d[0], tuple(e.d[1]))
            sym = symbol_of(s(x))
            if sym is None:
                return None, show(s(x))[:200]
            if e.kind == "minsert":
                b, n = base_of(strip(mk("ptr", e.d[0], tuple(e.d[1]))))
                ptr = strip(mk("ptr", e.d[0], tuple(e.d[1])))
                first = n[:4] == ("sections", "[]", "chunks", "[]") and first_piece(s(ptr), [strip(ix) for ix, _ in domain(an, e.loops[0]).iters])
                named = x.op == "agg" and x.a[1] == "Named"
                at[sym] = (first and named, e)
            elif e.d[1][-1:] == ("st_value",):
                v = s(e.d[2])
                val[sym] = (v, e)
            else:
                v = untrunc(s(e.d[2]), 16)
                shndx[sym] = (base_of(v)[1] == ("sections", "[]", "index"), e)
    out = {}
    for sym in set(at) | set(val) | set(shndx):
        v, e = val.get(sym, (I0, at.get(sym, shndx.get(sym, (0, None)))[1]))
        c0, ds = lin_parts(v)
        ix = [strip(i) for i, _ in domain(an, e.loops[0]).iters]
        fs = sorted(base_of(t)[1][-1] if t.op == "ld" and n == 1 and base_of(t)[1][:2] == ("sections", "[]") and
                    all(mentions(t, lambda y, i=i: y is i) for i in ix) else "?" for t, n in ds)
        if sym in at:
            ok = at[sym][0]
        else:
            ok = sym in shndx and shndx[sym][0] and "sh_addr" in fs
            fs = [f for f in fs if f != "sh_addr"]
        out[sym] = ("size" if fs == ["sh_size"] and c0 == 0 else c0 if not fs else show(v)[:120], bool(ok), e)
    return out, ""


def first_piece(t, ix):
    """a path through the first piece of the section of the round"""
    e = [x for x in walk(t) if x.op == "elem" and path_names(x.a[1])[-1:] == ("chunks",)]
    return len(e) == 1 and e[0].a[2] is I0 and all(mentions(t, lambda y, i=i: y is i) for i in ix)


def sets(an, sym):
    out = {}
    for e in an.events:
        if e.kind == "store" and e.d[1][-1:] in (("st_value",), ("st_shndx",)) and names_in(mk("ptr", e.d[0], tuple(e.d[1]))) == {sym}:
            out.setdefault(e.d[1][-1], []).append(e)
    return out


def table(an, rep, p):
    es = sets(an, TABLE)
    for f, want in (("st_value", ("got_plt_section", "sh", "sh_addr")), ("st_shndx", ("got_plt_section", "index"))):
        if not rep.ob("table: %s is set once" % f, len(es.get(f, [])) == 1, "%d stores" % len(es.get(f, [])), p.where()):
            continue
        e = es[f][0]
        for there, defined in ((True, False), (True, True), (False, False)):
            c = Scene(there=there, defined=defined)(e.full())
            want_c = I(int(there and not defined))
            rep.ob("table: %s is set exactly if %s is referred to and no input defines it" % (f, TABLE), c is want_c, show(c)[:160], e.where())
        v = untrunc(Scene()(e.d[2]), 64 if f == "st_value" else 16)
        rep.ob("table: %s is that of .got.plt" % f, v.op == "ld" and base_of(v)[1] == want, show(v)[:120], e.where())
        src = [x for x in an.events if x.kind == "store" and x.d[1][-1:] == want[-1:] and x.seq > e.seq]
        rep.ob("table: %s is final" % f, not src, ", ".join(x.where() for x in src), e.where())
        uses = [x for x in an.events if x.kind in ("store", "patch", "emit") and x.loops and x.seq < e.seq and "relocations" in
                str([s for l in x.loops for _, s in domain(an, l).iters]) and mentions_value(x)]
        rep.ob("table: %s is set before it is used" % f, not uses, ", ".join(x.where() for x in uses[:3]), e.where())
    into = [e for e in an.events if e.kind == "minsert" and e.d[1][-1:] == ("symbols",) and TABLE in names_in(e.d[2])]
    rep.ob("table: isn't moved", not into, "", into[0].where() if into else p.where())


def mentions_value(e):
    return any(isinstance(x, T) and mentions(x, lambda y: y.op == "ld" and y.a[1] and y.a[1][-1] == "st_value") for x in e.d[2:])


def entry(an, rep, p):
    es = [e for e in an.events if e.kind in ("store", "lstore") and isinstance(e.d[1], tuple) and e.d[1][-1:] == ("e_entry",)]
    if not rep.ob("entry: set once", len(es) == 1, "%d stores" % len(es), p.where()):
        return
    e = es[0]
    s = Scene()
    v = s(e.d[2])
    f = base_of(v)[1]
    rep.ob("entry: the value of the start symbol", names_in(v) == {"_start"} and f[-1:] == ("st_value",) and "sym_section" in f,
           show(v)[:200], e.where())
    c = s(e.full())
    rep.ob("entry: set whenever there is a start symbol", c is I1 and not e.loops, show(c)[:160], e.where())
    n = Scene(there=False)
    rep.ob("entry: none without a start symbol", n(e.full()) is I0 or n(e.d[2]) is I0, show(n(e.d[2]))[:160], e.where())
    late = [x for x in an.events if x.kind == "store" and x.d[1][-1:] == ("st_value",) and x.seq > e.seq]
    rep.ob("entry: its value is final", not late, ", ".join(x.where() for x in late[:3]), e.where())
    for t in walk(e.d[2]):
        if t.op == "ld" and t.a[1] and t.a[1][-1] == "st_value":
            h = an.hload(e.heap, t.a[0], t.a[1])
            ok = t.a[2] >= max([x.a[2] for x in walk(h) if x.op == "ld" and x.a[1] and x.a[1][-1] == "st_value"] or [0])
            rep.ob("entry: read after symbols are moved", ok, show(t)[:160], e.where())
    rep.an(an)
