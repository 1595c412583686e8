"""The relocation types whose applied value uses a slot of the GOT or an entry of the PLT are derived from the
application itself. For each of them the scan which precedes the sizing of the tables is specialised to the
type: on every path the symbol has a slot already or gets a new one, at the current end of the table, and the
end moves behind it. The sizes of the tables are compared with the end."""
TECHNIQUE = "path-condition and linear dataflow analysis over MIR of slot reservation, increments and table sizes"
NOTE = "Slots are disjoint by construction: offset = 8 * count and the count grows under the same condition."

from terms import *
from query import *
from roles import *
from relocs import *
from flow import vlen


def kinds_of_ref(t):
    """the symbol reference whose kind the code looks at"""
    out = set()
    for x in walk(t):
        if x.op == "discr":
            b, p = base_of(x.a[0])
            if tail(p, ("relocations", "[]")) == ("1",):
                out.add(x)
    return out


def field_stores(an, table, field):
    out = []
    for e in an.events:
        if e.kind == "store":
            b, p = base_of(mk("ptr", e.d[0], e.d[1]))
            if p[-1:] == (field,) and table in p and in_relocs(an, e):
                out.append(e)
    return out


def self_field(v, field):
    return v.op in ("ld", "fld") and base_of(v)[1][-1:] == (field,)


def run(ctx, rep):
    rep.rule("a type applied through a GOT slot or PLT entry has one reserved by the scan on every path")
    rep.rule("a new slot is 8 * count (+ 24 in the PLT's table), and the count grows by at least one slot under the same condition")
    rep.rule("the tables are as large as the final count, which nothing changes afterwards")
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    nm = Relocs()
    writes, panics, loops = application(an, nm)
    if not rep.need("application of relocations", writes):
        return
    in_got = field_stores(an, "sym_section", "in_got")
    in_plt = field_stores(an, "sym_section", "in_plt")
    in_got_plt = field_stores(an, "sym_section", "in_got_plt")
    dyn_plt = field_stores(an, "dyn_sym_section", "in_plt")
    minserts = [e for e in an.events if e.kind == "minsert" and base_of(mk("ptr", e.d[0], e.d[1]))[1][-1:] == ("got_plt",)]
    pinserts = [e for e in an.events if e.kind == "minsert" and base_of(mk("ptr", e.d[0], e.d[1]))[1][-1:] == ("inner",)]
    lens = [e for e in an.events if e.kind == "store" and base_of(mk("ptr", e.d[0], e.d[1]))[1] == ("got_len",)]
    infos = [e for e in an.events if e.kind == "store" and tail(base_of(mk("ptr", e.d[0], e.d[1]))[1], ("relocations", "[]")) == ("0", "r_info")
             and in_relocs(an, e)]
    for n, x in (("GOT slots handed out", in_got), ("PLT entries handed out", in_plt), ("slots of the PLT handed out", in_got_plt),
                 ("table of the slots of the PLT", minserts), ("table of the entries of the PLT", pinserts),
                 ("number of GOT slots", lens)):
        if not rep.need(n, x):
            return
    scan = set(e.loops for e in in_got + in_plt + in_got_plt + minserts + pinserts + lens)
    for ls in scan:
        shapes = []
        ok = True
        for l in ls:
            d = domain(an, l)
            ok = ok and len(d.iters) == 1 and not d.early and d.iters[0][1][0] == "each" \
                and d.iters[0][1][3] <= (d.iters[0][1][2][-1:] == ("sections",))  # the null section has none
            shapes.append(d.iters[0][1][2][-1:] if d.iters else ())
        rep.ob("scan: every relocation of every chunk of every section",
               ok and [s[0] for s in shapes if s] == ["sections", "chunks", "relocations"], str(shapes), in_got[0].where())
    last = max(e.seq for e in in_got + in_plt + in_got_plt + minserts + pinserts + lens)

    def handed(evs, field, sc, extra=None):
        """under sc, per kind of symbol: the condition of a new value, and the values"""
        res = []
        refs = set()
        for e in evs:
            refs |= kinds_of_ref(nm(e.d[2]))
        for k in range(3):
            u = under({r: I(k) for r in refs})
            c, vs = I0, []
            for e in evs:
                g = sc(u(nm(going(an, e))))
                if g is I0:
                    continue
                for x in vals(sc(u(nm(e.d[2])))):
                    if not self_field(x, field):
                        c = bor(c, g)
                        vs.append((x, e))
            res.append((k, c, vs))
        return res

    GOTLEN = None
    uses = {}
    for t in list(range(1, 43)):
        for kind, (k, s) in KINDS.items():
            sc = scenario(nm, t, **k)
            for x in writes:
                if sc(x[5]) is I0:
                    continue
                v = sc(x[4])
                for n in ("G", "LIDX"):
                    if mentions(v, lambda y: y is R(n)):
                        uses.setdefault(t, {}).setdefault(n, []).append(kind)
    rep.ob("types that use the GOT", sum(1 for t in uses if "G" in uses[t]) >= 5, str(sorted(t for t in uses if "G" in uses[t])), "")
    rep.ob("types that use the PLT", sum(1 for t in uses if "LIDX" in uses[t]) >= 1, str(sorted(t for t in uses if "LIDX" in uses[t])), "")

    def has_slot(val):
        def rep_(t):
            if t.op == "discr" and t.a[0].op in ("ld", "fld"):
                b, p = base_of(t.a[0])
                if b.op == "symof" and is_reloc_sym(b) and p == ("in_got",):
                    return I(val)
            return None
        return Rebuild(rep_)

    for t in sorted(uses):
        if "G" not in uses[t]:
            continue
        for kind in uses[t]["G"]:
            k, s = KINDS[kind]
            sc = scenario(nm, t, **k)
            none, some = has_slot(0), has_slot(1)
            for kd, c, vs in handed(in_got, "in_got", lambda x: none(sc(x))):
                rep.ob("type %d, %s, reference kind %d: gets a slot" % (t, kind, kd), c is I1,
                       "not when %s" % show(bnot(c)), in_got[0].where())
                for v, e in vs:
                    ok = v.op == "agg" and v.a[1] == "Some" and is_count(v.a[3][0], "got_len", 8, 0)
                    rep.ob("type %d: the slot is the current end" % t, ok, show(v), e.where())
            for kd, c, vs in handed(in_got, "in_got", lambda x: some(sc(x))):
                rep.ob("type %d, %s, reference kind %d: keeps the slot it has" % (t, kind, kd), c is I0,
                       "another when %s" % show(c), in_got[0].where())
    # the count
    cs = I0
    for e in in_got:
        cs = bor(cs, nm(going(an, e)))
    cl = I0
    tot = None
    for e in lens:
        if not e.loops:
            rep.ob("the count of GOT slots changes in the scan only", False, show(e.d[2]), e.where())
            continue
        g = nm(going(an, e))
        cl = bor(cl, g)
        for x in vals(nm(e.d[2])):
            c0, ds = lin_parts(x)
            rep.ob("the count of GOT slots grows", c0 >= 1 and len(ds) == 1 and ds[0][1] == 1 and is_count(ds[0][0], "got_len", 1, 0),
                   show(x), e.where())
        tls = Rebuild(lambda t: I(6) if t is trunc(4, False, R("STINFO")) else None)
        v = tls(scenario(nm, 19, 0, 3)(nm(e.d[2])))
        if tls(scenario(nm, 19, 0, 3)(has_slot(0)(g))) is I1:
            c0, ds = lin_parts(v)
            tot = (c0, v, e)
    # the last of the changes, each of which builds on the ones before it
    if tot is not None:
        rep.ob("type 19: two slots", tot[0] == 2, show(tot[1]), tot[2].where())
    rep.ob("the count of GOT slots grows exactly when a slot is handed out", band(cs, bnot(cl)) is I0 and band(cl, bnot(cs)) is I0,
           "%s against %s" % (show(cs)[:200], show(cl)[:200]), lens[0].where())
    tls = Rebuild(lambda t: I(6) if t is trunc(4, False, R("STINFO")) else None)
    again = tls(scenario(nm, 19, 0, 3)(has_slot(1)(cl)))
    rep.ob("type 19: two slots even after another type reserved one", again is I1, "one slot only", lens[0].where())
    # PLT
    fn = Rebuild(lambda t: I(2) if t is trunc(4, False, R("STINFO")) or is_dyn_type(t) else None)
    need = [(t, k, 0) for t in sorted(uses) if "LIDX" in uses[t] for k in (0, 3)]
    for t, shndx, _ in need:
        sc = scenario(nm, t, 1, shndx)
        for field, evs, what in (("in_plt", in_plt, "an entry"), ("in_got_plt", in_got_plt, "a slot of the PLT")):
            for kd, c, vs in handed(evs, field, sc):
                rep.ob("type %d, dynamic (section %d), reference kind %d: gets %s" % (t, shndx, kd, what), c is I1,
                       "not when %s" % show(bnot(c)), evs[0].where())
        sc = scenario(nm, t, 0, shndx)
        c = I0
        final = None
        for e in infos:
            g = sc(nm(going(an, e)))
            if g is I1:
                final = sc(nm(e.d[2]))
        ok = final is not None
        if ok:
            left = sub(final, R("INFO"))
            ok = left.op == "int" and (t + left.a[0]) == 2 or low_bits(final, R("INFO"), t) == 2
        rep.ob("type %d, not dynamic (section %d): becomes PC32" % (t, shndx), ok, show(final) if final else "unchanged",
               infos[0].where() if infos else "")
    for t in (1, 2, 10, 11):
        sc0 = scenario(nm, t, 1, 0)
        sc = lambda x: fn(sc0(x))
        for field, evs, what in (("in_plt", in_plt, "an entry"), ("in_got_plt", in_got_plt, "a slot of the PLT"),
                                 ("in_plt", dyn_plt, "an address of its own in the dynamic symbol")):
            for kd, c, vs in handed(evs, field, sc):
                rep.ob("type %d, function of a library, reference kind %d: gets %s" % (t, kd, what), c is I1,
                       "not when %s" % show(bnot(c)), evs[0].where() if evs else "")
    for evs, field, ins, scale_, base in ((in_got_plt, "in_got_plt", minserts, 8, 24), (in_plt, "in_plt", pinserts, 1, 0)):
        cname = base_of(mk("ptr", ins[0].d[0], ins[0].d[1]))[1]
        for e in ins:
            key, val, new = nm(e.d[2]), nm(e.d[3]), e.d[4]
            b, p = base_of(key)
            rep.ob("%s: slots are kept by symbol" % cname[-1], tail(p, ("relocations", "[]")) == ("1",), show(key), e.where())
            rep.ob("%s: a new one is at the end" % cname[-1], is_count(val, cname[-1], scale_, base, True), show(val), e.where())
            h = mk("has", role(mk("ld", e.d[0], e.d[1], 0)), role(e.d[2]))
            rep.ob("%s: only a symbol without one gets a new one" % cname[-1],
                   band(role(e.cond()), cond_has(role(e.cond()))) is I0, show(nm(new)), e.where())
        for e in evs:
            for v in vals(nm(e.d[2])):
                if self_field(v, field):
                    continue
                ok = v.op == "agg" and v.a[1] == "Some"
                if ok:
                    for x in vals(v.a[3][0]):
                        ok = ok and (is_count(x, cname[-1], scale_, base, True) or lookup(x, cname[-1]))
                rep.ob("%s: the symbol keeps what the table says" % field, ok, show(v), e.where())
    for e in an.events:
        if e.kind in ("mremove", "mclear", "retain", "clear", "drain") and e.d and isinstance(e.d[0], T):
            try:
                p = base_of(mk("ptr", e.d[0], e.d[1]))[1]
            except Exception:
                p = base_of(e.d[0])[1]
            if p[-1:] in (("got_plt",), ("inner",)):
                rep.ob("slots are never given back", False, e.kind, e.where())
    # sizes
    for sec, name, k, base in (("got_section", "got_len", 8, 0), ("got_plt_section", "got_plt", 8, 24)):
        sz = [e for e in an.events if e.kind == "store" and base_of(mk("ptr", e.d[0], e.d[1]))[1] == (sec, "sh", "sh_size")]
        ch = [e for e in an.events if e.kind == "push" and base_of(mk("ptr", e.d[0], e.d[1]))[1] == (sec, "chunks")]
        for e in sz:
            rep.ob("%s: size" % sec, is_count(nm(e.d[2]), name, k, base, name == "got_plt") and not e.loops and e.pc is I1 and e.seq > last,
                   show(e.d[2]), e.where())
        for e in ch:
            v = nm(e.d[2])
            d = dict(zip(v.a[2], v.a[3])) if v.op == "agg" else {}
            n = strip(vlen(d["data"])) if "data" in d else BOT
            rep.ob("%s: contents" % sec, is_count(n, name, k, base, name == "got_plt") and not e.loops and e.pc is I1 and e.seq > last,
                   show(n), e.where())
        rep.need("size of %s" % sec, sz)
        rep.need("contents of %s" % sec, ch)


def is_dyn_type(t):
    """the type of the dynamic symbol a relocation refers to"""
    if t.op == "trunc" and t.a[0] == 4:
        b, p = base_of(t.a[2])
        return b.op == "symof" and p[-1:] == ("st_info",)
    return False


def is_count(x, name, k, base, of_len=False):
    """x is k * count + base"""
    c0, ds = lin_parts(x)
    if c0 != base or len(ds) != 1 or ds[0][1] != k:
        return False
    t = ds[0][0]
    if of_len:
        if t.op != "len":
            return False
        t = t.a[0]
    if t.op == "mu":
        b, p = base_of(t)
        return p[-1:] == (name,)
    return t.op in ("ld", "fld") and base_of(t)[1][-1:] == (name,)


def lookup(x, name):
    if x.op not in ("ld", "elem", "at", "fld"):
        return False
    return base_of(x)[1][-2:] == (name, "[]")


def cond_has(c):
    """the key is there already"""
    hs = [x for x in subjects(c) if x.op == "has"]
    r = I0
    for h in hs:
        r = bor(r, cond_eq(h, 1))
    return r if hs else I1
