"""The insertion of a symbol is evaluated for every pair of binding and definedness of the symbol the table has and
the symbol that comes: the stores on the paths that remain give the entry afterwards, which is compared with the rule
of the ABI, together with the reference handed out and the section whose address the symbol gets."""
TECHNIQUE = "exhaustive evaluation of the paths of symbol insertion, in MIR, for every pair of symbol kinds"
NOTE = "COMMON symbols get no storage (a known limit); symbol versions are not supported by the linker."

from terms import *
from query import *
from roles import *
from slots import *

N = 7           # offset of the name
UNDEF, SECT, ABS = 0, 5, 0xfff1
NEW = {f: mk("sym", "new " + f) for f in ("st_other", "st_value", "st_size")}
OLD = {f: mk("sym", "old " + f) for f in ("st_other", "st_value", "st_size")}
FIELDS = ("st_info", "st_other", "st_shndx", "st_value", "st_size")


def T_(v):
    return v if isinstance(v, T) else I(v)


class Scene(object):
    def __init__(self, an, table, new, old, name=N, section=True, known=1, defined=1):
        self.an, self.table = an, table
        self.new, self.old, self.name, self.section, self.known, self.defined = new, old, name, section, known, defined
        self.u = Rebuild(self.rep)

    def rep(self, t):
        if t.op in ("ld", "sym"):
            b, p = base_of(t)
            if b.op == "sym":
                r = tail(p, (self.table, "synthetic", "Some", "0", "SymbolTable", "0", "symbols", "[]", "sym"))
                if r and len(r) == 1:
                    if r[0] == "st_name":
                        return I(self.name)
                    if self.old and r[0] in self.old:
                        return T_(self.old[r[0]])
                if b is self.argsym(1) and len(p) == 1:
                    if p[0] in self.new:
                        return T_(self.new[p[0]])
            if self.is_offset(t):
                return I(self.name)
        if t.op == "fld":
            b, p = base_of(t)
            if b is self.argsym(1) and len(p) == 1 and p[0] in self.new:
                return T_(self.new[p[0]])
        if t.op == "has":
            b, p = base_of(t.a[0])
            if p[-1:] == ("names",):
                return I(self.known)
            if p[-1:] == ("symbols",) and self.table in p:
                return I(0 if self.old is None else 1)
            if p[-1:] == ("definitions",):
                return I(self.defined)
        if t.op == "discr" and base_of(t.a[0]) == (self.argsym(2), ()):
            return I(1 if self.section else 0)
        return None

    def is_offset(self, t):
        b, p = base_of(t)
        return p[-1:] == ("total_len",) or p[-3:-1] == ("names", "[]")

    def argsym(self, i):
        a = self.an.args[i]
        return base_of(a)[0] if a.op in ("ld", "ptr") else a

    def __call__(self, t):
        return self.u(strip(t)) if isinstance(t, T) else t


def tail(p, pre):
    return p[len(pre):] if p[:len(pre)] == pre else None


def info(bind, type):
    return bind << 4 | type


def run(ctx, rep):
    rep.rule("definition > reference; strong > weak; first of two weak definitions; two strong definitions are an error")
    rep.rule("the entry is replaced as a whole or not at all; the same holds for the section that gives the address")
    rep.rule("local and section symbols always get an entry of their own")
    for what, table in (("add_symbol", "sym_section"), ("add_dyn_symbol", "dyn_sym_section")):
        fs = ctx.find("lib", r"Writer(::<.*>|<.*>)?::%s$" % what)
        if not rep.need("Writer::%s" % what, fs):
            continue
        an = ctx.run("lib", fs[0])
        rep.an(an)
        if not rep.need("%s: arguments" % what, len(an.args) == 5):
            continue
        check(rep, an, what, table)
    rep.rule("two symbols of an object are the same entry only if they agree in every field")
    fs = ctx.find("lib", r"ElfObject(::<.*>|<.*>)?::process_symbols$")
    if not rep.need("ElfObject::process_symbols", fs):
        return
    an = ctx.run("lib", fs[0])
    rep.an(an)
    ins = [e for e in an.events if e.kind == "minsert" and base_of(mk("ptr", e.d[0], e.d[1])) == (base_of(an.args[0])[0], ("symbols",))]
    if not rep.need("references handed out to an object", ins):
        return
    for e in ins:
        key = strip(e.d[2])
        if key in going_env(an, e.loops) or key.op == "iv":
            continue
        whole = key.op == "agg" and len(key.a[3]) == 1 and key.a[3][0].op == "at" and writer_path(key.a[3][0])[-2:] == ("syms", "[]")
        if not rep.ob("an object's references are kept by the whole symbol", whole, show(key)[:200], e.where()):
            continue
        eqs = [f for f in ctx.find("lib", r"^<dld::Symbol as .*PartialEq.*>::eq$")]
        if not rep.need("comparison of symbols", eqs):
            continue
        an2 = ctx.run("lib", eqs[0])
        rep.an(an2)
        fields = ("st_name", "st_info", "st_other", "st_shndx", "st_value", "st_size")
        a1, a2 = [base_of(x)[0] for x in an2.args]

        def ev(diff):
            def f(t):
                if t.op == "ld":
                    b, p = base_of(t)
                    if b in (a1, a2) and p[-1:] and p[-1] in fields:
                        return I(2 if p[-1] == diff and b is a2 else 1)
            return Rebuild(f)(strip(an2.ret))
        rep.ob("equal symbols are the same entry", ev(None) is I1, show(ev(None))[:100], eqs[0].name)
        for f in fields:
            rep.ob("symbols which differ in %s are different entries" % f, ev(f) is I0, show(ev(f))[:100], eqs[0].name)


def check(rep, an, what, table):
    dyn = table == "dyn_sym_section"
    tbl = (table, "synthetic", "Some", "0", "SymbolTable", "0")
    ev = [e for e in an.events if e.kind in ("store", "push", "minsert", "mremove", "vremove", "pop", "clear", "retain", "drain",
                                             "truncate", "swap", "insert", "extend", "mclear")]
    anchor = [e for e in ev if writer_path(*e.d[:2])[:len(tbl)] == tbl]
    if not rep.need("%s: symbol table" % what, len(anchor) > 3):
        return
    w0 = anchor[0].where()

    def effects(s):
        out = {"fields": {}, "named": [], "local": [], "section": [], "defs+": [], "defs-": [], "chunk+": [], "chunk-": [],
               "odd": []}
        for e in ev:
            p = writer_path(*e.d[:2])
            c = s(e.full())
            if c is I0:
                continue
            r = tail(p, tbl)
            if r == ("num_locals",):
                continue
            hit = (e, c)
            if r is not None:
                if e.kind == "store" and r[:2] == ("symbols", "[]"):
                    key = key_of(e.d[0], e.d[1])
                    if key is not None and not isinstance(s(key), T) or key is not None and s(key) is not I(s.name):
                        # another alias of the same entry which this scene does not take
                        if s(key).op == "int":
                            out["odd"].append(hit)
                        continue
                    if r == ("symbols", "[]"):
                        for f in FIELDS:
                            out["fields"].setdefault(f, []).append(s(fieldof(e.d[2], f)) if c is I1 else BOT)
                    elif r == ("symbols", "[]", "sym"):
                        for f in FIELDS:
                            out["fields"].setdefault(f, []).append(s(proj1(e.d[2], f)) if c is I1 else BOT)
                    elif r[2:3] == ("sym",):
                        out["fields"].setdefault(r[3], []).append(s(e.d[2]) if c is I1 else BOT)
                elif e.kind == "minsert" and r == ("symbols",):
                    out["named"].append((e, c, s(e.d[2]), e.d[3]))
                elif e.kind == "push" and r == ("local_syms",):
                    out["local"].append((e, c, None, e.d[2]))
                elif e.kind == "push" and r == ("section_syms", "[]"):
                    out["section"].append((e, c, "push", e.d[2]))
                elif e.kind == "minsert" and r == ("section_syms",) and e.d[3].op == "arr" and not e.d[3].a:
                    # a list that isn't there is as good as an empty one
                    if s(e.d[2]) is not I(s.new["st_shndx"]):
                        out["odd"].append(hit)
                elif e.kind == "minsert" and r == ("section_syms",):
                    out["section"].append((e, c, "new", e.d[3]))
                else:
                    out["odd"].append(hit)
            elif p == ("definitions",) and e.kind == "minsert":
                out["defs+"].append((e, c, s(e.d[2]), s(e.d[3])))
            elif p == ("definitions",) and e.kind == "mremove":
                out["defs-"].append((e, c, s(e.d[2])))
            elif p[-3:] == ("chunks", "[]", "symbols"):
                k = "chunk+" if e.kind == "minsert" else "chunk-" if e.kind == "mremove" else "odd"
                out[k].append((e, c, s(e.d[2]), p))
        return out

    def ref_of(s):
        """the reference handed out, None for a failure, BOT if it depends"""
        r = s(an.ret)
        for x in leaves(r):
            if x.op != "agg":
                return BOT
        ls = set(leaves(r))
        if all(x.a[1] == "Err" for x in ls):
            return None
        if len(ls) == 1:
            r = ls.pop().a[3][0]
            if r.op == "agg" and r.a[1] == "Some":
                return r.a[3][0]
        return BOT

    def taken(rep, k, s, fx, ref, section, ok):
        """the section that gives the address"""
        if dyn:
            rep.ob("%s: no section gives a library's symbol its address" % k,
                   not fx["chunk+"] or not s.section, "", w0)
            return
        old = s.defined
        if not ok:
            n = sum(len(fx[x]) for x in ("defs+", "defs-", "chunk+", "chunk-"))
            rep.ob("%s: the section that gives the address stays" % k, n == 0, str(n), w0)
            return
        for x, want in (("defs+", section), ("chunk+", section), ("chunk-", old)):
            hits = [h for h in fx[x] if h[2] is ref or ref is BOT]
            name = {"defs+": "its section is remembered", "chunk+": "its section gives the address",
                    "chunk-": "the section of the other gives no address"}[x]
            if want:
                rep.ob("%s: %s" % (k, name), len(hits) == 1 and hits[0][1] is I1 and len(fx[x]) == 1,
                       ", ".join(show(h[1])[:80] + " " + show(h[2])[:60] for h in fx[x]), w0)
            elif x != "chunk-":
                rep.ob("%s: not %s" % (k, name), not fx[x], "", w0)
        for h in fx["chunk-"]:
            ix = h[0].d[0].a[2] if h[0].d[0].op == "elem" else BOT
            rep.ob("%s: the section of the other is the remembered one" % k,
                   h[3][:2] == ("definitions", "[]") and writer_path(ix) == ("definitions", "[]", "chunk"), show(h[0].d[0])[:200], w0)
        if section:
            a3 = s.argsym(2)
            for h in fx["chunk+"]:
                b = base_of(mk("ptr", h[0].d[0], h[0].d[1]))
                ix = h[0].d[0].a[2] if h[0].d[0].op == "elem" else BOT
                ix = base_of(ix) if ix is not BOT else (None, ())
                rep.ob("%s: the section is the one of the symbol" % k, b[0] is a3 and ix[0] is a3 and ix[1][-1:] == ("chunk",),
                       show(b[0])[:80], w0)
            for h in fx["defs+"]:
                rep.ob("%s: the section remembered is the one of the symbol" % k, base_of(h[3])[0] is a3, show(h[3])[:80], w0)
            rep.ob("%s: a section remembered before is replaced" % k,
                   not old or all(h[0].seq < g[0].seq for h in fx["chunk-"] for g in fx["defs+"])
                   and fx["chunk-"], "", w0)

    binds = {"global": 1, "weak": 2, "unique": 10}
    defs = {"undefined": UNDEF, "defined": SECT, "absolute": ABS}
    kinds = [(b, d) for b in binds for d in defs if not (b == "unique" and d != "defined")]
    mixed = lambda x, y: x != y and "unique" in (x, y)
    for ob_, od in kinds:
        for nb, nd in kinds:
            if dyn and (nd != "undefined" or od != "undefined"):
                continue
            if dyn and "unique" in (nb, ob_) or mixed(nb, ob_):
                continue
            for ot, nt, osec in ((1, 2, 6), (2, 1, 5), (2, 2, 5), (0, 2, 6), (2, 0, 6), (1, 1, 6), (1, 1, 5), (6, 6, 5), (10, 2, 6)):
                new = dict(NEW, st_info=info(binds[nb], nt), st_shndx=defs[nd])
                old = dict(OLD, st_info=info(binds[ob_], ot), st_shndx=osec if od == "defined" else defs[od])
                s = Scene(an, table, new, old, section=nd == "defined", defined=int(od == "defined"))
                k = "%s: %s %s after %s %s" % (what, nb, nd, ob_, od)
                one(rep, s, k, new, old, ob_, od, nb, nd, effects(s), ref_of(s), taken, dyn, w0)
    # the first of its name
    for nb, nd in kinds:
        if dyn and nd != "undefined":
            continue
        for known in (0, 1):
            new = dict(NEW, st_info=info(binds[nb], 1), st_shndx=defs[nd])
            s = Scene(an, table, new, None, section=nd == "defined", known=known, defined=0)
            fx, ref = effects(s), ref_of(s)
            k = "%s: first %s %s" % (what, nb, nd)
            rep.ob("%s: is known by its name" % k, ref is not None and named(ref), show(ref) if ref else "an error", w0)
            rep.ob("%s: gets one entry" % k, len(fx["named"]) == 1 and fx["named"][0][1] is I1 and fx["named"][0][2] is I(N)
                   and not fx["local"] and not fx["section"] and not fx["fields"] and not fx["odd"], str(len(fx["named"])), w0)
            for h in fx["named"]:
                for f in FIELDS:
                    want = 0 if dyn and f in ("st_value", "st_shndx") else new[f]
                    v = s(fieldof(h[3], f))
                    rep.ob("%s: %s is the symbol's" % (k, f), v is T_(want), show(v), w0)
                v = s(fieldof(h[3], "st_name"))
                rep.ob("%s: the name is the symbol's" % k, v is I(N), show(v), w0)
            taken(rep, k, s, fx, ref, nd == "defined", True)
    # local and section symbols
    if dyn:
        return
    for old in (None, dict(OLD, st_info=info(1, 1), st_shndx=SECT), dict(OLD, st_info=info(2, 2), st_shndx=UNDEF)):
        for nd in ("defined", "absolute"):
            for type in (0, 1, 2, 3, 4, 6):
                for name in (N, 0):
                    if type == 3 and nd == "absolute":
                        continue
                    new = dict(NEW, st_info=info(0, type), st_shndx=defs[nd])
                    o = dict(OLD, st_info=0, st_shndx=0) if name == 0 else old
                    s = Scene(an, table, new, o, name=name, section=nd == "defined", defined=0)
                    fx, ref = effects(s), ref_of(s)
                    k = "%s: %s %s%s" % (what, "section symbol" if type == 3 else "local symbol of type %d" % type, nd,
                                         "" if name else ", without a name")
                    box = "section" if type == 3 else "local"
                    hits = fx[box]
                    rep.ob("%s: gets an entry of its own" % k,
                           len(hits) >= 1 and partition([h[1] for h in hits]) and not fx["named"] and not fx["fields"] and not fx["odd"]
                           and not fx["local" if type == 3 else "section"], str([(show(h[1]), h[2]) for h in hits])[:200], w0)
                    for h in hits:
                        v = h[3]
                        if v.op == "arr" and len(v.a) == 1:
                            v = v.a[0]
                        for f in FIELDS:
                            x = s(fieldof(v, f))
                            rep.ob("%s: %s is the symbol's" % (k, f), x is T_(new[f]), show(x), w0)
                    rep.ob("%s: is known by its place" % k, ref not in (None, BOT) and place_ok(s, an, ref, hits, type),
                           show(ref) if ref else "an error", w0)
                    taken(rep, k, s, fx, ref, nd == "defined", True)


def one(rep, s, k, new, old, ob_, od, nb, nd, fx, ref, taken, dyn, w0):
    odef, ndef = od != "undefined", nd != "undefined"
    if ob_ == nb == "global" and odef and ndef:
        rep.ob("%s: is an error" % k, ref is None, show(ref)[:100] if ref is not None else "", w0)
        rep.ob("%s: leaves the entry alone" % k, not fx["fields"] and not fx["named"] and not fx["odd"], "", w0)
        taken(rep, k, s, fx, ref, False, False)
        return
    rep.ob("%s: is no error" % k, ref is not None and named(ref), show(ref)[:100] if ref is not None else "an error", w0)
    rep.ob("%s: gets no other entry" % k, not fx["named"] and not fx["local"] and not fx["section"] and not fx["odd"], "", w0)
    strong = {"global": 2, "unique": 2, "weak": 1}
    if dyn:
        want = "any"
    elif odef != ndef:
        want = ndef
    elif strong[nb] > strong[ob_]:
        want = True
    elif odef:
        want = False
    else:
        want = False if strong[nb] < strong[ob_] else "any"
    final = {}
    for f in FIELDS:
        v = fx["fields"].get(f)
        final[f] = v[-1] if v else T_(old[f])
    news = dict(new, st_value=0, st_shndx=0) if dyn else new
    is_new = all(final[f] is T_(news[f]) for f in FIELDS)
    is_old = all(final[f] is T_(old[f]) for f in FIELDS)
    detail = ", ".join("%s %s" % (f, show(final[f])) for f in FIELDS)
    if not odef and not ndef and want is not False:
        # of a reference only the strength matters
        b = final["st_info"]
        rep.ob("%s: is as strong a reference as the stronger" % k,
               b.op == "int" and (b.a[0] >> 4 != 2) == (max(strong[nb], strong[ob_]) == 2) and
               final["st_shndx"] is I0, detail, w0)
        is_new = bool(fx["fields"]) and is_new
        got = is_new if (is_new or is_old) else None
        rep.ob("%s: is replaced as a whole" % k, is_new or is_old, detail, w0)
    else:
        rep.ob("%s: %s" % (k, "takes its place" if want else "changes nothing"), is_new if want else is_old, detail, w0)
        got = want
    if not dyn:
        taken(rep, k, s, fx, ref, nd == "defined", bool(want is True))


def key_of(root, path):
    """the key of the map entry a place lies in"""
    out = None
    for x in path:
        if isinstance(x, tuple) and x[0] in ("i", "k"):
            out = x[1]
    t = root
    while out is None and isinstance(t, T) and t.op in ("elem", "ld", "ptr"):
        if t.op == "elem":
            return t.a[2] if isinstance(t.a[2], T) else None
        t = t.a[0]
    return out


def fieldof(v, f):
    """field f of the ELF symbol in the symbol v"""
    x = proj1(v, "sym")
    return proj1(x, f)


def named(ref):
    return ref is not BOT and ref.op == "agg" and ref.a[1] == "Named" and ref.a[3][0] is I(N)


def partition(cs):
    acc = I0
    for c in cs:
        if band(acc, c) is not I0:
            return False
        acc = bor(acc, c)
    return acc is I1


def place_ok(s, an, ref, hits, type):
    """the reference counts up to the entry that was added"""
    if ref.op != "agg" or ref.a[1] != ("Section" if type == 3 else "Local"):
        return False
    if type == 3 and ref.a[3][0] is not I(s.new["st_shndx"]):
        return False
    raw = s.u(an.ret)
    for e, c, how, v, there in [(e, c, how, v, x) for e, c, how, v in hits for x in ((1, 0) if how == "push" else (0,))]:
        def g(t):
            if t.op == "has" and base_of(t.a[0])[1][-1:] == ("section_syms",):
                return I(there)
        if Rebuild(g)(c) is I0:
            continue
        xs = set(leaves(Rebuild(g)(raw)))
        if len(xs) != 1:
            return False
        r = xs.pop().a[3][0].a[3][0]
        ix = r.a[3][-1]
        if how == "new":
            if ix is not I0 or e.d[2].op == "bot" or s(e.d[2]) is not I(s.new["st_shndx"]):
                return False
            continue
        if type == 3 and not there:
            if ix is not I0:
                return False
            continue
        c0, ds = lin_parts(ix)
        if len(ds) != 1 or ds[0][1] != 1 or ds[0][0].op != "len":
            return False
        x, old = ds[0][0].a[0], Rebuild(g)(s.u(e.d[3]))
        if x is old and c0 == 0:
            continue
        if not (x.op == old.op == "ld" and strip(x) is strip(old) and x.a[2] > old.a[2] and c0 == -1):
            return False
    return bool(hits)
