"""The list that decides whether the image is written is traced back, through what filters it, to the symbol table; it is
evaluated for a symbol of every binding and definedness, and set against the conditions of everything that is written."""
TECHNIQUE = "dataflow over MIR: partial evaluation of the test that guards the output, traced to the symbol table, for every kind of symbol"
NOTE = "That a reference keeps its binding and definedness in the table is C06; what a library provides is taken from its dynamic symbols as the file has them."

from terms import *
from query import *

UNDEF, SECT, ABS = 0, 5, 0xfff1
TAIL = ("synthetic", "Some", "0", "SymbolTable", "0", "symbols")


def run(ctx, rep):
    rep.rule("an undefined global symbol that no library provides keeps everything from being written, and is an error")
    rep.rule("a weak reference, a defined symbol and one that a library provides do not keep the image from being written")
    rep.rule("a library provides the symbols it defines and exports, by their whole names")
    an = ctx.link()
    rep.an(an)
    out = [e for e in an.events if (e.kind == "emit" and e.io is not None) or
           (e.kind == "call" and e.d[0].endswith("set_permissions"))]
    if not rep.need("what is written to the output", len(out) >= 10):
        return
    subj = {}
    for e in out:
        for s in subjects(e.full()):
            subj[s] = 1
            if s.op in ("cmp", "ltc"):
                # counters
                subj.update((t, 1) for t in walk(s.a[0]) if t.op == "mu" and not t.a[2])
    gates, why = [], []
    for s in subj:
        g = gate(an, s)
        if g is not None:
            gates.append(g)
    if not rep.ob("the image is written only if no symbol is unresolved", bool(gates),
                  "nothing that is known of the symbols has a say in whether the image is written", out[0].where()):
        return
    strong = []
    for g in gates:
        b = g.blocks(scene(UNDEF, 1, 0))
        if b is not None and b is not I0:
            strong.append(g)
    if not rep.ob("unresolved symbols are looked for", bool(strong), "; ".join(g.why for g in gates)[:300], out[0].where()):
        return
    for g in strong:
        where = g.where(an)
        for t, ty in TYPES:
            b = g.blocks(scene(UNDEF, 1, 0, t))
            rep.ob("every undefined global symbol is unresolved, unless a library provides it", b is I1,
                   ty + ": " + (show(b)[:200] if b is not None else g.why), where)
            for what, sc in (("a weak reference", scene(UNDEF, 2, 0, t)), ("a weak reference to a library", scene(UNDEF, 2, 1, t)),
                             ("a symbol that a library provides", scene(UNDEF, 1, 1, t)),
                             ("a definition", scene(SECT, 1, 0, t)), ("a weak definition", scene(SECT, 2, 0, t)),
                             ("an absolute definition", scene(ABS, 1, 0, t)), ("a copy of a symbol of a library", scene(SECT, 1, 1, t))):
                b = g.blocks(sc)
                rep.ob("%s isn't unresolved" % what, b is I0, ty + ": " + (show(b)[:200] if b is not None else g.why), where)
        for e in out:
            for f in g.failing():
                x = under(f)(e.full())
                key = "nothing is written if a symbol is unresolved" if e.kind == "emit" else \
                    "the image isn't made executable if a symbol is unresolved"
                if not rep.ob(key, x is I0, "written although " + ", ".join("%s is %s" % (show(k)[:80], show(v)) for k, v in f.items()), e.where()):
                    break
        for f in g.failing():
            r = under(f)(an.ret)
            rep.ob("an unresolved symbol is an error", is_failure(r), show(r)[:200], where)
        first = g.first(an)
        last = max(e.seq for e in out)
        late = []
        for e in an.events:
            if not first <= e.seq <= last:
                continue
            if e.kind in ("store", "minsert", "mremove", "retain", "clear"):
                p = base_of(mk("ptr", e.d[0], e.d[1]))[1]
                if "sym_section" in p and (p[-1:] == ("symbols",) or (p[-1] in ("st_shndx", "st_info", "dynamic") and "symbols" in p)):
                    late.append(e)
        rep.ob("the symbols no longer change when it is decided", not late, ", ".join(e.where() for e in late[:3]), where)
    provided(an, rep)


def provided(an, rep):
    es = [e for e in an.events if e.kind == "store" and isinstance(e.d[1], tuple) and base_of(mk("ptr", e.d[0], e.d[1]))[1][-1:] == ("dynamic",)]
    if not rep.need("what records that a library provides a symbol", bool(es)):
        return
    for e in es:
        if not rep.ob("libraries provide what they define", bool(e.loops), "provided by no library", e.where()):
            continue
        l = e.loops[-1]
        d = domain(an, l)
        c = e.cond(within=l)
        iv = {i for i, s in d.iters}
        if not rep.need("the loop over what a library defines", bool(iv)):
            continue

        def of(name, value):
            def rep_(t):
                if t.op in ("fld", "ld"):
                    b, p = base_of(t)
                    if p[-1:] == (name,) and any(x.op == "at" and x.a[1] in iv for x in walk(t)):
                        return I(value)
                return None
            return Rebuild(rep_)
        for t, ty in TYPES:
            rep.ob("an undefined symbol of a library provides nothing", of("st_info", 0x10 | t)(of("st_shndx", 0)(c)) is I0,
                   ty + ": " + show(c)[:200], e.where())
            rep.ob("a local symbol of a library provides nothing", of("st_info", t)(c) is I0, ty + ": " + show(c)[:200], e.where())
            rep.ob("a weak symbol of a library provides", of("st_info", 0x20 | t)(of("st_shndx", 7)(c)) is not I0, ty + ": " + show(c)[:200], e.where())
            rep.ob("a global symbol of a library provides", of("st_info", 0x10 | t)(of("st_shndx", 7)(c)) is not I0, ty + ": " + show(c)[:200], e.where())
        eqs = {}
        for s in subjects(c):
            if s.op == "eq" and any(x.op == "at" and x.a[1] in iv for x in walk(s)):
                eqs[s] = I0
        # what else there is to a symbol doesn't matter
        for t, ty in TYPES:
            for bind in (1, 2):
                r = of("st_info", bind << 4 | t)(of("st_shndx", 7)(c))
                more = sorted({base_of(x)[1][-1] for y in subjects(r) for x in walk(y) if x.op in ("fld", "ld") and
                               any(z.op == "at" and z.a[1] in iv for z in walk(x)) and base_of(x)[1][-1:] and
                               str(base_of(x)[1][-1]).startswith("st_") and base_of(x)[1][-1] != "st_name"})
                rep.ob("nothing else about a symbol of a library matters", not more, "%s, binding %d: decided by %s" % (ty, bind, more), e.where())
        rep.ob("a library provides what has the same name", bool(eqs) and under(eqs)(c) is I0, show(c)[:200], e.where())


TYPES = ((0, "no type"), (1, "an object"), (2, "a function"), (6, "a thread-local"), (10, "an indirect function"))


def scene(shndx, bind, dynamic, type=1):
    return {"st_shndx": shndx, "st_info": bind << 4 | type, "dynamic": dynamic}


def gate(an, s):
    """how a subject of the condition tells of the symbol table"""
    if s.op == "len":
        c = Chain(an, s.a[0])
        return Len(an, s, c) if c.ok else None
    if s.op == "exit":
        l = an.loops[s.a[0]]
        c = Over(an, l)
        return Exit(an, s, c) if c.ok else None
    if s.op == "mu" and not s.a[2]:
        l = an.loops[s.a[0]]
        c = Over(an, l)
        nxt, init = l.latch.env.get(s.a[1]) if l.latch is not None else None, l.init.env.get(s.a[1])
        if c.ok and nxt is not None and init is not None:
            return Flag(an, s, c, nxt, init)
    return None


def substitute(sc, ivs, elem=None, value=None):
    """the specialiser for the symbol that the index ivs gives, of kind sc"""
    def rep(t):
        if elem is not None and t is elem:
            return value
        if t.op == "key" and any(t.a[1] is i for i in ivs):
            return mk("sym", "name of the symbol")
        return None

    def rep2(t):
        if t.op == "has" and t.a[1] is mk("sym", "name of the symbol"):
            return I1
        if t.op in ("ld", "discr"):
            if not any(x is mk("sym", "name of the symbol") or any(x is i for i in ivs) for x in walk(t)):
                return None
            b, p = base_of(t.a[0] if t.op == "discr" else t)
            k = [i for i in range(len(p)) if p[i:i + len(TAIL)] == TAIL]
            if not k or "sym_section" not in p:
                return None
            r = p[k[0] + len(TAIL):]
            if t.op == "discr" and r[-1:] == ("dynamic",):
                return I(sc["dynamic"])
            if t.op == "ld" and r[-1] in ("st_shndx", "st_info"):
                return I(sc[r[-1]])
        return None
    a, b = Rebuild(rep), Rebuild(rep2)
    return lambda t: b(a(strip(t)))


class Over(object):
    """a loop over all symbols of the table, or over a list made of them"""

    def __init__(self, an, l):
        self.an, self.l = an, l
        self.ok, self.src, self.why = False, None, ""
        d = domain(an, l.id)
        if not d.iters or any(s[0] != "each" for i, s in d.iters) or len({i.a[0] for i, s in d.iters}) != 1:
            return
        # the table can come to the loop on several paths
        self.iv, (_, root, names, start) = d.iters[0]
        self.iv = strip(self.iv)
        self.all = [strip(i) for i, s in d.iters]
        self.early = []
        for x in l.exits:
            c = x[1]
            for g in d.guards:
                c = band(c, cond_eq(g, 1))
            if c is not I0:
                self.early.append(c)
        self.start = start if all(s[3] == start for i, s in d.iters) else None
        ps = [base_of(mk("ptr", s[1], ()))[1] + tuple(s[2]) for i, s in d.iters]
        if all(p[-len(TAIL):] == TAIL and "sym_section" in p for p in ps):
            self.ok = True
            return
        if len(d.iters) != 1:
            return
        if names:
            return
        if root.op == "L":
            root = l.init.env.get(root.a, root)
        c = Chain(an, root)
        if c.ok:
            self.ok, self.src, self.root = True, c, root

    def base_ivs(self):
        return self.all if self.src is None else self.src.ivs

    def first(self):
        return self.src.loop if self.src is not None else self.l

    def each(self, sc):
        """a specialiser for every element there is for a symbol of the kind; None if some are missed"""
        if self.start != 0:
            return None
        if self.src is None:
            return [(I1, substitute(sc, self.all))]
        xs = self.src.members(sc)
        if xs is None:
            return None
        out = []
        for c, v in xs:
            def f(t, v=v):
                def rep(x):
                    if x.op == "at" and x.a[1] is self.iv:
                        return v
                    return None
                return substitute(sc, self.base_ivs())(Rebuild(rep)(strip(t)))
            out.append((c, f))
        return out


class Chain(object):
    """a list made of the symbols of the table"""

    def __init__(self, an, v):
        self.an, self.v = an, v
        self.ok, self.why = False, ""
        self.keep = None
        v = self.v = strip(v)
        if v.op == "vretain":
            self.src = Chain(an, v.a[0])
            if self.src.ok:
                self.ok, self.ivs, self.loop = True, self.src.ivs, self.src.loop
            return
        if v.op == "vsorted":
            x = Chain(an, v.a[0])
            self.__dict__.update(x.__dict__)
            return
        if v.op != "mu" or v.a[2] or v.a[0] not in an.loops:
            return
        l = an.loops[v.a[0]]
        o = Over(an, l)
        nxt = l.latch.env.get(v.a[1]) if l.latch is not None else None
        init = l.init.env.get(v.a[1])
        if not o.ok or init is None or init.op != "arr" or init.a:
            return
        if nxt is None:
            # a variable that is pushed to in place
            ps = [e for e in an.events if e.kind == "push" and e.loops and e.loops[-1] == l.id and e.d[0].op == "L" and e.d[0].a == v.a[1]]
            if not ps:
                return
            nxt = v
            for e in ps:
                nxt = apply(lambda c, x, w: mk("vpush", x, w) if c is I1 else x, e.cond(within=l.id), nxt, e.d[2])
        self.ok, self.over, self.next = True, o, nxt
        self.ivs, self.loop = o.base_ivs(), o.first()

    def members(self, sc):
        """[(condition, value)] of the elements for a symbol of the kind; None if it isn't known"""
        if self.v.op == "vretain":
            xs = self.src.members(sc)
            if xs is None:
                return None
            out = []
            l0, site, keep = self.v.a
            for c, v in xs:
                def rep(x):
                    if x.op == "at" and x.a[0] is l0:
                        return v
                    return None
                k = substitute(sc, self.ivs)(Rebuild(rep)(strip(keep)))
                k = band(c, as_cond(k))
                if k is not I0:
                    out.append((k, v))
            return out
        es = self.over.each(sc)
        if es is None or self.over.early:
            self.why = "not all are looked at"
            return None
        out = []
        mu = self.v
        for c, f in es:
            n = f(self.next)
            for leaf in leaves(n):
                if leaf is mu or leaf is BOT:
                    continue
                if leaf.op != "vpush" or leaf.a[0] is not mu:
                    self.why = show(leaf)[:100]
                    return None
                k = apply(lambda x: I1 if x is leaf else I0, n)
                k = band(c, k)
                if k is not I0:
                    out.append((k, leaf.a[1]))
        return out


def as_cond(t):
    t = apply(lambda x: x, t)
    return t if all(x is I0 or x is I1 for x in leaves(t)) else cond_eq(t, 1)


class Gate(object):
    def where(self, an):
        l = self.c.loop if isinstance(self.c, Chain) else self.c.l
        es = [e for e in an.events if e.loops and l.id in e.loops]
        return es[0].where() if es else ""

    def first(self, an):
        l = self.c.loop if isinstance(self.c, Chain) else self.c.first()
        xs = [e.seq for e in list(an.events) + list(an.steps) if e.loops and l.id in e.loops]
        return min(xs) if xs else 0

    @property
    def why(self):
        return "%s: %s" % (show(self.s)[:100], self.c.why)


class Len(Gate):
    def __init__(self, an, s, c):
        self.an, self.s, self.c = an, s, c

    def blocks(self, sc):
        xs = self.c.members(sc)
        if xs is None:
            return None
        r = I0
        for c, v in xs:
            r = bor(r, c)
        return r

    def failing(self):
        return [{self.s: I(n)} for n in (1, 2, 1000)]


class Exit(Gate):
    def __init__(self, an, s, c):
        self.an, self.s, self.c = an, s, c
        d = domain(an, c.l.id)
        self.early = []
        for n, x in enumerate(c.l.exits):
            g = x[1]
            for k, v in d.guards.items():
                g = band(g, cond_eq(k, v.a[0]))
            if g is not I0:
                self.early.append((n, under(d.guards)(x[1])))

    def blocks(self, sc):
        es = self.c.each(sc)
        if es is None:
            return None
        r = I0
        for c, f in es:
            for n, g in self.early:
                r = bor(r, band(c, f(g)))
        return r

    def failing(self):
        return [{self.s: I(n)} for n, g in self.early]


class Flag(Gate):
    def __init__(self, an, s, c, nxt, init):
        self.an, self.s, self.c, self.next, self.init = an, s, c, nxt, init

    def blocks(self, sc):
        es = self.c.each(sc)
        if es is None or self.c.early or (self.init is not I0 and self.init is not I1):
            return None
        mu = strip(self.s)
        if any(x is self.init for x in vals(under({mu: I(1 - self.init.a[0])})(strip(self.next)))):
            self.c.why = "forgotten at a later symbol"
            return None
        r = I0
        for c, f in es:
            n = f(self.next)
            r = bor(r, band(c, apply(lambda x: I0 if x is mu or x is self.init else I1, n)))
        return r

    def failing(self):
        bool_ = all(x.op == "int" or strip(x) is strip(self.s) for x in vals(self.next))
        return [{self.s: I(1 - self.init.a[0])}] if bool_ else [{self.s: I(n + self.init.a[0])} for n in (1, 2, 1000)]
