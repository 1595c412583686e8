"""The pass which turns values of symbols relative to the piece they are in into addresses."""
from terms import *
from query import *
from relocs import untrunc

TABLES = {0: "symbols", 1: "section_syms", 2: "local_syms"}


class Patch(object):
    """.moves: [(variant of the reference, event, value)], .loops: (sections, pieces, symbols)"""

    def __init__(self, an):
        self.an = an
        self.moves, self.index, self.loops = [], [], None
        for e in an.events:
            if e.kind == "store" and e.loops and e.d[1][-1:] in (("st_value",), ("st_shndx",)) and len(e.loops) >= 3:
                s = [domain(an, l).iters for l in e.loops[-3:]]
                if all(len(x) == 1 and x[0][1][0] == "each" for x in s) and s[2][0][1][2][-1:] == ("symbols",) and \
                        "chunks" in s[2][0][1][2] and s[0][0][1][2][-1:] == ("sections",):
                    if self.loops is None:
                        self.loops = e.loops[-3:]
                    if e.loops[-3:] == self.loops:
                        (self.moves if e.d[1][-1:] == ("st_value",) else self.index).append(e)
        self.ok = bool(self.moves) and bool(self.index)

    def where(self):
        return self.moves[0].where()

    def key(self):
        """the reference a round of the innermost loop is about"""
        return next(iter(ix for ix, s in domain(self.an, self.loops[2]).iters))

    def kind(self, t, k):
        """t for a reference of the kind k"""
        ix = self.key()
        return strip(Rebuild(lambda x: I(k) if x.op == "discr" and x.a[0].op == "key" and x.a[0].a[1] is ix else None)(t))

    def table(self, e):
        b, n = base_of(strip(mk("ptr", e.d[0], tuple(e.d[1]))))
        n = [x for x in n if x in TABLES.values() or x.endswith("sym_section")]
        return n[-1] if n and "sym_section" in n else None

    def piece(self, t):
        """t is the address of the piece: counted on from the address of the section, or what was stored with the piece"""
        an = self.an
        if t.op == "ld" and path_names(t.a[1])[-1:] == ("address",) or t.op == "ld" and "address" in path_names(t.a[1])[-3:]:
            return "chunks" in base_of(t)[1], "address of the piece"
        if t.op != "mu" or t.a[0] != self.loops[1]:
            return False, show(t)[:120]
        l = an.loops[t.a[0]]
        init, nxt = l.init.env.get(t.a[1]), l.latch.env.get(t.a[1])
        if init is None or nxt is None:
            return False, "unknown"
        return counted(an, t, init, nxt, self.loops[0], self.loops[1])

    def base(self, e, k):
        """(ok, text, condition): a symbol of kind k gets the address of its piece added once"""
        v = self.kind(e.d[2], k)
        own = strip(mk("ld", e.d[0], tuple(e.d[1]), 0))
        c0, ds = lin_parts(v)
        rest = [(t, n) for t, n in ds if not (t.op == "ld" and self.kind(strip(t), k) is self.kind(own, k))]
        olds = sum(n for t, n in ds) - sum(n for t, n in rest)
        ok, text = self.piece(rest[0][0]) if len(rest) == 1 and rest[0][1] == 1 and c0 == 0 else (False, show(v)[:160])
        return ok and (olds == 1 or k == 1 and olds == 0), text if not ok else show(v)[:160]


def counted(an, mu, init, nxt, outer, loop):
    """mu starts with the address of the section of a round of `outer` and grows by the size of each piece"""
    init = strip(init)
    step = strip(sub(nxt, mu))
    six = [ix for ix, s in domain(an, outer).iters]
    pix = [ix for ix, s in domain(an, loop).iters]
    a = init.op == "ld" and base_of(init)[1][-1:] == ("sh_addr",) and all(mentions(init, lambda x, i=i: x is i) for i in map(strip, six))
    b = step.op == "ld" and base_of(step)[1][-1:] == ("size",) and "chunks" in base_of(step)[1] and \
        all(mentions(step, lambda x, i=i: x is i) for i in map(strip, pix))
    return a and b, "from %s by %s" % (show(init)[:80], show(step)[:80])


def run(an, rep, p):
    """every symbol of every piece is moved once, by the address of the piece"""
    for i, n in enumerate(("sections", "pieces", "symbols")):
        d = domain(an, p.loops[i])
        w = d.whole()
        ok = bool(w) and not d.rev and w[3] <= (1 if i == 0 else 0)
        rep.ob("moved: all %s" % n, ok, str(d.iters)[:200], p.where())
        if i and ok:
            e = strip(under(domain(an, p.loops[i - 1]).guards)(entry_cond(an, an.loops[p.loops[i]], p.loops[i - 1])))
            free = skips_tables(an, e)
            rep.ob("moved: all %s, whatever they are" % n, free is I1, show(free)[:200], p.where())
    for k in TABLES:
        for what, es in (("value", p.moves), ("section", p.index)):
            hits = []
            for e in es:
                c = p.kind(under(domain(an, p.loops[2]).guards)(e.cond(within=p.loops[2])), k)
                if p.table(e) == TABLES[k] and c is not I0 and not same(p, e, k):
                    hits.append((e, c))
            nm = "%s symbol: %s" % (("named", "section", "local")[k], what)
            if not rep.ob("moved: %s is set once" % nm, len(hits) == 1, ", ".join(h[0].where() for h in hits) or "never", p.where()):
                continue
            e, c = hits[0]
            free = present(c)
            rep.ob("moved: %s is set for every such symbol" % nm, free is I1, show(free)[:200], e.where())
            if what == "value":
                ok, text = p.base(e, k)
            else:
                v = untrunc(p.kind(e.d[2], k), 16)
                six = [strip(ix) for ix, s in domain(an, p.loops[0]).iters]
                ok = v.op == "ld" and base_of(v)[1] == ("sections", "[]", "index") and all(mentions(v, lambda x, i=i: x is i) for i in six)
                text = show(v)[:160]
            rep.ob("moved: %s %s" % (nm, "is that in the piece plus the piece's address" if what == "value" else "is the one it is in"),
                   ok, text, e.where())


def same(p, e, k):
    """the store leaves what was there"""
    v = p.kind(e.d[2], k)
    return v.op == "ld" and v is p.kind(strip(mk("ld", e.d[0], tuple(e.d[1]), 0)), k)


def present(c):
    """c for a symbol that the table has"""
    def rep(t):
        if t.op == "has" and mentions(t.a[1], lambda x: x.op == "key"):
            return I1
        if t.op in ("cmp", "ltc"):
            c0, ds = lin_parts(strip(t.a[0]))
            if len(ds) == 2 and any(x.op == "len" for x, n in ds) and any(mentions(x, lambda y: y.op == "key") for x, n in ds if x.op != "len"):
                n = next(n for x, n in ds if x.op == "len")
                if c0 == 0:
                    return I(1 if n == 1 else -1) if t.op == "cmp" else I(int(n == -1)) if t.a[1] in (0, 1) else None
        return None
    return strip(Rebuild(rep)(c))


def skips_tables(an, c):
    """c for a section which isn't one of those that hold the symbols themselves or their names"""
    def rep(t):
        if t.op == "contains" and mentions(t, lambda x: x.op == "ld" and path_names(x.a[1])[-1:] == ("sh_name",)):
            names = [base_of(x)[1] for x in walk(t.a[0]) if x.op == "ld"]
            if names and all(n[0] in ("sym_section", "dyn_sym_section", "sym_str_section", "shstr_section", "dyn_sym_str_section") for n in names):
                return I0
        if t.op == "cmp":
            c0, ds = lin_parts(strip(t.a[0]))
            ns = sorted(base_of(x)[1][0] for x, n in ds if x.op == "ld" and base_of(x)[1][-1:] == ("sh_name",))
            if len(ds) == 2 and len(ns) == 2 and "sections" in ns and any(n.endswith(("sym_section", "str_section")) for n in ns):
                return I1
        return None
    return strip(Rebuild(rep)(c))
