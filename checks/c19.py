"""Every acquisition of the lock of a section, with every lock that is still held there, is taken from the whole link.
For each pair in conflicting modes it is shown that the two are locks of different sections: different fields of the
writer, or a member of the list whose name, type or emptiness excludes the other one on that path."""
TECHNIQUE = "lock-set analysis over MIR with alias refutation by path conditions"
NOTE = ("Two members of the list held at once count as a conflict unless both are only read. Locks of other kinds than those of "
        "sections don't occur; one thread.")

from terms import *
from query import *
from roles import *
from slots import writer_path
from relocs import tail
from made import writers


def ident(ptr):
    """what a pointer to a section is: ('field', name) | ('listed', element) | ('map', name) | ('link', owner) | ('arg', ..)"""
    p = strip(ptr)
    if p.op == "ptr" and p.a[1] == ():
        p = p.a[0]
    b, path = base_of(p)
    names = tuple(x for x in path if x not in ("Some", "0"))
    if names[-1:] == ("link",):
        return "link", p
    if p.op in ("elem", "at"):
        c = p.a[0]
        while c.op in ("vinsert", "vsorted", "vremove", "vpush", "sub"):
            c = c.a[0]
        if base_of(c)[1][-1:] == ("sections",) or path[-2:] == ("sections", "[]"):
            return "listed", p
    if mentions(p, lambda t: t.op == "sortarg") and base_of(p)[0].op == "sortarg":
        return "listed", p
    if p.op == "new":
        return "new", p
    if len(names) == 1 and names[0].endswith("section") and b.op in ("mu", "sym", "L", "ptr", "agg"):
        return "field", names[0]
    for n in ("definitions", "section_relocations"):
        if n in path and path[-1:] == ("section",):
            return "map", n
    return "unknown", p


class Same(object):
    """conditions under the assumption that an element of the list is the section kept in a field"""

    def __init__(self, fields, x, m, empty):
        self.byoff = {}
        self.fields, self.x, self.m, self.empty = fields, x, m, empty
        self.lits = {f.name: f for f in fields.values()}
        self.name = Rebuild(self._rep)
        self.fold = Rebuild(known)

    def is_x(self, t):
        return strip(t) is self.x

    def _rep(self, t):
        if t.op == "ld":
            b, p = base_of(t)
            f = tuple(y for y in p if y not in ("Some", "0"))
            if p[-2:] in (("sh", "sh_name"), ("sh", "sh_type")):
                owner = t.a[0]
                own = None
                if self.is_x(owner):
                    own = self.m
                elif len(f) == 3 and f[0] in self.fields:
                    own = self.fields[f[0]]
                if own is not None:
                    v = own.offset if p[-1] == "sh_name" else own.type
                    return v if v is not None and v.op == "int" else None
            # the offset of a literal in the table of section names
            if t.a[0].op == "elem" and p[-2:] == ("[]", "1") and "shstr_section" in p and "names" in p:
                k = strip(t.a[0].a[2])
                if k.op == "agg" and k.a[1] == "Static":
                    lit = show(k.a[3][0]).strip("'")
                    f = self.lits.get(lit)
                    if f is not None:
                        return f.offset
                    return I(1 << 20)           # of no section the linker makes
            if self.empty and p[-1:] == ("chunks",) and self.is_x(t.a[0]):
                return mk("arr")
        if t.op == "len" and self.empty:
            b, p = base_of(t.a[0])
            if p[-1:] == ("chunks",) and t.a[0].op == "ld" and self.is_x(t.a[0].a[0]):
                return I0
        return None

    def __call__(self, t):
        return self.fold(self.name(strip(t)))


def known(t):
    """membership in a list of constants"""
    if t.op == "contains" and t.a[1].op == "int":
        l = t.a[0]
        if l.op == "sub" and l.a[1] is I0 and l.a[0].op == "arr" and l.a[2].op == "int" and l.a[2].a[0] == len(l.a[0].a):
            l = l.a[0]
        if l.op == "arr":
            if any(y is t.a[1] for y in l.a):
                return I1
            if all(y.op == "int" for y in l.a):
                return I0
    return None


def excluded(an, e, fields, x, m, empty):
    """the event doesn't happen if x is the section m"""
    c = Same(fields, x, m, empty)(e.full())
    if c is I0:
        return True
    if empty:
        for l in e.loops:
            for ix, s in domain(an, l).iters:
                over = [strip(it) for site, it in an.loops[l].iters] + [strip(g) for g in domain(an, l).guards]
                if s[0] == "each" and s[2][-1:] == ("chunks",) and any(mentions(o, lambda t: t is x) for o in over):
                    return True
    return False


def run(ctx, rep):
    rep.rule("the lock of a section is not acquired while it is held in a conflicting mode")
    rep.rule("two locks are different if they are made in different places, or if the path to one excludes the other")
    an = ctx.link()
    nan, made = writers(ctx)
    if not rep.need("Linker::link", an) or not rep.need("sections of a new Writer", made):
        return
    rep.an(an)
    rep.an(nan)
    locks = [e for e in an.events if e.kind == "lock"]
    rep.need("acquisitions", len(locks) >= 60)
    styles = [made[k][1] for k in sorted(made)]
    # what the fields stand for never changes
    for e in an.events:
        if e.kind == "store" and isinstance(e.d[0], T):
            p = writer_path(*e.d[:2])
            if len(p) == 1 and p[0] in styles[2]:
                rep.ob("fields keep their sections", False, p[0], e.where())
            if p[-1:] == ("link",) and "sym" not in p:
                rep.ob("links are fixed when a section is made", False, "", e.where())
            if p[-2:] == ("sh", "sh_name"):
                rep.ob("names are fixed when a section is made", False, "", e.where())
    for fs in styles:
        for n, m in sorted(fs.items()):
            rep.ob("%s doesn't link to itself" % n, m.link is not None and not mentions(m.link, lambda t: t is m.root), str(m.link)[:80],
                   m.event.where() if m.event else "")
            rep.ob("%s: its name is known" % n, m.name is not None and m.type is not None and m.type.op == "int", str(m.offset), "")
    fields = {}
    for fs in styles:
        fields.update(fs)
    pushes = [e for e in an.events if e.kind == "push" and e.d[1][-1:] == ("chunks",)]
    # types change only for sections that have contents already
    retyped = [e for e in an.events if e.kind == "store" and e.d[1] == ("sh", "sh_type")]

    def empty_until(n, e):
        """section n has no chunk up to event e"""
        m = fields[n]
        if not m.empty:
            return False
        for p in pushes:
            if p.seq > e.seq and not (set(p.loops) & set(e.loops)):
                continue
            k = ident(p.d[0])
            if k[0] == "field" and k[1] != n:
                continue
            if k[0] == "listed" and excluded(an, p, fields, k[1], m, True):
                continue
            if strip(p.d[0]).op in ("new", "L"):
                continue
            return False
        return True

    def type_kept(n, e):
        m = fields[n]
        for p in retyped:
            if p.seq > e.seq and not (set(p.loops) & set(e.loops)):
                continue
            k = ident(p.d[0])
            if k[0] == "field" and k[1] != n or strip(p.d[0]).op in ("new", "L"):
                continue
            if k[0] == "listed" and excluded(an, p, fields, k[1], m, empty_until(n, p)):
                continue
            return False
        return True

    def minted(name, e):
        """the sections that a map holds: [(event, pointer, condition)]"""
        out = []
        for x in an.events:
            if x.kind in ("minsert", "insert", "store", "push") and x.d[1][-1:] == (name,) or \
               x.kind == "store" and name in path_names(x.d[1]) and x.kind != "minsert":
                v = x.d[3] if x.kind == "minsert" else x.d[2]
                if x.kind == "store" and x.d[2].op in ("mnew",):
                    continue
                v = strip(v)
                s = v.a[3][v.a[2].index("section")] if v.op == "agg" and "section" in v.a[2] else None
                out.append((x, s))
        return out

    def apart(e, a, b, depth=0):
        """a and b are different sections when e happens; None or why not"""
        if a[0] == "field" and b[0] == "field":
            return None if a[1] != b[1] and fields.get(a[1]) is not fields.get(b[1]) else "the same section"
        if a[0] == "new" or b[0] == "new":
            return None if a[1] is not b[1] else "the same section"
        if b[0] == "field":
            a, b = b, a
        if a[0] == "field" and a[1] not in fields:
            return "unknown section %s" % a[1]
        if a[0] == "field" and b[0] == "listed":
            n = a[1]
            em = empty_until(n, e)
            if excluded(an, e, fields, b[1], fields[n], em):
                # if that needed the type, it is still the one it was made with
                return None if type_kept(n, e) or not uses_type(e) else "its type may have changed"
            return "nothing on the path tells the member of the list from %s" % n
        if a[0] == "field" and b[0] == "map":
            if depth > 2:
                return "unclear provenance"
            ms = minted(b[1], e)
            if not ms:
                return "what %s holds is not known" % b[1]
            for x, s in ms:
                if s is None:
                    return "what is put into %s is not known" % b[1]
                why = from_(x, s, a, depth)
                if why:
                    return why
            return None
        if a[0] == "field" and b[0] == "link":
            return "a link may lead to %s" % a[1]
        if a[0] == "listed" and b[0] == "link" or a[0] == "link" and b[0] == "listed":
            l, x = (b, a) if b[0] == "link" else (a, b)
            o = l[1]
            while o.op in ("ld", "fld"):
                o = o.a[0]
            if strip(o) is x[1] or ident(o) == ("listed", x[1]):
                return None         # no section links to itself
        return "not told apart"

    def from_(x, s, a, depth):
        s = strip(s)
        for v, c in split_ite(s):
            k = ident(v)
            w = v.a[0] if v.op == "ptr" and v.a[1] == () else v
            if w.op == "new" or v.op == "new":
                continue
            if k[0] == "listed":
                em = empty_until(a[1], x)
                u = Same(fields, k[1], fields[a[1]], em)
                if u(band(x.full(), c)) is I0:
                    continue
                return "%s may hold %s" % (x.where(), a[1])
            if k[0] == "map" or k[0] == "field":
                if k[0] == "field" and k[1] == a[1]:
                    return "%s holds %s" % (x.where(), a[1])
                if k[0] == "map":
                    why = apart(x, a, k, depth + 1)
                    if why:
                        return why
                continue
            return "%s may hold %s" % (x.where(), a[1])
        return None

    n = 0
    for e in locks:
        mode, ptr = e.d[0], e.d[1]
        a = ident(ptr)
        rep.ob("acquired: %s" % label(a), a[0] != "unknown", show(ptr)[:160], e.where())
        for g in e.held:
            gm, gp = g.a[1], g.a[2]
            if gm == "r" and mode == "r":
                continue
            n += 1
            b = ident(gp)
            why = apart(e, a, b)
            rep.ob("%s (%s) is not %s (%s), which is held" % (label(a), mode, label(b), gm), why is None, why or "", e.where())
    rep.need("acquisitions while a lock is held", n >= 20)
    # nothing runs concurrently, so readers don't wait for writers of another thread
    th = [c for c in ctx.prog("lib").calls(r"thread::(spawn|scope|Builder)|rayon")]
    rep.ob("one thread", not th, str(th)[:100], "")


def label(k):
    return k[1] if k[0] == "field" else {"new": "a new section", "listed": "a member of the list", "map": "what %s refers to" % (k[1],),
                                         "link": "a link"}.get(k[0], "?")


def uses_type(e):
    return mentions(e.full(), lambda t: t.op == "ld" and t.a[1] == ("sh", "sh_type"))


def split_ite(v):
    """[(leaf, condition)]"""
    if v.op != "md":
        return [(v, I1)]
    return [(strip(x), apply(lambda y, x=x: I1 if y is x else I0, v)) for x in leaves(v) if x is not BOT]
