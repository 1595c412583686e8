"""The sections a Writer starts with, as Writer::new makes them: read off the final state of its analysis."""
from terms import *
from query import *


class Made(object):
    """one section: .field (of the writer, or None), .root, .name, .offset (of its name), .position in the list"""

    def __init__(self, an, u, root):
        self.an, self.u, self.root, self.field, self.position, self.name = an, u, root, None, None, None
        self.event = next((e for e in an.events if e.kind == "new" and e.d[0] is root), None)
        self.later = [e for e in an.events if e.kind != "new" and e.d and e.d[0] is root]
        self.value = strip(self.event.d[1]) if self.event is not None else None
        self.offset = self.get("sh", "sh_name")
        self.type, self.flags = self.get("sh", "sh_type"), self.get("sh", "sh_flags")
        self.entsize, self.align = self.get("sh", "sh_entsize"), self.get("sh", "sh_addralign")
        self.link, self.synthetic = self.get("link"), self.get("synthetic")
        self.chunks = [e for e in self.later if e.kind == "push" and e.d[1] == ("chunks",)]
        c = self.get("chunks")
        self.empty = c is not None and c.op == "arr" and not c.a and not [e for e in self.later if "chunks" in e.d[1]]

    def get(self, *p):
        """a field of the section as made, or None"""
        v = self.value
        for e in self.later:
            if e.kind == "store" and (e.d[1] == p[:len(e.d[1])] or e.d[1][:len(p)] == p):
                return None
        for n in p:
            if v is None:
                return None
            v = self.u(strip(v))
            if v.op != "agg" or n not in v.a[2]:
                return None
            v = v.a[3][v.a[2].index(n)]
        return self.u(strip(v))

    def kind(self):
        """the variant of generated contents: (name, the contents)"""
        s = self.synthetic
        if s is not None and s.op == "agg" and s.a[1] == "Some" and s.a[3][0].op == "agg":
            return s.a[3][0].a[1], s.a[3][0].a[3][0]
        return None, None

    def __repr__(self):
        return "%s %s" % (self.field, self.name)


def style(an, k):
    """the subject that selects the hash tables, fixed"""
    def rep(t):
        if t.op == "discr" and base_of(t.a[0])[1][-1:] == ("hash_style",):
            return I(k)
        if t.op == "discr" and t.a[0].op == "call":
            return I0
        return None
    return Rebuild(rep)


def writers(ctx):
    """{style: (writer aggregate, {field: Made}, [Made] in order of the list)}, analysis"""
    fs = ctx.find("lib", r"^dld::elf::Writer::<.*>::new$")
    if len(fs) != 1:
        return None, None
    an = ctx.run("lib", fs[0])
    out = {}
    for k in (0, 1, 2):
        u = style(an, k)
        r = strip(u(an.ret))
        if not (r.op == "agg" and r.a[1] == "Ok" and r.a[3][0].op == "agg"):
            return an, None
        w = dict(zip(r.a[3][0].a[2], r.a[3][0].a[3]))
        made, fields, order = {}, {}, []

        def get(p):
            p = u(strip(p))
            if p.op == "agg" and p.a[1] == "Some":
                p = p.a[3][0]
            if p.op == "ptr" and p.a[1] == () and p.a[0].op == "new":
                if p.a[0] not in made:
                    made[p.a[0]] = Made(an, u, p.a[0])
                return made[p.a[0]]
            return None
        for n, v in w.items():
            m = get(v) if isinstance(v, T) else None
            if m is not None:
                if m.field is not None:
                    return an, None
                m.field = n
                fields[n] = m
        l = u(strip(w["sections"])) if "sections" in w else None
        if l is None or l.op != "arr":
            return an, None
        for i, x in enumerate(l.a):
            m = get(x)
            if m is None:
                return an, None
            m.position = i
            order.append(m)
        names = literals(fields)
        if names is None:
            return an, None
        for m in made.values():
            m.name = names.get(m.offset.a[0]) if m.offset is not None and m.offset.op == "int" else None
        out[k] = (w, fields, order)
    return an, out


def literals(fields):
    """{offset: literal} of the table of section names"""
    m = fields.get("shstr_section")
    kind, t = m.kind() if m else (None, None)
    if kind != "StringTable" or t.op != "agg":
        return None
    x = m.u(strip(dict(zip(t.a[2], t.a[3]))["names"]))
    out = {}
    while x.op == "mins":
        k, v = m.u(x.a[1]), m.u(x.a[2])
        if not (k.op == "agg" and k.a[1] == "Static" and v.op == "agg" and v.a[3][1].op == "int"):
            return None
        lit = k.a[3][0]
        out.setdefault(v.a[3][1].a[0], lit.a[0] if lit.op == "str" else show(lit).strip("'"))
        x = m.u(x.a[0])
    return out if x.op == "mnew" else None
