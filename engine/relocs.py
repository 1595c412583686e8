"""What the rules about relocations share: the terms involved in applying one relocation, by role."""
from terms import *
from query import *
from roles import *

ROLES = {
    ("0", "r_offset"): "OFF", ("0", "r_addend"): "A", ("0", "r_info"): "INFO",
}
SYMPATH = {
    ("sym", "st_value"): "S", ("sym", "st_shndx"): "SHNDX", ("sym", "st_info"): "STINFO", ("sym", "st_size"): "Z",
    ("in_got", "Some", "0"): "G", ("in_plt", "Some", "0"): "LIDX", ("dynamic", "Some", "0"): "DYNREF",
}
SECTION = {("got_section", "sh", "sh_addr"): "GOT", ("plt_section", "sh", "sh_addr"): "PLT",
           ("got_plt_section", "sh", "sh_addr"): "GOTPLT"}


def R(n):
    return mk("role", n)


def tail(p, mark):
    """what follows the last mark on a path"""
    n = len(mark)
    for i in range(len(p) - n, -1, -1):
        if p[i:i + n] == mark:
            return p[i + n:]
    return None


def is_reloc_sym(t):
    if t.op != "symof":
        return False
    b, p = base_of(t.a[1])
    return tail(p, ("relocations", "[]")) == ("1",)


class Relocs(object):
    """relocation processing with the terms named by role"""

    def __init__(self):
        self.name = Rebuild(self._rep)

    def _rep(self, t):
        if t.op in ("ld", "fld", "at", "elem"):
            b, p = base_of(t)
            r = tail(p, ("relocations", "[]"))
            if r in ROLES:
                return R(ROLES[r])
            if b.op == "symof":
                if is_reloc_sym(b):
                    if p in SYMPATH:
                        return R(SYMPATH[p])
                    return None
                if p == ("sym", "st_value") and b.a[0] is R("dyn_sym_section"):
                    k = self.name(b.a[1])
                    if k is R("DYNREF"):
                        return R("SDYN")
                return None
            if p in SECTION and b.op == "sym":
                return R(SECTION[p])
            if r is None and tail(p, ("chunks", "[]")) in (("address", "Some", "0"),):
                return R("CHUNK")
            if tail(p, ("chunks", "[]")) == ("data", "[]"):
                i = t.a[2] if t.op == "elem" else t.a[1] if t.op == "at" else t.a[0].a[2] if t.a[0].op == "elem" else None
                if i is not None:
                    return mk("byte", self.name(i))
        return None

    def __call__(self, t):
        return self.name(role(t))


def place(an, e):
    """(chunk element, offset, width or None) of a write into the contents of a chunk, else None"""
    if e.kind == "patch":
        root, path, frm, w, end, v = e.d[:6]
        b, p = base_of(mk("ptr", root, path))
        if tail(p, ("chunks", "[]")) == ("data",):
            return frm, w, end, v
    if e.kind == "store":
        root, path, v = e.d[:3]
        b, p = base_of(mk("ptr", root, path))
        if tail(p, ("chunks", "[]")) == ("data", "[]") and root.op == "elem":
            return root.a[2], I1, "raw", v
    return None


def in_relocs(an, e):
    """the event happens for each relocation of the output"""
    for l in e.loops:
        for ix, s in domain(an, l).iters:
            if s[0] == "each" and s[2][-1:] == ("relocations",):
                return True
    return False


def typ(info=None):
    return trunc(32, False, info or R("INFO"))


def going(an, e):
    """the condition of e with every loop taken to be going on"""
    env = going_env(an, e.loops)
    return under(env)(e.full()) if env else e.full()


def untrunc(v, bits=32):
    """v before it was stored in a field of so many bits or more"""
    while v.op == "trunc" and v.a[0] >= bits:
        v = v.a[2]
    return v


def settled(c, v):
    """v, with the ends of the loops that c leaves open no longer"""
    env = {}
    for x in subterms(v, "exit"):
        for n in DOM.get(x, ()):
            if implies(c, cond_eq(x, n)):
                env[x] = I(n)
    return Rebuild(lambda y: env.get(y))(v) if env else v


class Source(object):
    """one place in the link where a relocation of the input is handed on: the event of the push and
    the parts of what is pushed"""

    def __init__(self, an, e):
        self.e = e
        self.an = an
        v = role(settled(e.full(), e.d[2]))
        self.root = strip(e.d[0])
        self.off = self.info = self.add = self.sym = None
        if v.op == "agg" and len(v.a[3]) == 2:
            r, self.sym = v.a[3]
            if r.op == "agg":
                d = dict(zip(r.a[2], r.a[3]))
                self.off, self.info, self.add = d.get("r_offset"), d.get("r_info"), d.get("r_addend")
        self.x = self.off.a[0] if self.off is not None and self.off.op == "fld" and self.off.a[1] == "r_offset" else None

    def rtype(self):
        return mk("fld", self.x, "r_type")

    def under(self, t=None, addend=None):
        """specialise to a relocation type, in a loop that goes on"""
        env = {}
        for l in self.e.loops[-1:]:
            for g, v in domain(self.an, l).guards.items():
                env[strip(g)] = v
        gs = set(env)
        rt = self.rtype()

        def rep(y):
            if y in env:
                return env[y]
            if y.op == "more" and strip(y) in gs:
                return I1
            if t is not None and y is rt:
                return I(t)
            if addend is not None and y.op == "discr" and y.a[0] is mk("fld", self.x, "r_addend"):
                return I(addend)
            return None
        return Rebuild(rep)


def sources(an):
    out = []
    for e in an.events:
        if e.kind != "push":
            continue
        b, p = base_of(mk("ptr", e.d[0], e.d[1]))
        if p[-1:] == ("relocations",):
            out.append(Source(an, e))
    return out


KINDS = {
    "symbol of the image": ({"dyn": 0, "shndx": 3}, "S"),
    "dynamic symbol defined in the image": ({"dyn": 1, "shndx": 3}, "S"),
    "symbol of a shared library": ({"dyn": 1, "shndx": 0}, "SDYN"),
    "undefined weak symbol": ({"dyn": 0, "shndx": 0}, "S"),
}


def scenario(n, typ_, dyn, shndx, tls=False):
    t32 = trunc(32, False, R("INFO"))

    def rep(t):
        if t is t32:
            return I(typ_)
        if t is R("SHNDX"):
            return I(shndx)
        if t.op == "discr" and t.a[0].op in ("ld", "fld"):
            b, p = base_of(t.a[0])
            if b.op == "symof" and is_reloc_sym(b) and p == ("dynamic",):
                return I(dyn)
        return None
    return Rebuild(rep)


def split_sections(c):
    """c where the section is not one of the linker's own tables"""
    subs = [x for x in subjects(c) if x.op in ("contains", "eq", "has", "cmp") and mentions(
        x, lambda y: y.op == "ld" and path_names(y.a[1])[-2:] == ("sh", "sh_name"))]
    env = {x: (I0 if x.op != "cmp" else I1) for x in subs}
    return under(env)(c) if env else c


def application(an, name):
    """writes to relocated fields, panics on the way, and the loops around them"""
    writes, panics, loops = [], [], set()
    for e in an.events:
        if not e.loops or not in_relocs(an, e):
            continue
        w = place(an, e)
        if w:
            writes.append((e,) + tuple(name(x) if isinstance(x, T) else x for x in w) + (name(going(an, e)),))
            loops.add(e.loops)
    for e in an.events:
        if e.kind == "panic" and any(e.loops[:len(l)] == l for l in loops):
            panics.append((e, name(going(an, e))))
    return writes, panics, loops
