"""What the rules about linkage tables share: the fields of the symbol a table slot belongs to, by role."""
from terms import *
from query import *
from roles import *
from relocs import R, tail, untrunc

SYMFIELD = {
    ("in_got", "Some", "0"): "GOTOFF", ("in_got_plt", "Some", "0"): "PLTOFF", ("in_plt", "Some", "0"): "IDX",
    ("relocation_offset", "Some", "0"): "REL", ("sym", "st_value"): "S", ("dynamic", "Some", "0"): "DYNREF",
}
SECT = {"got_section": "GOT", "plt_section": "PLT", "got_plt_section": "GOTPLT", "copy_rel_section": "COPYREL"}


def symbol_field(t):
    """(which table, field path) if t reads a field of an entry of a symbol table"""
    if t.op not in ("ld", "fld", "at", "elem"):
        return None
    b, p = base_of(t)
    if b.op == "symof" and b.a[0].op == "role":
        return b.a[0].a[0], p
    r = tail(p, ("symbols", "[]"))
    if r is not None:
        for n in p:
            if n.endswith("sym_section"):
                return n, r
    return None


class Slots(object):
    """terms of a loop over symbols or over a table of slots, named by role"""

    def __init__(self, extra=None):
        self.extra = extra
        self.name = Rebuild(self._rep)

    def _rep(self, t):
        if self.extra:
            r = self.extra(t)
            if r is not None:
                return r
        f = symbol_field(t)
        if f:
            if f[0] == "sym_section" and f[1] in SYMFIELD:
                return R(SYMFIELD[f[1]])
            return None
        if t.op in ("ld", "elem"):
            b, p = base_of(t)
            if b.op == "sym":
                if p[-2:] == ("sh", "sh_addr") and p[0] in SECT and len(p) == 3:
                    return R(SECT[p[0]])
                if tail(p, ("got_plt", "[]")) == ():
                    return R("PLTOFF")
                if tail(p, ("plt_section", "synthetic", "Some", "0", "Plt", "0", "inner", "[]")) == ():
                    return R("IDX")
        return None

    def __call__(self, t):
        return self.name(role(t))


def ivs(*ts):
    return set(x for t in ts if isinstance(t, T) for x in walk(t) if x.op == "iv")


def present(t):
    """assume the symbol has each slot (the option is Some)"""
    if t.op == "discr":
        f = symbol_field(t.a[0])
        if f and f[1] and f[1][-1] in ("in_got", "in_plt", "in_got_plt", "relocation_offset"):
            return I1
    return None


def buffer_writes(an, *section):
    """the events that write into the contents of a section of the writer"""
    out = []
    for e in an.events:
        if e.kind not in ("patch", "store"):
            continue
        root, path = e.d[:2]
        b, p = base_of(mk("ptr", root, path))
        r = tail(p, ("chunks", "[]"))
        if r is None or not p[0] in section:
            continue
        if e.kind == "patch" and r == ("data",):
            out.append((e, p[0], e.d[2], e.d[3], e.d[4], e.d[5]))
        elif e.kind == "store" and r == ("data", "[]") and root.op == "elem":
            out.append((e, p[0], root.a[2], I1, "raw", e.d[2]))
    return out


def changes(an, names):
    """events that reorder or remove elements of the containers with these field names"""
    out = []
    for e in an.events:
        if e.kind in ("sort", "sorted", "retain", "vremove", "insert", "pop", "drain", "mremove", "swap", "reverse",
                      "truncate", "clear", "dedup", "append", "extend", "resize", "new", "mclear", "take", "split_off", "rotate"):
            try:
                p = base_of(e.d[0] if e.kind in ("sort", "drain") else mk("ptr", e.d[0], e.d[1]))[1]
            except Exception:
                continue
            if p[-1:] and p[-1] in names:
                out.append((e, p[-1]))
    return out


def flat_bytes(an, evs):
    """[("bytes", [..]), ("rep", shape, [..])] for the events that append to one buffer, or None"""
    out = []

    def add1(b):
        if out and out[-1][0] == "bytes":
            out[-1][1].extend(b)
        else:
            out.append(("bytes", list(b)))

    def const(v, e):
        v = strip(v)
        if v.op == "int":
            return [v.a[0] & 0xff]
        if v.op == "sub" and v.a[1] is I0 and (v.a[2] is None or v.a[0].op == "arr" and v.a[2] is I(len(v.a[0].a))):
            v = v.a[0]
        if v.op in ("arr",) and all(x.op == "int" for x in v.a):
            return [x.a[0] & 0xff for x in v.a]
        return None

    def loopless(e, depth):
        """the bytes event e appends in one round of loop number depth-1"""
        ls = e.loops[depth:]
        v = e.d[4] if e.kind == "emit" else e.d[2]
        if not ls:
            if e.kind == "emit":
                w = e.d[2].a[0] if e.d[2].op == "int" else None
                if e.d[3] == "le" and strip(v).op == "int" and w:
                    return list((strip(v).a[0] % (1 << (8 * w))).to_bytes(w, "little"))
            return const(v, e)
        if len(ls) == 1:
            d = domain(an, ls[0])
            if len(d.iters) == 1 and not d.early:
                s = d.iters[0][1]
                if s[0] == "each" and s[3] == 0:
                    ix = d.iters[0][0]
                    x = v.a[0] if v.op in ("ld", "ptr") and v.a[0].op in ("elem", "at") and not v.a[1] else v
                    if x.op in ("ptr", "ld") and tuple(x.a[1]) == tuple(s[2]) + (("i", ix),) and x.a[0] is s[1] \
                            or x.op == "elem" and x.a[0] is s[1] and x.a[2] is ix and not s[2]:
                        if s[1].op == "L":
                            c = an.loops[ls[0]].init.env.get(s[1].a)
                        elif s[1].op == "const":
                            c = s[1].a[0]
                        else:
                            c = an.hload(e.heap, s[1], tuple(s[2]))
                        return const(c, e) if c is not None else None
                    if x.op == "at" and x.a[1] is ix:
                        return const(x.a[0], e)
                    if s[1].op == "arr" and not s[2]:
                        return const(mk("arr", *[under({ix: I(k)})(v) for k in range(len(s[1].a))]), e)
        return None

    i = 0
    while i < len(evs):
        e = evs[i]
        b = loopless(e, 0)
        if b is not None:
            add1(b)
            i += 1
            continue
        if not e.loops:
            return None
        lid = e.loops[0]
        inner = []
        while i < len(evs) and evs[i].loops[:1] == (lid,):
            x = loopless(evs[i], 1)
            if x is None:
                return None
            inner += x
            i += 1
        d = domain(an, lid)
        if len(d.iters) != 1 or d.early:
            return None
        out.append(("rep", d.iters[0][1], inner))
    return out


def same(an, loops, conds):
    """conds together are every path of the innermost loop"""
    c = I0
    for x in conds:
        c = bor(c, x)
    return c


def assume(table, **vals):
    """replace the fields of the entries of a symbol table: options by 0/1 (is it there), type, bind, undefined by numbers"""
    def f(t):
        if t.op == "discr":
            g = symbol_field(t.a[0])
            if g and g[0] == table and g[1]:
                if g[1][-1] in vals:
                    return I(vals[g[1][-1]])
                if g[1] == ("dynamic", "Some", "0") and vals.get("dynamic"):
                    return I0  # named
        elif t.op == "trunc" and t.a[0] == 4 and "type" in vals:
            g = symbol_field(t.a[2])
            if g and g[0] == table and g[1][-1:] == ("st_info",):
                return I(vals["type"])
        elif t.op == "shr" and t.a[1] is I(4) and "bind" in vals:
            g = symbol_field(t.a[0])
            if g and g[0] == table and g[1][-1:] == ("st_info",):
                return I(vals["bind"])
        elif t.op == "ld" and "shndx" in vals:
            g = symbol_field(t)
            if g and g[0] == table and g[1][-1:] == ("st_shndx",):
                return I(vals["shndx"])
        return None
    return f


def assuming(an, e, *fs):
    """specialise terms seen at e to loops that go on and to the assumptions"""
    env = going_env(an, e.loops)
    u = {}
    for k, v in env.items():
        u[strip(role(k))] = v if isinstance(v, T) else I(v)

    def g(t):
        if t in u:
            return u[t]
        for f in fs:
            r = f(t)
            if r is not None:
                return r
        return None
    r = Rebuild(g)
    return lambda t: r(strip(role(t)))


def writer_path(x, y=()):
    """names of the fields a place is reached through"""
    try:
        return base_of(mk("ptr", x, y))[1]
    except Exception:
        return ()


def symbols_of(an, *tables):
    """a pass which turns the elements of (sorted) collections of the symbols of a table into its entries"""
    from order import sources
    memo = {}

    def which(seq):
        if seq not in memo:
            src = sources(an, seq)
            t = set(n for p in src for n in p if n.endswith("sym_section"))
            memo[seq] = t.pop() if src and len(t) == 1 and all(any(n in tables for n in p) for p in src) else None
        return memo[seq]

    def f(t):
        if t.op == "at" and t.a[0].op in ("vsorted", "mu"):
            n = which(t.a[0])
            if n:
                return mk("symof", R(n), t.a[1])
        return None
    return Rebuild(f)


def first_copy(t):
    """each object is met once, so it has no slot before"""
    if t.op == "has" and base_of(t.a[0])[1][:1] == ("copy_rel_section",):
        return I0
    return None
