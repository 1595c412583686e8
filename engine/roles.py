"""Names for what terms stand for, so that rules compare meaning instead of spelling."""
from terms import *
from query import *
from flow import at

SYMBOL = "dld::symbol::Symbol"


def _symkey(k):
    """the symbol reference a table key was taken from: K<Named>.0 and so on"""
    if k.op == "ld" and len(k.a[1]) >= 2 and isinstance(k.a[1][-2], tuple) and k.a[1][-2][0] == "v" \
            and k.a[1][-2][1] in ("Named", "Section", "Local"):
        p = k.a[1][:-2]
        return mk("ld", k.a[0], p, 0) if p or k.a[0].op != "ld" else k.a[0]
    if k.op == "fld" and k.a[0].op == "fld" and isinstance(k.a[0].a[1], tuple):
        return k.a[0].a[0]
    return None


def _fix(t):
    if t.op == "elem" and t.rty is None:
        pass
    if t.op != "elem":
        return None
    c, p, j = t.a
    names = path_names(p)
    if names and names[-1] in ("symbols", "local_syms"):
        k = _symkey(j)
        if k is not None:
            return mk("symof", table_of(c, p), k)
    if c.op == "elem" and path_names(c.a[1])[-1:] == ("section_syms",) and not p:
        k = _symkey(j)
        if k is not None:
            return mk("symof", table_of(c.a[0], c.a[1]), k)
    return None


def table_of(c, p):
    """which section's symbol table it is"""
    b, names = base_of(mk("ld", c, p, 0))
    for n in names:
        if n.endswith("sym_section"):
            return mk("role", n)
    return mk("ld", c, p[:-1], 0)


def _rep(t):
    if t.op == "ld" and t.a[2] != 0:
        return ROLE(mk("ld", t.a[0], t.a[1], 0))
    return None


ROLE = Rebuild(_rep, _fix)


def role(t):
    return ROLE(t)


def emit_items(an, pred=lambda e: True):
    """what is appended, in order: (width, endianness, value) or ('each', container, width, endianness)"""
    out = []
    for e in an.events:
        if e.kind != "emit" or not pred(e):
            continue
        root, path, width, end, val = e.d[:5]
        loops = e.loops
        v = strip(val)
        w = width.a[0] if isinstance(width, T) and width.op == "int" else width
        if not loops:
            out.append(("one", w, end, v, e))
            continue
        for x in sequence(v):
            out.append(("each", w, end, x, e))
    return out


def sequence(v):
    """the element values a loop goes through, in order of the chained iterators"""
    if v.op == "md" and v.a[0].op == "which":
        r = []
        for c, x in sorted(v.a[1], key=lambda p: p[0]):
            r += sequence(x)
        return r
    return [v]
