"""The order of the symbols of a table: a canonical form for sorted collections of table entries."""
from terms import *
from query import *
from roles import *


def _suffix(names):
    names = tuple(names)
    for i in range(len(names) - 1, -1, -1):
        if names[i] in ("symbols", "local_syms", "section_syms", "names"):
            return names[i:]
    return names[-1:]


def _shape(s):
    if s[0] == "each":
        return ("each", _suffix(s[2]), s[3])
    if s[0] == "chain":
        return ("chain", _shape(s[1]), _shape(s[2]))
    return s[:1] + ("?",)


def canon(an, v):
    """('sorted', comparator, stable?, source) | ('collect', shape, conditional?) | None"""
    if v.op == "vsorted":
        src = canon(an, v.a[0])
        if src is None:
            return None
        return ("sorted", cmp_canon(v.a[0], v.a[1]), src)
    if v.op == "mu":
        l = an.loops.get(v.a[0])
        if l is None or l.latch is None:
            return None
        init, nxt = l.init.env.get(v.a[1]), l.latch.env.get(v.a[1])
        d = domain(an, l.id)
        if init is None or nxt is None or len(d.iters) != 1:
            return None
        if d.rev:
            return None
        if nxt.op != "vpush" or nxt.a[0] is not v:
            return None
        s, pure = _shape(d.iters[0][1]), (not d.early) and elems_of(nxt.a[1], d.iters[0][0])
        if init.op == "arr" and not init.a:
            return ("collect", s, pure)
        c = canon(an, init)  # collected in several steps
        if c is None or c[0] != "collect":
            return None
        return ("collect", ("chain", c[1], s), c[2] and pure)
    return None


def elems_of(v, ix):
    """v is the element at ix itself, nothing else"""
    for x in vals(v):
        b = x
        while b.op in ("ptr", "ld") and not b.a[1]:
            b = b.a[0]
        if b.op == "elem":
            k = b.a[2]
            if k is ix or k.op == "key" and k.a[1] is ix:
                continue
            return False
        if b.op == "at" and (b.a[1] is ix or b.a[1].op == "key"):
            continue
        if b.op == "ptr" and b.a[1] and b.a[1][-1] == ("i", ix):
            continue
        return False
    return True


def cmp_canon(src, cmp_):
    """the comparator, with everything that depends on the collection itself named by role"""
    def rep(t):
        if t is src or t.op == "mu":
            return mk("role", "collection")
        if t.op == "ld" and t.a[2] != 0:
            return R_(mk("ld", t.a[0], t.a[1], 0))
        return None
    R_ = Rebuild(rep)
    return R_(cmp_)


def cmp_fields(cmp_):
    out = set()
    for x in walk(cmp_):
        if x.op in ("ld", "fld"):
            b, p = base_of(x)
            if b.op == "sortarg" and p:
                out.add(p)
    return out


def arg(n):
    return mk("sortarg", n)


def outcome(cmp_, a, b):
    """possible results of the comparator for elements with the given field values:
    {field path: int}, where ('sym','st_info') etc.; Less/Equal/Greater"""
    m = {"a": a, "b": b}

    def rep(t):
        if t.op in ("ld", "fld"):
            x, p = base_of(t)
            if x.op == "sortarg" and p in m[x.a[0]]:
                return I(m[x.a[0]][p])
        return None
    r = Rebuild(rep)(strip(cmp_))
    out = set()
    for x in vals(r):
        out.add(x.a[1] if x.op == "agg" else x)
    return out


def sources(an, v):
    """the full names of the containers a (sorted) collection goes through"""
    if v.op == "vsorted":
        return sources(an, v.a[0])
    if v.op != "mu" or v.a[0] not in an.loops:
        return []
    l = an.loops[v.a[0]]
    out = sources(an, l.init.env[v.a[1]]) if v.a[1] in l.init.env else []

    def rec(s):
        if s[0] == "each":
            out.append(base_of(mk("ptr", s[1], ()))[1] + tuple(s[2]))
        elif s[0] == "chain":
            rec(s[1])
            rec(s[2])
        else:
            out.append(("?",))
    for ix, s in domain(an, l.id).iters:
        rec(s)
    return out


def emitted_order(ctx, what="finalize"):
    """the order in which a symbol table emits its entries, in canonical form"""
    fs = ctx.find("lib", r"SymbolTable.* as .*Synthesized.*>::%s$" % what)
    if not fs:
        return None, None
    an = ctx.run("lib", fs[0])
    ems = [e for e in an.events if e.kind == "emit" and e.loops]
    if not ems:
        return None, an
    s, it = emitted_seq(an, ems)
    return (canon(an, s) if s is not None else None), an


def emitted_seq(an, ems):
    """the collection whose entries one loop emits"""
    lid = ems[0].loops[-1]
    d = domain(an, lid)
    it = d.iters[0] if len(d.iters) == 1 and not d.early else None
    if it is None or it[1][0] != "each" or it[1][3] != 0 or d.rev:
        return None, None
    seq = it[1][1]
    if it[1][2]:
        seq = strip(mk("ld", it[1][1], tuple(it[1][2]), 0))
    ats = {x.a[0] for e in ems for x in walk(e.d[4]) if x.op == "at" and x.a[1] is it[0]}
    if len(ats) == 1:
        seq = ats.pop()  # counted by index
    if seq.op == "L":
        seq = an.loops[lid].init.env.get(seq.a, seq)
    return seq, it


def collected_from(src):
    """the containers a collection goes through, in order, each from its start (whatever is made of their elements)"""
    if src is None or src[0] != "collect":
        return None

    def rec(s):
        if s[0] == "each":
            return [s[1]] if s[2] == 0 else None
        if s[0] == "chain":
            x, y = rec(s[1]), rec(s[2])
            return x + y if x is not None and y is not None else None
        return None
    return rec(src[1])


def pushed(an, v):
    """[(what is collected, index, unconditional?)] for a collection, step by step"""
    if v.op == "vsorted":
        return pushed(an, v.a[0])
    out = []
    while v.op == "mu" and v.a[0] in an.loops:
        l = an.loops[v.a[0]]
        nxt = l.latch.env.get(v.a[1])
        d = domain(an, l.id)
        if nxt is None or nxt.op != "vpush" or nxt.a[0] is not v or len(d.iters) != 1:
            return None
        out.append((nxt.a[1], d.iters[0][0], not d.early))
        v = l.init.env.get(v.a[1])
        if v is None:
            return None
    return out


def follow(v, path):
    """the field of v at the path, through references"""
    for n in path:
        if v.op == "ptr":
            v = mk("ptr", v.a[0], tuple(v.a[1]) + (n,))
        else:
            try:
                v = proj1(v, n)
            except Exception:
                return BOT
    v = strip(v)
    if v.op == "ptr":
        v = mk("ld", v.a[0], v.a[1], 0)
    return v
