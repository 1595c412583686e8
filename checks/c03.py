"""Every value written to a field of a section's contents or a linkage table that was narrowed on the way is
found together with the condition of the write. That condition together with "the value is outside the
range of the field" must imply that the link has panicked or failed, on every path."""
TECHNIQUE = "range analysis over MIR path conditions: each narrowed store is dominated by a failing range check of the same linear form"
NOTE = "The range check is recognised by what it compares, not by how it is spelled; addresses are treated as unbounded integers."

from terms import *
from query import *
from roles import *
from relocs import *


def within(x, w, signed):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    ty = "i64"
    return band(compare("Ge", x, I(lo), ty), compare("Le", x, I(hi), ty))


def run(ctx, rep):
    rep.rule("a value narrowed to a field is written only on paths where a check of the value against the field's range has passed")
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    name = Relocs()
    writes = []
    for e in an.events:
        if e.kind != "patch":
            continue
        b, p = base_of(mk("ptr", e.d[0], e.d[1]))
        if p[-1:] == ("data",) or e.d[0].rty == "dld::elf::chunk::Chunk":
            writes.append(e)
    if not rep.need("writes to section contents", len(writes) >= 10):
        return
    panics = [e for e in an.events if e.kind == "panic"]
    seen = {}
    rel = 0
    for e in writes:
        v = role(e.d[5])
        for x in {y for y in walk(v) if y.op == "trunc" and y.a[0] < 64}:
            if not narrowed(v, x):
                continue
            if index_only(x.a[2]):
                continue
            bits, signed = x.a[0], x.a[1]
            val = x.a[2]
            c = role(e.full())
            here = choose(v, x)
            bad = band(band(c, here), bnot(within(val, bits, signed)))
            stop = I0
            for p in panics:
                if p.loops == e.loops[:len(p.loops)]:
                    stop = bor(stop, role(p.full()))
                    if implies(bad, stop):
                        break
            ok = implies(bad, stop)
            key = "narrowing to %s%d in %s" % ("i" if signed else "u", bits, e.pos[2].split("::")[-1])
            n = seen[key] = seen.get(key, 0) + 1
            rel += 1
            rep.ob("%s #%d" % (key, n), ok, "%s is cut to %d bits without a check" % (show(name(val)), bits), e.where())
    rep.need("narrowed values", rel >= 8)
    formula(rep, an, name)


def formula(rep, an, name):
    """the value the psABI prescribes is out of range: nothing may be stored, not even another value"""
    from c02 import formulas, lin, A, P
    rep.rule("where the prescribed value of a relocation is outside the range of its field, all paths fail")
    writes, panics, loops = application(an, name)
    for t in range(1, 43):
        for kind, (k, s) in KINDS.items():
            s = R(s)
            sc = scenario(name, t, **k)
            ws = [(x[0], sc(x[5])) for x in writes]
            ws = [x for x in ws if x[1] is not I0]
            f = formulas(s).get(t)
            if not ws or not f or f[0] == 8:
                continue
            val = f[1]
            if t in (41, 42) and k["dyn"] == 0:
                val = lin(s, A, (P, -1), 1 if t == 41 else 0)
            out = bnot(within(val, 8 * f[0], t not in (10, 12, 14)))
            stop = I0
            for e, c in panics:
                stop = bor(stop, sc(c))
            ok = all(implies(band(c, out), stop) for e, c in ws)
            rep.ob("type %d, %s: fails when out of range" % (t, kind), ok,
                   "%s is not checked against the field" % show(val), ws[0][0].where())


def narrowed(v, x):
    """the narrowed value itself is stored, not something it only decides"""
    return any(y is x or (y.op == "lin" and any(t is x for t, _ in y.a[1])) for y in leaves(v))


def choose(v, x):
    """the condition under which v is made from x"""
    return apply(lambda y: I1 if y is x or (y.op == "lin" and any(t is x for t, _ in y.a[1])) else I0, v)


def index_only(v):
    """a count of entries, not an address or a distance"""
    if v.op == "lin":
        return False
    b, p = base_of(v)
    return p[-3:-2] == ("relocation_offset",)
