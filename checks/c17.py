"""Every step of the link that writes an address, a size, an offset or the value of a symbol, and every step that
reads one, is collected from the whole link in the order in which they run; the steps that read have to come after
the steps that write, and what they read has to be what was written, not an earlier state of it."""
TECHNIQUE = "ordering analysis over MIR of definitions and uses of sizes, addresses and symbol values, with versioned memory"
NOTE = "The entries of the dynamic section are added after its size is reserved: see C08. What the values are: C10, C28."

from terms import *
from query import *
from roles import *
from slots import *
from relocs import in_relocs, tail

WRITES = ("store", "lstore", "push", "insert", "minsert", "extend", "patch", "emit", "resize")


def wpath(e):
    try:
        return writer_path(*e.d[:2]) if isinstance(e.d[0], T) and isinstance(e.d[1], tuple) else ()
    except Exception:
        return ()


def reads(e, leaf):
    """the loads of a field in what an event writes"""
    out = set()
    v = e.d[2:] if e.kind != "minsert" else e.d[3:]
    for x in v:
        if isinstance(x, T):
            for t in walk(x):
                if t.op == "ld" and t.a[1] and t.a[1][-1] == leaf:
                    out.add(t)
    return out


def named(p):
    return tuple(x for x in p if x not in ("Some", "0", "[]"))


def start(an, e):
    """the heap before the outermost loop around an event"""
    return an.loops[e.loops[0]].init.heap if e.loops else e.heap


def names_of(p):
    return next((x for x in p if x.endswith("section") or x == "sections"), None)


def run(ctx, rep):
    rep.rule("nothing that determines the size of a section changes after the size is computed for the last time")
    rep.rule("no size changes once addresses are assigned, and no section is added")
    rep.rule("addresses are read only after they are assigned")
    rep.rule("values of symbols are final before relocations, GOT contents, symbol tables and the entry point read them")
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    evs = [(e, wpath(e)) for e in an.events if e.kind in WRITES]
    addr = [e for e, p in evs if p[-1:] == ("sh_addr",)]
    size = [e for e, p in evs if p[-1:] == ("sh_size",)]
    value = [e for e, p in evs if p[-1:] == ("st_value",) and e.kind == "store"]
    if not rep.need("assignment of addresses", addr) or not rep.need("computation of sizes", len(size) >= 6) \
       or not rep.need("values of symbols", len(value) >= 4):
        return
    rep.ob("addresses are assigned in one pass over the sections", len(set(e.loops for e in addr)) == 1 and len(addr[0].loops) >= 1,
           str(set(e.loops for e in addr)), addr[0].where())
    first, last = min(e.seq for e in addr), max(e.seq for e in addr)
    if not addr[0].loops:
        return
    loop = an.loops[addr[0].loops[0]]
    # sizes
    early = [e for e in size if e.seq < first]
    known = set(x for e in early for x in shapes(e.d[2]))
    late = [e for e in size if e.seq > first]
    rep.ob("no size is changed after addresses are assigned", not late, "%d" % len(late), (late or size)[0].where())
    srcs = {}           # what a size is computed from: suffix of path -> [(event, name of section)]
    for e in early:
        sec = names_of(wpath(e))
        for x in leaves(e.d[2]):
            for t, n in lin_parts(x)[1]:
                k = quantity(t)
                if k and k[-1] != "dyn_entries":
                    srcs.setdefault(k, []).append((e, sec))
    rep.need("quantities that sizes are computed from", len(srcs) >= 6)
    for k in sorted(srcs):
        at = srcs[k]
        grow = growth(an, evs, k)
        for g, p in grow:
            sec = names_of(p)
            after = [s for s, n in at if s.seq > g.seq and (sec is None or sec == "sections" or n in (sec, "sections") or len(k) == 1)]
            rep.ob("size after the last change of %s (%s)" % (".".join(k), sec or "?"), bool(after),
                   "changed, and the size that depends on it is not computed again", g.where())
        rep.ob("sized: %s" % ".".join(k), True, "%d changes, %d sizes" % (len(grow), len(at)), at[0][0].where())
    grown = [e for e, n in changes(an, {"sections"}) if e.seq > first and e.kind != "sort"]
    rep.ob("no section is added or removed after addresses are assigned", not grown, "", grown[0].where() if grown else addr[0].where())
    moved = [e for e, n in changes(an, {"sections"}) if e.seq > first and e.kind in ("sort", "swap", "reverse")]
    rep.ob("sections keep their order after addresses are assigned", not moved, "", moved[0].where() if moved else addr[0].where())
    # addresses
    n = 0
    for leaf in ("sh_addr", "sh_offset"):
        for e, p in evs:
            for t in reads(e, leaf):
                n += 1
                if e.seq < first:
                    rep.ob("%s is read after it is assigned: %s" % (leaf, ".".join(p[-2:])), False, show(t)[:120], e.where())
                elif t.a[2] <= loop.init.heap.id:
                    rep.ob("%s is read after it is assigned: %s" % (leaf, ".".join(p[-2:])), False,
                           "what is used was read before: " + show(t)[:120], e.where())
                elif e.seq < last and not e.loops[:1] == addr[0].loops[:1]:
                    rep.ob("%s is read after it is assigned: %s" % (leaf, ".".join(p[-2:])), False, show(t)[:120], e.where())
    rep.need("uses of addresses", n >= 20)
    rep.ob("uses of addresses and offsets come after their assignment", True, "%d uses" % n, addr[0].where())
    n = 0
    for e, p in evs:
        if e.seq < first:
            continue
        for t in reads(e, "sh_size"):
            v = an.hload(loop.init.heap, t.a[0], t.a[1])
            n += 1
            if v.op == "ld" and t.a[2] < v.a[2]:
                rep.ob("sizes are read after they are computed: %s" % ".".join(p[-2:]), False, show(t)[:120], e.where())
    rep.need("uses of sizes", n >= 3)
    # places of symbols
    done = max(e.seq for e in value)
    where = max(value, key=lambda e: e.seq).where()
    for e in value:
        use = any(t.op == "ld" and t.a[1] and t.a[1][-1] in ("sh_addr", "address") for x in e.d[2:] if isinstance(x, T) for t in walk(x))
        if use:
            rep.ob("symbols move to addresses that are assigned", e.seq > last, "", e.where())
    reg = [e for e, p in evs if e.kind == "minsert" and p[-1:] == ("symbols",) and "SymbolTable" not in p and "chunks" in p]
    move = [e for e in value if any(s[0] == "each" and s[2][-1:] == ("symbols",) and "chunks" in s[2]
                                    for l in e.loops for ix, s in domain(an, l).iters)]
    if rep.need("symbols of pieces", reg) and rep.need("values relative to pieces", move):
        m = min(e.seq for e in move)
        for e in reg:
            rep.ob("symbols are attached to pieces before these are moved", e.seq < m, "", e.where())
    uses = {"relocations": 0, "GOT": 0, "entry": 0, "symbol tables": 0}
    got = set(id(x[0]) for x in buffer_writes(an, "got_section"))
    for e, p in evs:
        if p[-1:] == ("st_value",):
            continue
        ts = reads(e, "st_value")
        if not ts:
            continue
        k = "relocations" if in_relocs(an, e) else "GOT" if id(e) in got else "entry" if p[-1:] == ("e_entry",) else "other"
        if k == "other" and e.kind == "emit":
            continue        # below
        if k == "other":
            # entries of the tables handed on before, and other copies of symbols
            if e.seq < first:
                continue
        uses[k] = uses.get(k, 0) + 1
        rep.ob("%s read values of symbols that are final" % k, e.seq > done, "%s" % where, e.where())
        h = start(an, e)
        for t in ts:
            v = an.hload(h, t.a[0], t.a[1])
            vs = [x.a[2] for x in walk(v) if x.op == "ld" and x.a[1] and x.a[1][-1] == "st_value"]
            if vs and t.a[2] < min(vs):
                rep.ob("%s read values of symbols that are final" % k, False, "what is used was read before: " + show(t)[:160], e.where())
    for k in ("relocations", "GOT", "entry"):
        rep.need("uses of symbol values: " + k, uses[k])
    after_layout(ctx, rep, srcs, known)


def after_layout(ctx, rep, srcs, known):
    """the rest of the link leaves what was laid out alone"""
    an = ctx.link()
    if not rep.need("Linker::link", an):
        return
    rep.an(an)
    evs = [(e, wpath(e)) for e in an.events if e.kind in WRITES]
    addr = [e for e, p in evs if p[-1:] == ("sh_addr",)]
    if not rep.need("assignment of addresses during the link", addr):
        return
    last = max(e.seq for e in addr)
    rest = [(e, p) for e, p in evs if e.seq > last]
    for e, p in rest:
        if p[-1:] == ("sh_size",):
            new = [x for x in shapes(e.d[2]) if x not in known]
            rep.ob("a size that is written again is what it was", not new, str(new)[:200], e.where())
    for k in sorted(srcs):
        for g, p in growth(an, rest, k, last):
            rep.ob("%s does not change once addresses are assigned" % ".".join(k), False, g.kind, g.where())
    value = [e for e, p in evs if p[-1:] == ("st_value",) and e.kind == "store"]
    done = max(e.seq for e in value) if value else 0
    # the contents of the symbol tables: what is written to the image was made after the last change
    made = {}
    for e, p in evs:
        if e.kind == "emit" and reads(e, "st_value") and e.d[0].op == "L":
            made.setdefault(e.d[0], []).append(e)
    rep.need("contents of symbol tables", made)
    out = [e for e, p in evs if e.kind == "emit" and e.d[1][-1:] == ("out",) and e.loops and mentions(
        e.d[-1], lambda x: x.op in ("ld", "at", "elem") and "chunks" in base_of(x)[1])]
    if not rep.need("writing of contents", out):
        return
    fresh = []
    for e, p in evs:
        if e.kind == "store" and tail(base_of(mk("ptr", e.d[0], e.d[1]))[1], ("chunks", "[]")) in ((), ("data",)):
            for l in made:
                if mentions(e.d[2], lambda x: x.op == "mu" and x.a[1] == l.a):
                    fresh.append((e, made[l]))
    ok = [e for e, ms in fresh if all(m.seq > done for m in ms) and e.seq < min(o.seq for o in out) and e.loops == out[-1].loops[:len(e.loops)]]
    rep.ob("symbol tables are written with the final values of symbols", bool(ok), "%d of %d" % (len(ok), len(fresh)),
           fresh[-1][0].where() if fresh else out[0].where())


def quantity(t):
    """the name of the table or counter a size is a multiple of"""
    x = t.a[0] if t.op == "len" else t
    if x.op not in ("ld", "fld", "at"):
        return None
    p = named(base_of(x)[1])
    if not p or "sh" in p:
        return None
    k = p[-2:] if len(p) > 1 and p[-2][:1].isupper() else p[-1:]
    if not k[-1][:1].islower() or k[-1].endswith("section") or k[-1] == "sections":
        return None
    return k


def shapes(v):
    """how a size is computed: factors and what they count"""
    out = set()
    for x in leaves(v):
        c, ds = lin_parts(x) if isinstance(x, T) and x is not BOT else (None, ())
        if c is not None:
            out.add((c, tuple(sorted((n, ".".join(quantity(t) or ()) if not (t.op == "len" and t.a[0].op == "mu") else "bytes")
                                     for t, n in ds))))
    return out


def growth(an, evs, k, after=-1):
    out = [(e, p) for e, p in evs if named(p)[-len(k):] == k and "chunks" not in p and e.kind != "lstore"]
    for e, n in changes(an, {k[-1]}):
        if e.seq > after and e.kind in ("insert", "extend", "append", "resize", "mremove", "vremove", "retain", "truncate", "clear",
                                        "pop", "dedup") and not any(e is g for g, _ in out):
            p = named(base_of(mk("ptr", e.d[0], e.d[1]))[1])
            if "chunks" not in p and p[-len(k):] == k:
                out.append((e, p))
    return out
