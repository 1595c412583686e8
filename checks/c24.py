"""What makes a member of an archive be linked is read off the conditions of its linking, for symbols of every kind; the
rounds of the resolution are evaluated for a symbol that is found and for one that isn't, through all lists and maps
between."""
TECHNIQUE = "dataflow over MIR: conditions of linking a member evaluated per kind of symbol, abstract interpretation of a symbol's way through the lists of a round"
NOTE = "What an archive's index says is goblin's to read; of several members that define a symbol it names one. Which libraries and archives are searched: C22; undefined symbols that remain: C07."

from terms import *
from query import *
from slots import writer_path
import c07
import rounds


def run(ctx, rep):
    rep.rule("a member is linked if the index says that it defines a symbol that a strong reference leaves undefined")
    rep.rule("a member is not linked for a symbol that is defined, or only weakly referred to, nor more than once")
    rep.rule("a member is linked as an object is: its sections, symbols and relocations, or the link fails")
    rep.rule("after a round in which a member was linked there is another, for all symbols that are undefined by then")
    an = ctx.link()
    rep.an(an)
    A = None
    for lid in sorted(an.loops):
        d = domain(an, lid)
        if any(s[0] == "each" and s[2][-1:] == ("archives",) for iv, s in d.iters[:1]) and \
                any(e.kind == "call" and e.d[0].endswith("::parse") and "Archive" in e.d[0] and lid in e.loops for e in an.events):
            A = lid
    if not rep.need("the loop over the archives", A is not None):
        return
    al = an.loops[A]
    ad = domain(an, A)
    where = next((e.where() for e in an.events if e.loops and e.loops[-1] == A), "")
    rep.ob("archives: from the first to the last", ad.iters[0][1][3] == 0 and not ad.rev, str(ad.iters[0][1])[:100], where)
    for n, x in enumerate(al.exits):
        c = x[1]
        for g, v in ad.guards.items():
            c = band(c, cond_eq(g, v.a[0]))
        if c is not I0:
            rep.ob("archives: none is left out, but by a failure", exit_k_fails(an, A, n), show(c)[:200], where)
    aiv = strip(ad.iters[0][0])
    parse = [e for e in an.events if e.kind == "call" and A in e.loops and e.d[0].endswith("::parse") and "Archive" in e.d[0]]
    elf = [e for e in an.events if e.kind == "call" and A in e.loops and e.d[0].endswith("::parse") and "Elf" in e.d[0]]
    if not rep.need("the archive is parsed", len(parse) == 1) or not rep.need("members are parsed", len(elf) == 1):
        return
    data = strip(parse[0].d[1][0])
    own = any(t.op == "elem" and path_names(t.a[1])[-1:] == ("archives",) and t.a[2] is aiv for t in walk(data))
    rep.ob("what is parsed is the archive's contents", data.op == "fld" and mentions(data, lambda x: x.op == "call" and "read" in x.a[0]) and own,
           show(data)[:200], parse[0].where())
    archive = proj_ok(parse[0])
    M = elf[0].loops[-1]
    if not rep.need("the loop over the members that are needed", M != A and parent(an.loops[M]) == A):
        return
    md = domain(an, M)
    if not rep.need("the members that are needed", len(md.iters) == 1 and md.iters[0][1][0] == "each" and not md.iters[0][1][2]):
        return
    for n, x in enumerate(an.loops[M].exits):
        if early(md, x[1]):
            rep.ob("members: none is left out, but by a failure", exit_k_fails(an, M, n), show(x[1])[:200], elf[0].where())
    rep.ob("members: from the first", md.iters[0][1][3] == 0, "", elf[0].where())
    miv, (_, root, names, start) = md.iters[0]
    miv = strip(miv)
    setvar, U = set_of(an, root, an.loops[M])
    if not rep.need("where the members come from", setvar is not None):
        return
    ins = [e for e in an.events if e.kind in ("minsert", "push") and e.d[0].op == "L" and e.d[0].a == setvar and e.d[1] == ()]
    if not rep.need("what makes a member be needed", bool(ins) and all(e.loops and e.loops[-1] == U for e in ins)):
        return
    other = [e for e in an.events if e.kind in ("mremove", "retain", "clear", "pop", "truncate", "drain", "vremove", "extend", "insert") and
             e.d[0].op == "L" and e.d[0].a == setvar]
    rep.ob("what is needed stays needed", not other, ", ".join(e.where() for e in other), elf[0].where())
    ud = domain(an, U)
    K = I0
    for e in ins:
        K = bor(K, strip(e.cond(within=U)))
    mem = member(an, rep, elf[0], archive, data, miv, root)
    if mem is None:
        return
    needed(an, rep, A, U, ud, K, ins, archive, mem, M, elf[0], aiv, root, miv)
    linked(an, rep, M, elf[0])
    again(an, rep, A, U, K, ins[0].where())


def early(d, pc):
    for g, v in d.guards.items():
        pc = band(pc, cond_eq(g, v.a[0]))
    return pc is not I0


def proj_ok(e):
    return e.ret if e.ret is not None else None


def set_of(an, root, l):
    """the variable a loop's container is kept in, and the loop that fills it"""
    if root.op == "L":
        root = l.init.env.get(root.a, root)
    root = strip(root)
    while root.op in ("vsorted", "vretain", "mretain"):
        root = root.a[0]
    if root.op == "mu" and not root.a[2]:
        return root.a[1], root.a[0]
    return None, None


def member(an, rep, e, archive, data, miv, root):
    """what tells which member is parsed: a component of the element of the set"""
    v = strip(e.d[1][0])
    gets = {t for t in walk(v) if t.op == "call" and "Archive" in t.a[0] and t.a[0].endswith(("::get_at", "::get"))}
    if not rep.need("the member that is parsed", len(gets) == 1):
        return None
    g = gets.pop()
    if not rep.ob("members are found by their position", g.a[0].endswith("::get_at"), "several members can have the same name", e.where()):
        return None
    ok = v.op == "sub" and strip(v.a[0]) is data
    size = None
    if ok:
        off = v.a[1]
        ok = is_field(off, g, "offset")
        c0, ds = lin_parts(v.a[2])
        rest = [t for t, n in ds if t is not strip(off) and not is_field(t, g, "offset")]
        ok = ok and c0 == 0 and len(ds) == 2 and all(n == 1 for t, n in ds) and len(rest) == 1 and \
            ((rest[0].op == "call" and rest[0].a[0].endswith("::size")) or is_field(rest[0], g, "size")) and mentions(rest[0], lambda x: x is g)
    rep.ob("what is linked is the member's part of the archive", ok, show(v)[:300], e.where())
    args = [x for x in g.a[1:] if isinstance(x, T)]
    # which archive
    same = any(strip(x).op == "fld" and "Archive" in show(strip(x)) and mentions(strip(x), lambda y: y.op == "call" and y.a[0].endswith("::parse") and "Archive" in y.a[0])
               for x in args)
    rep.ob("the member is looked for in its archive", same, show(g)[:200], e.where())
    m = [strip(x) for x in args if mentions(strip(x), lambda y: y.op in ("key", "at") and y.a[1] is miv)]
    if not rep.ob("the member that is linked is the one that is needed", len(m) == 1, show(g)[:200], e.where()):
        return None
    return m[0]


def is_field(t, g, name):
    t = strip(t)
    b, p = base_of(t)
    return p[-1:] == (name,) and mentions(t, lambda x: x is g)


def needed(an, rep, A, U, ud, K, ins, archive, mem, M, elf, aiv, root, miv):
    where = ins[0].where()
    if not rep.need("the loop over the undefined symbols", len(ud.iters) == 1 and ud.iters[0][1][0] == "each"):
        return
    uiv = strip(ud.iters[0][0])
    # the index
    maps = {}
    for e in an.events:
        if e.kind == "minsert" and e.d[0].op == "L" and e.d[1] == () and A in e.loops and \
                mentions(strip(e.d[2]), lambda t: t.op == "call" and t.a[0].endswith("::summarize")):
            maps.setdefault(e.d[0].a, []).append(e)
    if not rep.need("the index of the archive", len(maps) == 1):
        return
    var, es = list(maps.items())[0]
    for e in es:
        k, v = strip(e.d[2]), strip(e.d[3])
        dm = [domain(an, l) for l in e.loops if l != A and A in e.loops[:e.loops.index(l)]]
        ivs_ = [strip(d.iters[0][0]) for d in dm if d.iters]
        ok = len(dm) == 2 and all(len(d.iters) == 1 and d.iters[0][1][0] == "each" and d.iters[0][1][3] == 0 and not d.early for d in dm)
        rep.ob("index: all symbols of all members", ok and under({g: x for d in dm for g, x in d.guards.items()})(e.cond(within=e.loops[-1])) is I1,
               "", e.where())
        if ok:
            b, p = base_of(k)
            sym = k.op == "at" and k.a[1] is ivs_[1] and mentions(k.a[0], lambda t: t is ivs_[0])
            rep.ob("index: by the symbol's name", sym, show(k)[:200], e.where())
            rep.ob("index: the member's position", v is ivs_[0], show(v)[:200], e.where())
    u = Kinds(U, uiv, var, A, aiv)
    rep.parts = {"kinds": u, "raw": K, "found": under({strip(g): v for g, v in ud.guards.items()})(K), "where": where, "needs": U, "links": M}
    for what, want, sc in (("a symbol that is strongly referred to", I1, {}),
                           ("a weak reference", I0, {"bind": 2}),
                           ("a symbol that no member defines", I0, {"indexed": 0})):
        r = u(sc)(under({strip(g): v for g, v in ud.guards.items()})(K))
        rep.ob("needed: %s" % what, r is want, show(r)[:200], where)
    # the value: the member that defines the symbol
    link = strip(elf.cond(within=M))
    for e in ins:
        v = strip(e.d[2])
        xs = {x for x in vals(apply(lambda p, q: q if p is I1 else BOT, strip(e.cond(within=U)), at_set(mem, miv, v)))}
        good = bool(xs) and all(x.op == "at" and is_index(x.a[0], var) for x in xs)
        x = xs.pop() if xs else v
        rep.ob("needed: the member which the index names for the symbol", good, show(x)[:200], e.where())
        c = under({strip(g): I1 for g in domain(an, M).guards})(link)
        c = at_set(c, miv, v)
        c = under({strip(g): I1 for g in ud.guards})(c)
        for what, want, sc in (("a symbol that is still undefined", I1, {}),
                               ("a symbol that was defined in the meantime", I0, {"shndx": 7}),
                               ("a member that was linked before", I0, {"linked": 1})):
            r = u(sc)(c)
            rep.ob("linked: %s" % what, r is want, show(r)[:200], elf.where())
    once(an, rep, A, U, M, aiv, mem, elf, link, K, ins, miv)


def is_index(t, var):
    return t.op == "mu" and t.a[1] == var


def at_set(t, miv, v):
    def rep(x):
        if x.op in ("key", "at") and isinstance(x.a[1], T) and x.a[1] is miv:
            return v
        return None
    return Rebuild(rep)(t)


class Kinds(object):
    """a named symbol the loop U meets, of the given kind"""

    def __init__(self, U, uiv, index, A, aiv):
        self.uiv, self.index, self.aiv = uiv, index, aiv

    def __call__(self, sc):
        bind, indexed, shndx, done = sc.get("bind", 1), sc.get("indexed", 1), sc.get("shndx", 0), sc.get("linked", 0)

        def rep(t):
            if t.op == "discr" and mentions(t.a[0], lambda x: x is self.uiv) and t.a[0].op in ("key", "at"):
                return I0
            if t.op == "has":
                p = base_of(t.a[0])[1]
                if p[-1:] == ("symbols",) and "sym_section" in p:
                    return I1
                if is_index(t.a[0], self.index):
                    return I(indexed)
                if t.a[1].op == "agg" and mentions(t.a[1], lambda x: x is self.aiv):
                    return I(done)
            if t.op == "ld" and mentions(t, lambda x: x is self.uiv):
                p = base_of(t)[1]
                if p[-4:-2] == ("symbols", "[]") and "sym_section" in p:
                    if p[-1] == "st_info":
                        return I(bind << 4)
                    if p[-1] == "st_shndx":
                        return I(shndx)
            if t.op == "exit":
                return I(1)     # a name is found
            return None
        return Rebuild(rep)


def once(an, rep, A, U, M, aiv, mem, elf, link, K, needs, miv):
    """members that were linked are remembered"""
    sets = {t.a[0] for t in walk(link) if t.op == "has" and t.a[1].op == "agg" and mentions(t.a[1], lambda x: x is aiv)}
    if not rep.ob("a member is linked once", len(sets) == 1 and list(sets)[0].op == "mu", ", ".join(show(s) for s in sets), elf.where()):
        return
    s = sets.pop()
    var = s.a[1]
    es = [e for e in an.events if e.d and isinstance(e.d[0], T) and e.d[0].op == "L" and e.d[0].a == var and e.kind in
          ("minsert", "mremove", "retain", "clear", "lstore", "new")]
    ins = [e for e in es if e.kind == "minsert"]
    forget = [e for e in es if e.kind in ("mremove", "retain", "clear")]
    rep.ob("what was linked isn't forgotten", not forget, ", ".join(e.where() for e in forget), elf.where())
    keys = {strip(t.a[1]) for t in walk(link) if t.op == "has" and t.a[0] is s}
    c = I0
    for e in ins:
        if e.loops and e.loops[-1] == M:
            rep.ob("what was linked is told apart by archive and member", strip(e.d[2]) in keys and mentions(strip(e.d[2]), lambda x: x is aiv) and
                   mentions(strip(e.d[2]), lambda x: x is mem), show(e.d[2])[:200], e.where())
            c = bor(c, strip(e.cond(within=M)))
    for t in walk(K):
        if t.op == "has" and t.a[0].op == "mu" and t.a[0].a[1] == var:
            for e in needs:
                for k in keys:
                    rep.ob("needed: what was linked is told apart in the same way", equal(strip(e.cond(within=U)), at_set(k, miv, strip(e.d[2])), t.a[1]),
                           "%s against %s" % (show(t.a[1])[:150], show(k)[:150]), e.where())
    rep.ob("what is linked is remembered", implies(link, c), show(c)[:200], elf.where())
    # the variable lives as long as the rounds
    l = an.loops[s.a[0]]
    v = s
    seen = 0
    while v.op == "mu" and v.a[0] in an.loops and v.a[1] in an.loops[v.a[0]].init.env and seen < 20:
        l = an.loops[v.a[0]]
        v = strip(l.init.env[v.a[1]])
        seen += 1
    rep.ob("what was linked is remembered for the whole link", not any(f[0] == "loop" for f in l.frames), "forgotten in each round", elf.where())


def equal(c, a, b):
    """a and b are the same whenever c holds"""
    if a.op == "agg" and b.op == "agg" and a.a[:3] == b.a[:3]:
        return all(equal(c, x, y) for x, y in zip(a.a[3], b.a[3]))
    f = apply(lambda p, x, y: I1 if p is not I1 or x is y else I0, c, a, b)
    return all(x is I1 for x in vals(f))


def linked(an, rep, M, elf):
    """a member is treated as an object is"""
    d = domain(an, M)
    going = under({strip(g): v for g, v in d.guards.items()})(strip(elf.cond(within=M)))
    for what in ("section_headers", "syms", "shdr_relocs"):
        ls = [l for lid, l in an.loops.items() if parent(l) == M and any(s[0] == "each" and s[2][-1:] == (what,) for iv, s in domain(an, lid).iters[:1])]
        if not rep.ob("a member's %s are gone through" % what, len(ls) >= 1, "by no loop", elf.where()):
            continue
        c = I0
        for l in ls:
            c = bor(c, entry_cond(an, l, M))
            dd = domain(an, l.id)
            w = next((e.where() for e in an.events if e.loops and l.id in e.loops), "")
            rep.ob("a member's %s: from the first to the last" % what, dd.iters[0][1][3] == 0 and not dd.rev, "", w)
            for n, x in enumerate(l.exits):
                if early(dd, x[1]):
                    rep.ob("a member's %s: none is left out, but by a failure" % what, exit_k_fails(an, l.id, n), "", w)
        miss = band(strip(elf.cond(within=M)), bnot(strip(c)))
        rep.ob("a member's %s are always gone through" % what, event_cond_fails_stripped(an, elf, miss), show(miss)[:200], elf.where())


def event_cond_fails_stripped(an, e, cond):
    l = an.loops[e.loops[-1]]
    latch = strip(l.latch.pc) if l.latch is not None else I0
    if band(latch, cond) is not I0:
        return False
    for n, x in enumerate(l.exits):
        if band(strip(x[1]), cond) is not I0 and not exit_k_fails(an, l.id, n):
            return False
    return True


def again(an, rep, A, U, K, where):
    R = parent(an.loops[A])
    if not rep.ob("members that are linked can need others", R is not None, "archives are searched only once", where):
        return
    r = rounds.Round(an, R)
    l = an.loops[R]
    base = []
    for k, v in l.init.env.items():
        if l.latch is None or k not in l.latch.env:
            continue
        c0, c1 = c07.Chain(an, v), c07.Chain(an, l.latch.env[k])
        if c0.ok and c1.ok:
            base.append((mk("mu", R, k, ()), [("at first", c0), ("after a round", c1)]))
    for lid, q in an.loops.items():
        if parent(q) == R and q.latch is not None:
            for k in q.latch.env:
                c = c07.Chain(an, mk("mu", lid, k, ()))
                if c.ok:
                    base.append((mk("mu", lid, k, ()), [("in each round", c)]))
    if not rep.ob("the symbols that are undefined are determined anew in each round", bool(base),
                  "what the members that were linked need isn't known", where):
        return
    found = {U: K}
    for lid in an.loops:
        if R in [f[1] for f in an.loops[lid].frames if f[0] == "loop"] and lid != U:
            m = rounds.marked(an, lid)
            if m is not I0 and not any(f[0] == "loop" and f[1] == A for f in an.loops[lid].frames):
                found[lid] = m
    best, why = None, []
    for b, cs in base:
        x, w = r.decide(b, found, U)
        if x is None:
            why.append(w)
        elif best is None or x[0] is I0:
            best = (b, cs, x)
    if not rep.ob("whether there is another round depends on what was found", best is not None, "; ".join(sorted(set(why)))[:300], where):
        return
    b, cs, x = best
    rep.ob("there is another round after a member was needed", x[0] is I0, "ends if " + show(x[0])[:200], where)
    f = rounds.Flow(an, b, found, U)
    ud = domain(an, U)
    root = ud.iters[0][1][1]
    if root.op == "L":
        root = an.loops[U].init.env.get(root.a, root)
    st = f.after(root, False)
    rep.ob("all symbols that are undefined are looked up in each archive, until they are found", st is not None and all(s[0] == "in" for s in st),
           f.why or str(st), where)
    last = max(e.seq for e in an.events if A in e.loops)
    for what, c in cs:
        got = c.members(c07.scene(0, 1, 0))
        y = I0
        for k, v in got or []:
            y = bor(y, k)
        rep.ob("undefined symbols %s: all of them" % what, y is I1, show(y)[:200], where)
        for sc in (c07.scene(5, 1, 0), c07.scene(0, 1, 1)):
            got = c.members(sc)
            rep.ob("undefined symbols %s: no others" % what, got is not None and not got, "", where)
        if what == "after a round":
            first = [e.seq for e in list(an.events) + list(an.steps) if e.loops and c.loop.id in e.loops]
            rep.ob("undefined symbols after a round: those that are so after it", bool(first) and min(first) > last, "determined before", where)
