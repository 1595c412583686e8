"""The conditions under which a library is recorded as needed are compared, in the diagrams of the link's dataflow, with
those under which a symbol is taken from it; the name that is recorded is followed to the library's own."""
TECHNIQUE = "dataflow over MIR: conditions of recording a library implied by those of taking a symbol from it, in every order of libraries"
NOTE = "Which libraries are found: C22. What of a library is a definition: C06. The interpreter is always recorded, which isn't questioned."

from terms import *
from query import *
from slots import *
from relocs import going
import c08
import made


def run(ctx, rep):
    rep.rule("a library which isn't linked as needed is recorded, whatever it provides")
    rep.rule("a library from which a symbol is taken is recorded, and no other that is linked as needed")
    rep.rule("it is recorded under its shared-object name, or its file name if it has none, in the loader's string table, once")
    rep.rule("each library is linked as the option before it, or the script that names it, says")
    an = ctx.link()
    rep.an(an)
    d = c08.Dyn(ctx.compute())
    if not rep.need("the list of entries of the dynamic section", bool(d.list)):
        return
    ps = [e for e in an.events if e.kind == "push" and isinstance(e.d[1], tuple) and e.d[1][-1:] == (d.list,) and
          tag(an, proj1(e.d[2], "0")) == 1]
    ps = [e for e in ps if e.loops]
    lib = None
    for e in ps:
        for l in e.loops:
            w = listed(domain(an, l))
            if lib is None and w and w[0] == "each" and w[1].op != "L" and len(w[2]) >= 2:
                lib = l
    if not rep.need("the loop over the libraries", lib is not None):
        return
    dm = domain(an, lib)
    w = listed(dm)
    where = ps[0].where()
    l = an.loops[lib]
    rep.ob("libraries: from the first to the last", w[3] == 0 and not dm.rev, str(w), where)
    for n, (k, c, t, s) in enumerate(l.exits):
        g = c
        for a, v in dm.guards.items():
            g = band(g, cond_eq(a, v.a[0]))
        if g is not I0:
            rep.ob("libraries: none is left out, but by a failure", exit_k_fails(an, lid=lib, n=n), show(g)[:200], where)
    ps = [e for e in ps if lib in e.loops]
    flags = {t for e in ps for t in walk(strip(e.cond(within=lib))) if is_flag(t, dm)}
    if not rep.need("the mark of libraries that are linked as needed", len(flags) == 1):
        return
    flag = flags.pop()
    always = [e for e in ps if e.loops[-1] == lib]
    taken = [e for e in ps if e.loops[-1] != lib]
    for n, es in (("always", always), ("when a symbol is taken", taken)):
        if not rep.need("recording of libraries, " + n, bool(es)):
            return
    going_ = dm.guards
    off, on = (under({**{strip(k): v for k, v in going_.items()}, strip(flag): x}) for x in (I0, I1))
    fails = I0
    for x in dm.early:
        fails = bor(fails, x)
    have = lambda e: present(an, e, d.list)
    every = I0
    for e in always:
        c = strip(e.cond(within=lib))
        every = bor(every, bor(c, have(e)))
        rep.ob("as needed: not recorded for nothing", on(c) is I0, show(on(c))[:200], e.where())
    r = off(bor(strip(every), strip(fails)))
    rep.ob("not as needed: recorded", r is I1, "unless " + show(bnot(r))[:200], always[0].where())
    for e in taken:
        take(an, rep, e, d, flag, have)
    table = loader_table(ctx)
    for e in ps:
        name(an, rep, e, dm, table)
        once(an, rep, e, d)
    late = [e for e in an.events if e.kind in ("clear", "retain", "truncate", "pop", "drain", "vremove", "dedup") and
            isinstance(e.d[1], tuple) and e.d[1][-1:] == (d.list,)]
    rep.ob("nothing recorded is removed", not late, ", ".join(e.where() for e in late[:3]), where)
    marks(ctx, rep, w, flag)


def listed(dm):
    """what a loop goes through, whether or not it may stop early"""
    return dm.iters[0][1] if len(dm.iters) == 1 and dm.iters[0][1][0] == "each" else None


def tag(an, t):
    if t.op == "agg":
        t = an.discr(t, t.a[0])
    return t.a[0] if t.op == "int" else None


def is_flag(t, dm):
    """a field of the element of the list of libraries that isn't its path"""
    if t.op not in ("ld", "fld"):
        return False
    b, p = base_of(t)
    w = listed(dm)
    return b is w[1] and tuple(p[:len(w[2])]) == tuple(w[2]) and len(p) > len(w[2]) and \
        any(mentions(t, lambda x, ix=ix: x is ix) for ix, s in dm.iters) and not any(x.op in ("call",) for x in walk(t)) and \
        any(isinstance(y, T) for y in (t,)) and DOMAIN_BOOL(t)


def DOMAIN_BOOL(t):
    return DOM.get(t) == (0, 1)


def present(an, e, names):
    """the condition under which the entry is already there"""
    out = I0
    for s in subjects(e.cond()):
        if s.op == "contains" and mentions(s.a[0], lambda t: base_of(t)[1][-1:] == (names,)) and strip(s.a[1]) is strip(e.d[2]):
            out = bor(out, cond_eq(s, 1))
        elif s.op == "exit" and s.a[0] in an.loops:
            n = search(an, an.loops[s.a[0]], names, e.d[2])
            if n is not None:
                out = bor(out, cond_eq(s, n))
    return out


def search(an, l, names, v):
    """the exit of a loop that is taken exactly if one of the entries is v"""
    d = domain(an, l.id)
    if len(d.iters) != 1 or d.iters[0][1][0] != "each" or d.iters[0][1][2][-1:] != (names,) or d.iters[0][1][3] != 0 or len(l.exits) != 2:
        return None
    ix = d.iters[0][0]
    go = under(d.guards)
    out = [(n, go(strip(x[1]))) for n, x in enumerate(l.exits)]
    out = [(n, c) for n, c in out if c is not I0]
    if len(out) != 1:
        return None
    n, c = out[0]
    v = strip(v)

    def elem(t):
        return t.op == "at" and t.a[1] is ix

    def tag(s):
        """the tag of v where s is that of an entry"""
        t = proj1(v, s.a[0].a[1]) if s.a[0].op == "fld" and v.op == "agg" and s.a[0].a[1] in v.a[2] else BOT
        return [x for x, n in VARIANTS.get(s, {}).items() if t.op == "agg" and n == t.a[1]]

    def same(t):
        if t.op == "discr" and t.a[0].op == "fld" and elem(t.a[0].a[0]) and tag(t):
            return I(tag(t)[0])
        return v if elem(t) else None
    if Rebuild(same)(c) is not I1:
        return None
    # nothing else ends the search
    for s in subjects(c):
        if not mentions(s, elem):
            continue
        if s.op == "discr":
            for x in DOM.get(s, ()):
                if under({s: I(x)})(c) is not I0 and x not in tag(s):
                    return None
        elif s.op == "cmp":
            if any(under({t: I(x) for t in subjects(c) if t.op == "cmp" and mentions(t, elem)})(c) is not I0 for x in (-1, 1)):
                return None
        elif s.op not in ("eq", "ltc") or s.op == "eq" and under({s: I0})(c) is not I0:
            return None
    tests = [s for s in subjects(c) if mentions(s, elem)]
    parts = {x.a[1] for s in tests for x in walk(s) if x.op == "fld" and elem(x.a[0])}
    return n if v.op == "agg" and parts >= set(v.a[2]) else None


def take(an, rep, e, d, flag, have):
    at = e.loops[-1]
    uses = [x for x in an.events if x.loops == e.loops and (x.kind == "store" and x.d[1][-1:] == ("dynamic",) or
            x.kind == "minsert" and x.d[1][-1:] == ("symbols",) or found(an, x))]
    if not rep.need("where a symbol is taken from a library", bool(uses)):
        return
    used = I0
    for x in uses:
        used = bor(used, strip(x.cond(within=at)))
    c = strip(bor(e.cond(within=at), have(e)))
    rep.ob("as needed: recorded when a symbol is taken", implies(used, c), "taken without being recorded when %s" %
           show(band(used, bnot(c)))[:200], e.where())
    r = band(strip(e.cond(within=at)), bnot(used))
    rep.ob("as needed: not recorded unless a symbol is taken", r is I0, show(r)[:200], e.where())
    rep.ob("as needed: recorded however it is linked", not mentions(strip(e.cond(within=at)), lambda t: t is flag), "", e.where())


def found(an, x):
    """a reference is marked as no longer missing"""
    if x.kind != "lstore" or x.d[2] is not I1:
        return False
    return any(mentions(strip(x.d[0]), lambda t, ix=ix: t is ix) for l in x.loops[:-1] for ix, s in domain(an, l).iters)


def once(an, rep, e, d):
    found = present(an, e, d.list)
    rep.ob("once: not when it is there already (%s)" % kind(e), found is not I0 and
           band(strip(e.cond()), strip(found)) is I0, show(e.cond())[-200:], e.where())


def kind(e):
    return "taken" if len(e.loops) > 2 else "always"


def name(an, rep, e, dm, table):
    v = strip(proj1(e.d[2], "1"))
    keys, tables = set(), set()
    for t in walk(v):
        if t.op == "has":
            keys.add(t.a[1])
            tables.add(base_of(t.a[0]))
    for t in leaves(v):
        if t.op == "ld":
            b, p = base_of(t)
            tables.add((b, tuple(p)))
    n = "name (%s)" % kind(e)
    good = len(keys) == 1 and all(x is BOT or x.op == "ld" and base_of(x)[1][-1:] in (("total_len",), ("1",)) for x in leaves(v))
    rep.ob(n + ": the place of a text in a table", good, show(v)[:200], e.where())
    if not good:
        return
    key = keys.pop()
    same = all(not mentions(x, lambda t: t.op == "elem") or mentions(x, lambda t: t is key) for x in leaves(v))
    rep.ob(n + ": one text", same, show(v)[:200], e.where())
    roots = {b for b, p in tables}
    fields = {writer_field(b, p) for b, p in tables}
    rep.ob(n + ": in the loader's string table", len(fields) == 1 and fields == {table}, str(fields), e.where())
    put = [x for x in an.events if x.kind == "minsert" and x.loops == e.loops and strip(x.d[2]) is key and x.seq < e.seq]
    rep.ob(n + ": put there", bool(put), show(key)[:160], e.where())
    text = key.a[3][0] if key.op == "agg" and len(key.a[3]) == 1 else key
    ix = [i for i, s in dm.iters]
    parts = []
    own = lambda t: any(mentions(t, lambda x, i=i: x is i) for i in ix)
    ok = True
    subj = [s for s in subjects(text)]
    so = [s for s in subj if s.op == "discr" and base_of(s.a[0])[1][-1:] == ("soname",) or
          s.op == "discr" and s.a[0].op == "fld" and s.a[0].a[1] == "soname"]
    if len(so) != 1:
        rep.ob(n + ": its shared-object name if it has one", False, show(text)[:200], e.where())
        return
    s = so[0]
    has, hasnt = under({s: I1})(text), under({s: I0})(text)
    some = [x for x in leaves(has) if x is not BOT]
    rep.ob(n + ": its shared-object name if it has one", len(some) == 1 and own(some[0]) and
           base_of(some[0])[1][-3:][:1] == ("soname",) or len(some) == 1 and "soname" in base_of(some[0])[1] and own(some[0]),
           show(has)[:160], e.where())
    none = [x for x in leaves(hasnt) if x is not BOT]
    rep.ob(n + ": its file name if it has none", len(none) == 1 and mentions(none[0], lambda t: "file_name" in str(t.a[0]) and
           t.op not in ("sym",) if t.a else False) and own(none[0]) and not mentions(none[0], lambda t: "Elf" in str(t.a[:1])),
           show(hasnt)[:160], e.where())


def writer_field(b, p):
    """the section of the writer a table belongs to"""
    return p[0] if p else None


def loader_table(ctx):
    """the field with the string table that the dynamic section refers to"""
    a, ws = made.writers(ctx)
    out = set()
    for k in ws or ():
        for m in ws[k][2]:
            if m.type is not None and m.type.op == "int" and m.type.a[0] == 6:
                out |= {x.field for x in ws[k][2] if m.link is not None and mentions(m.link, lambda t, x=x: t is x.root)}
    return out.pop() if len(out) == 1 else None


def marks(ctx, rep, w, flag):
    """in the command line, each library gets the mark that is set when it is named"""
    an = ctx.main()
    rep.an(an)
    libs, mark = w[2][-1], base_of(flag)[1][-1]
    ps = [e for e in an.events if e.kind == "push" and isinstance(e.d[1], tuple) and e.d[1][-1:] == (libs,)]
    if not rep.need("where libraries are listed", bool(ps)):
        return
    src = set()
    for e in ps:
        v = strip(proj1(e.d[2], mark))
        names = {base_of(x)[1] for x in leaves(v) if x is not BOT}
        own = [ix for l in e.loops for ix, s in domain(an, l).iters]
        ok = len(names) == 1 and all(x.op in ("ld", "fld") and any(mentions(x, lambda t, ix=ix: t is ix) for ix in own)
                                     for x in leaves(v) if x is not BOT)
        rep.ob("marks: a library's is that of the input it was found for", ok, show(v)[:160], e.where())
        if ok:
            src.add(names.pop())
    if len(src) != 1:
        rep.ob("marks: of one list of inputs", False, str(src), ps[0].where())
        return
    p = [n for n in src.pop() if n != "[]"]
    inputs, part = p[-2], p[-1]
    ins = [e for e in an.events if e.kind == "push" and isinstance(e.d[1], tuple) and e.d[1][-1:] == (inputs,)]
    if not rep.need("where inputs are listed", bool(ins)):
        return
    loops, state = set(), set()
    for e in ins:
        v = strip(proj1(e.d[2], part))
        b, q = base_of(v)
        ok = b.op == "mu" and e.loops and b.a[0] == e.loops[-1] and len(q) >= 1
        rep.ob("marks: an input's is the one set before it", ok, show(v)[:160], e.where())
        if ok:
            loops.add((b.a[0], b.a[1]))
            state.add(tuple(q))
    if not rep.need("the mark being set", len(state) == 1):
        return
    q = state.pop()
    for lid, key in sorted(loops):
        l = an.loops[lid]
        v = l.latch.env.get(key) if l.latch is not None else None
        for n in q:
            v = proj1(v, n) if v is not None else None
        if v is None:
            rep.ob("marks: the options that set it", False, "loop without an end", "main")
            continue
        v = strip(v)
        sets = {}
        for s in {m.a[0] for m in walk(v) if m.op == "md"}:
            for m in [m for m in walk(v) if m.op == "md" and m.a[0] is s]:
                for k, x in m.a[1]:
                    if isinstance(k, str):
                        sets.setdefault(k, set()).add(x)
                if any(isinstance(k, str) for k, x in m.a[1]):
                    sets.setdefault(None, set()).add(m.a[2])
        ok = sets.get("--as-needed") == {I1} and sets.get("--no-as-needed") == {I0} and len(sets) == 3
        keep = all(x.op in ("ld", "fld", "mu") and tuple(base_of(x)[1]) == q and base_of(x)[0].op == "mu" and base_of(x)[0].a[0] == lid
                   for x in sets.get(None, ()))
        rep.ob("marks: set by --as-needed, reset by --no-as-needed, and kept by the others", ok and keep, show(v)[:200],
               "loop over options in " + l.frames[0][2] if l.frames and isinstance(l.frames[0][2], str) else "main")
        i = l.init.env.get(key)
        for n in q:
            i = proj1(i, n) if i is not None else None
        i = strip(i) if i is not None else BOT
        outer = parent(l)
        if outer is None:
            rep.ob("marks: the command line starts without it", i is I0, show(i)[:120], "main")
        else:
            # what a script names is marked like the script
            b, pp = base_of(i)
            scripts = {e.d[1][-1] for e in an.events if e.kind == "push" and isinstance(e.d[1], tuple) and e.d[1] and
                       pp and mentions(i, lambda t: t.op == "popped" and base_of(t.a[1])[1][-1:] == e.d[1][-1:])}
            ok = len(scripts) == 1 and len(pp) >= 1
            rep.ob("marks: a script starts with its own", ok, show(i)[:120], "main")
            for e in an.events:
                if ok and e.kind == "push" and isinstance(e.d[1], tuple) and e.d[1][-1:] == tuple(scripts):
                    v = strip(proj1(e.d[2], pp[-1]))
                    good = all(base_of(x)[1][-2:] == (inputs, part) or base_of(x)[1][-3:] == (inputs, "[]", part)
                               for x in leaves(v) if x is not BOT)
                    rep.ob("marks: a script's is that of the input it was found for", good, show(v)[:120], e.where())
