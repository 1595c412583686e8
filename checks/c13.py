"""The life of a name is followed from its creation to its bytes: the offset handed out is the running total, which
grows by the name and its terminator exactly when the name is new; the table is written in the order of the offsets,
whole; and equal texts are equal names, however they are stored."""
TECHNIQUE = "path-condition and linear dataflow analysis over MIR of name creation, lookup and emission"
NOTE = "Contents of the names: C01 (text and terminator). That the standard map finds equal keys is trusted."

from terms import *
from query import *
from roles import *
from order import *
from slots import writer_path, changes


def run(ctx, rep):
    rep.rule("a new name gets offset = running total, which grows by its length and one; a known name changes nothing")
    rep.rule("lookups hand out the offset stored; the first name is the empty one")
    rep.rule("the table is all names, once, in the order of their offsets; its size is the running total")
    rep.rule("names with equal text are equal and hash alike, however they are stored")
    create(ctx, rep)
    lookup(ctx, rep)
    emission(ctx, rep)
    equality(ctx, rep)
    uses(ctx, rep)


def state(an, names):
    a1 = base_of(an.args[0])[0]

    def f(t):
        if t.op == "has" and base_of(t.a[0]) == (a1, ("names",)):
            return I(names)
        if t.op == "ld" and base_of(t) == (a1, ("total_len",)):
            return mk("role", "TOTAL")
        if t.op == "len" and base_of(t.a[0]) == (a1, ("names",)):
            return mk("role", "COUNT")
        if t.op == "ld" and base_of(t)[0] is a1 and base_of(t)[1][:2] == ("names", "[]"):
            return mk("role", {"0": "KNOWNINDEX", "1": "KNOWNOFFSET"}.get(base_of(t)[1][-1], "?"))
        return None
    r = Rebuild(f)
    return lambda t: r(strip(t))


TOTAL, COUNT, KI, KO = [mk("role", x) for x in ("TOTAL", "COUNT", "KNOWNINDEX", "KNOWNOFFSET")]


def create(ctx, rep):
    fs = [f for f in ctx.find("lib", r"StringTable(::<.*>|<.*>)?::get_or_create(::<[^{}]*>)?$")]
    if not rep.need("creation of names", fs):
        return
    for f in fs:
        an = ctx.run("lib", f)
        rep.an(an)
        k = "creation from %s" % f.name.split("::<")[-1].rstrip(">").split("::")[-1]
        a1 = base_of(an.args[0])[0]
        for known in (0, 1):
            u = state(an, known)
            what = "%s, %s name" % (k, "known" if known else "new")
            total = TOTAL
            keys = []
            w = f.name
            for e in an.events:
                if e.kind not in ("store", "minsert", "mremove", "retain", "clear", "drain", "mclear"):
                    continue
                b, p = base_of(mk("ptr", e.d[0], e.d[1]))
                c = u(e.full())
                if b is not a1 or c is I0:
                    continue
                w = e.where()
                if e.kind == "store" and p == ("total_len",) and c is I1:
                    total = under({TOTAL: total})(u(e.d[2]))
                elif e.kind == "minsert" and p == ("names",):
                    keys.append(strip(e.d[2]))
                    if not known:
                        v = strip(e.d[3])
                        uv = u(e.d[3])
                        rep.ob("%s: is kept with its offset" % what, c is I1 and uv.op == "agg" and TOTAL in uv.a[3], show(uv), w)
                        rep.ob("%s: is kept with its number" % what, c is I1 and uv.op == "agg" and COUNT in uv.a[3], show(uv), w)
                    else:
                        rep.ob("%s: stays as it is" % what, False, show(c), w)
                elif e.kind == "store" and p[:1] == ("section_strtab",):
                    continue
                else:
                    rep.ob("%s: nothing else changes" % what, False, "%s %s" % (e.kind, p), w)
            r = u(an.ret)
            off, new = fldof(r, "offset"), fldof(r, "new")
            if known:
                rep.ob("%s: the total stays" % what, total is TOTAL, show(total), w)
                rep.ob("%s: its offset is handed out" % what, off is KO, show(off), w)
                rep.ob("%s: its number is handed out" % what, fldof(r, "index") is KI, show(fldof(r, "index")), w)
                rep.ob("%s: it is not called new" % what, new is I0, show(new), w)
                continue
            rep.ob("%s: is kept" % what, len(keys) == 1, str(len(keys)), w)
            ok = bool(leaves_of(total))
            for x in leaves_of(total):
                c0, ds = lin_parts(x)
                ls = [d for d, n in ds if d.op == "len" and n == 1]
                ok = ok and c0 == 1 and len(ds) == 2 and (TOTAL, 1) in ds and len(ls) == 1 and keys and \
                    text_of(keys[0], ls[0].a[0])
            rep.ob("%s: the total grows by its length and one" % what, ok, show(total), w)
            rep.ob("%s: the total before is handed out" % what, off is TOTAL, show(off), w)
            rep.ob("%s: the count before is handed out" % what, fldof(r, "index") is COUNT, show(fldof(r, "index")), w)
            rep.ob("%s: it is called new" % what, new is I1, show(new), w)
    fs = ctx.find("lib", r"StringTable.* as .*Default.*>::default$")
    if rep.need("a fresh table", fs):
        an = ctx.run("lib", fs[0])
        rep.an(an)
        ins = [e for e in an.events if e.kind == "minsert"]
        ok = len(ins) == 1 and ins[0].full() is I1
        if ok:
            key, v = strip(ins[0].d[2]), strip(ins[0].d[3])
            ok = key.op == "agg" and any(x.op == "str" and x.a[0] == "" for x in key.a[3]) and \
                v.op == "agg" and all(x is I0 for x in v.a[3])
        rep.ob("a fresh table: the empty name is at offset 0", ok, "", fs[0].name)
        rep.ob("a fresh table: the total is the terminator", fldof(strip(an.ret), "total_len") is I1, show(an.ret)[:100], fs[0].name)


def fldof(r, name):
    if r.op != "agg":
        return BOT
    try:
        return proj1(r, name)
    except Exception:
        return BOT


def leaves_of(t):
    return [x for x in leaves(t) if x is not BOT]


def text_of(key, t):
    """t is the text of the name key"""
    b = base_of(strip(t))[0]
    return b in [base_of(x)[0] for x in walk(strip(key)) if x.op in ("sym", "ld", "ptr")]


def lookup(ctx, rep):
    n = 0
    for what in ("get", "sh_name"):
        for f in ctx.find("lib", r"StringTable(::<.*>|<.*>)?::%s(::<[^{}]*>)?$" % what):
            an = ctx.run("lib", f)
            rep.an(an)
            n += 1
            u = state(an, 1)
            r = u(an.ret)
            x = r.a[3][0] if r.op == "agg" and r.a[1] == "Some" else BOT
            if x.op == "agg":
                rep.ob("%s: hands out the number" % f.name, fldof(x, "index") is KI, show(x), f.name)
                x = fldof(x, "offset")
            while x.op == "trunc" and x.a[0] >= 32:
                x = x.a[2]
            rep.ob("%s: hands out the offset" % f.name, x is KO, show(r), f.name)
            r = state(an, 0)(an.ret)
            rep.ob("%s: an unknown name has none" % f.name, r.op == "agg" and r.a[1] == "None", show(r), f.name)
            for t in walk(an.ret):
                if t.op == "has":
                    rep.ob("%s: looks for the name asked for" % f.name,
                           text_of(strip(t.a[1]), an.args[1]) or base_of(an.args[1])[0] in walk(t.a[1]), show(t), f.name)
            bad = [e for e in an.events if e.kind in ("store", "minsert", "mremove")]
            rep.ob("%s: changes nothing" % f.name, not bad, "", f.name)
    rep.need("lookup of names", n)


def emission(ctx, rep):
    fs = ctx.find("lib", r"StringTable(::<.*>|<.*>)?::chunk$")
    if not rep.need("contents of a string table", fs):
        return
    an = ctx.run("lib", fs[0])
    rep.an(an)
    ems = [e for e in an.events if e.kind in ("emit", "push", "extend") and (e.kind != "push" or e.loops)]
    if not rep.need("bytes of a string table", ems):
        return
    w = ems[0].where()
    rep.ob("contents: names are written in one loop", len(set(e.loops for e in ems)) == 1 and len(ems[0].loops) == 1, "", w)
    seq, it = emitted_seq(an, ems)
    if rep.ob("contents: every name is written", it is not None, str(domain(an, ems[0].loops[-1]).iters)[:200], w):
        c = canon(an, seq)
        ok = c is not None and c[0] == "sorted"
        if rep.ob("contents: the names are sorted", ok, show(seq)[:200], w):
            ps = pushed(an, seq)
            ok = collected_from(c[2]) == [("names",)] and ps and len(ps) == 1 and ps[0][2]
            if rep.ob("contents: all names are collected, once", ok, str(c[2])[:200], w):
                P, ix, _ = ps[0]
                offs = [p for p in cmp_fields(c[1]) if writer_path(follow(P, p))[-3:] in (("names", "[]", "1"), ("names", "[]", "0")) and mentions(P, lambda t: t is ix)]
                if not rep.ob("contents: the names are sorted by offset", len(offs) == len(cmp_fields(c[1])) > 0,
                              str(cmp_fields(c[1])), w):
                    return
                r = Rebuild(lambda t: P if t.op == "at" and t.a[1] is it[0] else None)
                for e in ems:
                    if e.kind == "emit" and e.d[3] == "raw":
                        for x in leaves_of(strip(r(e.d[4]))) or [BOT]:
                            ok = mentions(x, lambda t: t.op == "key") and not writer_path(x)[-1:] == ("1",) and \
                                not mentions(x, lambda t: t.op == "ld" and writer_path(t)[-3:-1] == ("names", "[]"))
                            y = strip(x)
                            while y.op in ("fld", "ld", "ptr"):
                                y = y.a[0]
                            rep.ob("contents: the text is the name's", ok and y.op == "key", show(x), e.where())
            else:
                return
            for x, y, want in ((1, 2, {"Less"}), (2, 1, {"Greater"}), (300, 70000, {"Less"}), (1 << 33, 2, {"Greater"}), (255, 256, {"Less"})):
                o = outcome(c[1], {p: x for p in offs}, {p: y for p in offs})
                rep.ob("contents: offset %d against %d" % (x, y), o == want, str(o), w)
            same = all(mentions(e.d[4 if e.kind == "emit" else 2], lambda t: t is it[0]) or strip(e.d[4]).op == "int" for e in ems if e.kind == "emit")
            rep.ob("contents: of the name at hand", same, "", w)
    from relocs import going
    # every name is written with its text and terminator on every round
    acc = {}
    for e in ems:
        acc.setdefault(e.d[3] if e.kind == "emit" else e.kind, []).append(going(an, e))
    for k, cs in sorted(acc.items()):
        c = I0
        for x in cs:
            c = bor(c, x)
        rep.ob("contents: %s of every name" % {"raw": "the text", "le": "the terminator"}.get(k, k), c is I1, show(c)[:200], w)
    fs = ctx.find("lib", r"StringTable.* as .*Synthesized.*>::expand$")
    if rep.need("size of a string table", fs):
        an = ctx.run("lib", fs[0])
        rep.an(an)
        st = [e for e in an.events if e.kind == "store" and base_of(mk("ptr", e.d[0], e.d[1]))[1][-1:] == ("sh_size",)]
        if rep.need("store of the size", st):
            v = strip(st[-1].d[2])
            rep.ob("the size is the running total", base_of(v)[1][-1:] == ("total_len",) and v.op == "ld" and st[-1].full() is I1,
                   show(v), st[-1].where())


def equality(ctx, rep):
    fs = ctx.find("lib", r"<dld::name::Name as .*PartialEq.*>::eq$")
    hs = ctx.find("lib", r"<dld::name::Name as .*Hash.*>::hash(::<.*>)?$")
    if not fs and not hs:
        # names are plain strings
        return
    if not rep.need("equality of names", fs) or not rep.need("hash of names", hs):
        return
    an = ctx.run("lib", fs[0])
    rep.an(an)
    a, b = [base_of(x)[0] for x in an.args]

    def scene(i, j):
        def f(t):
            if t.op == "discr":
                x, p = base_of(t.a[0])
                if x is a and not p:
                    return I(i)
                if x is b and not p:
                    return I(j)
            if t.op == "eq":
                xs = sorted(base_of(x)[0] is b for x in t.a[:2])
                texts = all(base_of(x)[1][-1:] == ("0",) for x in t.a[:2])
                if xs == [False, True] and texts:
                    return mk("role", "SAMETEXT")
            return None
        return Rebuild(f)(strip(an.ret))
    ST = mk("role", "SAMETEXT")
    for i in (0, 1):
        for j in (0, 1):
            r = scene(i, j)
            g = lambda v: under({ST: I(v)})(r)
            rep.ob("names are equal exactly if their texts are (stored as %d and %d)" % (i, j), g(1) is I1 and g(0) is I0, show(r), fs[0].name)
    an = ctx.run("lib", hs[0])
    rep.an(an)
    a = base_of(an.args[0])[0]
    seqs = []
    for i in (0, 1):
        def f(t):
            if t.op == "discr" and base_of(t.a[0])[0] is a:
                return I(i)
            if t.op in ("ld", "ptr"):
                x, p = base_of(t)
                if x is a and p[-1:] == ("0",):
                    return mk("role", "TEXT")
            return None
        r = Rebuild(f)
        s = []
        for e in an.events:
            if e.kind == "call" and r(strip(e.full())) is not I0:
                s.append((str(e.d[0]), tuple(r(strip(x)) for x in e.d[1] if base_of(x)[0] is not base_of(an.args[1])[0]), r(strip(e.full()))))
        seqs.append(s)
    rep.ob("the hash of a name depends on its text only", seqs[0] == seqs[1] and len(seqs[0]) >= 1 and
           all(c is I1 for _, _, c in seqs[0]) and all(mentions(x, lambda t: t.op == "role" and t.a[0] == "TEXT") for _, xs, _ in seqs[0] for x in xs),
           str([[show(x) for x in xs] for _, xs, _ in seqs[0]]) + str([[show(x) for x in xs] for _, xs, _ in seqs[1]]), hs[0].name)


def uses(ctx, rep):
    """names of symbols are offsets into the table their symbol table is linked to"""
    rep.rule("the name of a symbol is an offset in the string table which goes with its symbol table, of its own name")
    for what, table, strs in (("add_symbol", "sym_section", "sym_str_section"), ("add_dyn_symbol", "dyn_sym_section", "dyn_sym_str_section")):
        fs = ctx.find("lib", r"Writer(::<.*>|<.*>)?::%s$" % what)
        if not rep.need("Writer::%s" % what, fs):
            continue
        an = ctx.run("lib", fs[0])
        rep.an(an)
        keys = [e for e in an.events if e.kind == "minsert" and writer_path(*e.d[:2])[-1:] == ("names",)]
        ok = [e for e in keys if writer_path(*e.d[:2])[:1] == (strs,)]
        rep.ob("%s: its name is created in its string table" % what, len(ok) == len(keys) > 0, str([writer_path(*e.d[:2])[:1] for e in keys]),
               fs[0].name)
        names = [x for x in an.args if x.op == "ptr"]
        for e in keys:
            bs = set(base_of(x)[0] for x in walk(e.d[2]) if x.op in ("ld", "ptr") or x.op == "sym")
            rep.ob("%s: it is the name given" % what, base_of(an.args[3])[0] in bs and len(bs) == 1, show(e.d[2])[:100], e.where())
        pools = set()
        n = 0
        for e in an.events:
            if e.kind not in ("minsert", "push") or writer_path(*e.d[:2])[:1] != (table,):
                continue
            v = e.d[3] if e.kind == "minsert" else e.d[2]
            if v.op == "arr" and not v.a:
                continue
            if v.op == "arr":
                v = v.a[0]
            from c06 import fieldof
            name = strip(fieldof(v, "st_name"))
            n += 1
            for x in walk(name):
                if x.op == "ld":
                    p = base_of(x)[1]
                    if p[-1:] == ("total_len",) or p[-3:-1] == ("names", "[]"):
                        pools.add(p[0])
            for x in leaves_of(name) or [BOT]:
                while x.op == "trunc" and x.a[0] == 32:
                    x = x.a[2]
                p = base_of(x)[1] if x.op == "ld" else ()
                rep.ob("%s: the name of a symbol is the offset of its name" % what, p[-1:] == ("total_len",) or
                       p[-3:] == ("names", "[]", "1"), show(x)[:200], e.where())
        rep.ob("%s: the name of a symbol is an offset in its string table" % what, pools == {strs} and n > 0, str(pools), fs[0].name)
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    rep.rule("no name is created after the sizes of the string tables are taken")
    sizes = [e for e in an.events if e.kind == "store" and writer_path(*e.d[:2])[-1:] == ("sh_size",) and
             any(writer_path(x) and writer_path(x)[-1:] == ("total_len",) for x in walk(e.d[2]) if x.op == "ld")]
    if rep.need("sizes of string tables", sizes):
        first = min(e.seq for e in sizes)
        for e in an.events:
            if e.kind in ("minsert", "mremove", "clear", "retain", "drain", "mclear") and writer_path(*e.d[:2])[-1:] == ("names",):
                rep.ob("no name is created after sizing", e.kind == "minsert" and e.seq < first, e.kind, e.where())
