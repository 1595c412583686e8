"""Every write into the contents of an input chunk that happens while going through the relocations is
collected with its place, width, value and path condition. For each relocation type and kind of symbol the
conditions are specialised; what remains must be the one write the psABI prescribes (compared as linear
forms over symbol value, addend, place, GOT, PLT, whatever code computes them), or a relaxed instruction
whose target, decoded from the bytes written, is the same. The loops must cover all sections, chunks and
relocations, and the relocations must be the ones read from the input."""
TECHNIQUE = "symbolic dataflow over MIR: value and path condition of every write to a relocated field, per relocation type, against the psABI table"
NOTE = "Covers every type the ABI defines, every symbol kind and all values, up to 64-bit wrap-around (the code's conversions stop there)."

from terms import *
from query import *
from roles import *
from relocs import *

S, A, OFF, CH, G, GOT, GP, PLT, LI, Z, SD = (R(x) for x in (
    "S", "A", "OFF", "CHUNK", "G", "GOT", "GOTPLT", "PLT", "LIDX", "Z", "SDYN"))


def lin(*ts):
    r = I0
    for t in ts:
        if isinstance(t, tuple):
            r = add(r, scale(t[0], t[1]))
        else:
            r = add(r, t if isinstance(t, T) else I(t))
    return r


P = lin(CH, OFF)
L = lin(PLT, (LI, 16), 16)


def formulas(s):
    return {
        1: (8, lin(s, A)), 2: (4, lin(s, A, (P, -1))), 3: (4, lin(G, GOT, (GP, -1), A)),
        4: (4, lin(L, A, (P, -1))), 10: (4, lin(s, A)), 11: (4, lin(s, A)),
        9: (4, lin(G, GOT, A, (P, -1))), 12: (2, lin(s, A)), 13: (2, lin(s, A, (P, -1))),
        14: (1, lin(s, A)), 15: (1, lin(s, A, (P, -1))), 19: (4, lin(G, GOT, A, (P, -1))),
        22: (4, lin(G, GOT, A, (P, -1))), 23: (4, lin(s, A)), 24: (8, lin(s, A, (P, -1))),
        25: (8, lin(s, A, (GP, -1))), 26: (4, lin(GP, A, (P, -1))), 27: (8, lin(G, GOT, (GP, -1), A)),
        28: (8, lin(G, GOT, A, (P, -1))), 29: (8, lin(GP, A, (P, -1))), 32: (4, lin(Z, A)), 33: (8, lin(Z, A)),
        41: (4, lin(G, GOT, A, (P, -1))), 42: (4, lin(G, GOT, A, (P, -1))),
    }


def byte_env(bs):
    def rep(t):
        if t.op == "byte":
            d = sub(t.a[0], OFF)
            if d.op == "int" and d.a[0] in bs:
                return I(bs[d.a[0]])
        return None
    return Rebuild(rep)


def image(ws):
    """apply writes in order: {offset from the place: byte or (value, i, width)}; None if one is elsewhere"""
    m = {}
    for off, w, end, v in ws:
        d = sub(off, OFF)
        if d.op != "int" or w.op != "int":
            return None
        if v.op == "sub" and v.a[1] is I0:
            v = v.a[0]
        if v.op == "arr" and end == "raw":
            for i, x in enumerate(v.a[:w.a[0]]):
                m[d.a[0] + i] = x
            continue
        if w.a[0] == 1:
            m[d.a[0]] = v
            continue
        if end not in ("le",):
            return None
        for i in range(w.a[0]):
            m[d.a[0] + i] = (v, i, w.a[0])
    return m


def field(m, at, width):
    """the value stored at a place, if exactly it is"""
    x = m.get(at)
    if not isinstance(x, tuple) and width == 1:
        return x
    if not isinstance(x, tuple) or x[2] != width:
        return None
    if any(m.get(at + i) != (x[0], i, width) for i in range(width)):
        return None
    return x[0]


def const(m, at, bs):
    x = m.get(at, I(bs[at]) if at in bs else None)
    return x.a[0] if isinstance(x, T) and x.op == "int" else None


def relaxed(t, m, bs, s):
    """'' if the bytes are the instruction that does directly what the original did through the GOT"""
    goal = lin(s, A, 4)
    old = tuple(bs.get(i) for i in (-3, -2, -1))
    ks = set(m)

    def disp(at, end):
        v = field(m, at, 4)
        if v is None:
            return "no 32-bit displacement at %d" % at
        d = sub(add(untrunc(v), add(P, I(end))), goal)
        return "" if d is I0 else "target is off by %s" % show(d)
    if t == 41 and old[1] == 0xff and old[2] in (0x15, 0x25):
        op = {0x15: 0xe8, 0x25: 0xe9}[old[2]]
        if const(m, -2, bs) == op:
            if const(m, 3, {}) != 0x90 or ks != {-2, -1, 0, 1, 2, 3}:
                return "the byte left over is not a nop"
            return disp(-1, 3)
        if const(m, -2, bs) in (0x67, 0x90) and const(m, -1, bs) == op:
            if ks != {-2, -1, 0, 1, 2, 3}:
                return "other bytes are changed"
            return disp(0, 4)
        return "not the direct form of the instruction"
    if t in (41, 42) and old[1] == 0x8b and old[2] & 0xc7 == 5:
        pre = {-3} if t == 42 else set()
        if const(m, -2, bs) == 0x8d and const(m, -1, bs) == old[2] and (t == 41 or const(m, -3, bs) == old[0]):
            if not {0, 1, 2, 3} <= ks or not ks <= {0, 1, 2, 3, -1, -2} | pre:
                return "other bytes are changed"
            return disp(0, 4)
        return "not the lea with the same operand"
    return "instruction %s has no relaxed form" % (["%02x" % b if b is not None else "??" for b in old],)


def run(ctx, rep):
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    rep.rule("for every relocation type and kind of symbol, the only bytes written are the field of the type, with the psABI's value")
    rep.rule("a relaxed instruction has the length, the operand and the target of the original")
    rep.rule("every relocation of every chunk of every section is applied, or the link fails")
    rep.rule("a type is only rewritten from PLT32 to PC32, for symbols without a PLT entry")
    name = Relocs()
    writes, panics, loops = application(an, name)
    if not rep.need("writes to relocated fields", len(writes) >= 10):
        return
    for ls in loops:
        ds = [domain(an, l) for l in ls]
        shapes = [d.whole() for d in ds]
        ok = len(shapes) == 3 and all(shapes) and [s[2][-1] for s in shapes] == ["sections", "chunks", "relocations"] \
            and shapes[0][3] <= 1 and shapes[1][3] == shapes[2][3] == 0
        rep.ob("coverage: all sections, chunks and relocations are gone through", ok,
               "the loops are %s" % ([s and (s[2], s[3]) for s in shapes],), writes[0][0].where())
    for t in range(0, 43):
        for kind, (k, s) in KINDS.items():
            s = R(s)
            sc = scenario(name, t, **k)
            ws = []
            for e, off, w, end, v, c in writes:
                c2 = sc(c)
                if c2 is not I0:
                    ws.append((e, sc(off), sc(w), end, sc(v), c2))
            key = "R_X86_64 type %d, %s" % (t, kind)
            stop = I0
            for e, c in panics:
                stop = bor(stop, sc(c))
            check_type(rep, key, t, s, k, ws, stop)
    rewriting(rep, an, name)
    origin(rep, ctx)


def relevant(c):
    """the part of a condition that does not say which section this is"""
    return [x for x in subjects(c) if not (x.op in ("contains", "eq", "has", "cmp") and mentions(
        x, lambda y: y.op == "ld" and path_names(y.a[1])[-2:] == ("sh", "sh_name")))]


def check_type(rep, key, t, s, k, ws, stop):
    if t == 0:
        rep.ob(key, not ws, "bytes are written", ws[0][0].where() if ws else "")
        return
    if not ws:
        return      # not supported: C04
    f = formulas(s).get(t)
    ws = [(e, off, w, end, v, split_sections(c)) for e, off, w, end, v, c in ws]
    stop = split_sections(stop)
    bys = set()
    for e, off, w, end, v, c in ws:
        bys |= {x for x in subjects(c) if x.op == "byte"}
        bys |= {x for x in walk(v) if x.op == "byte" and v.op != "trunc"}
    if not bys:
        envs = [{}]
    else:
        import itertools
        doms = {}
        for e, off, w, end, v, c in ws:
            for m in [c] + [v]:
                for x in walk(m):
                    if x.op == "md" and x.a[0].op == "byte":
                        d = sub(x.a[0].a[0], OFF)
                        if d.op == "int":
                            doms.setdefault(d.a[0], set()).update(i for i, _ in x.a[1])
        envs = [dict(zip(sorted(doms), vs)) for vs in itertools.product(
            *[sorted(doms[d]) + [0x3e] for d in sorted(doms)])]
    where = ws[0][0].where()
    wrote = 0
    problems = []
    for env in envs:
        be = byte_env(env)
        cur = []
        must = be(stop)
        some_ = False
        for e, off, w, end, v, c in ws:
            c2 = be(c)
            if c2 is I0:
                continue
            cur.append((e, be(off), be(w), end, be(v), c2))
        if not cur:
            if must is not I1 and t not in (41, 42) or must is I0:
                problems.append(("nothing is written and the link goes on for instruction bytes %s" % env, where))
            continue
        wrote += 1
        # every write happens under the same condition, which together with failing is all there is
        for e, off, w, end, v, c2 in cur:
            if bor(c2, must) is not I1 and set(relevant(bor(c2, must))):
                problems.append(("not applied when %s" % show(bnot(bor(c2, must))), e.where()))
        m = image([x[1:5] for x in cur])
        if m is None:
            problems.append(("a write is not at the place of the relocation", cur[0][0].where()))
            continue
        direct = None
        if f:
            v = field(m, 0, f[0])
            if v is None or set(m) != set(range(f[0])):
                direct = "writes bytes %s instead of the %d bytes of the field" % (sorted(m), f[0])
            else:
                d = sub(untrunc(v), f[1])
                direct = "" if d is I0 else "value differs from the psABI's by %s" % show(d)
        else:
            direct = "no formula is known for the type"
        if direct and t in (41, 42):
            r = relaxed(t, m, env, s)
            if r and k["dyn"] == 1:
                r = direct
            direct = r
        if direct:
            problems.append((direct + (" (bytes before: %s)" % env if env else ""), cur[-1][0].where()))
    rep.ob(key, not problems and wrote > 0, problems[0][0] if problems else "never applied",
           problems[0][1] if problems else where)


def rewriting(rep, an, name):
    """stores to the fields of relocations"""
    st = []
    for e in an.events:
        if e.kind != "store":
            continue
        b, p = base_of(mk("ptr", e.d[0], e.d[1]))
        r = tail(p, ("relocations", "[]"))
        if r is None:
            continue
        st.append((e, r, name(e.d[2]), name(going(an, e))))
    bad = [e for e, r, v, c in st if r != ("0", "r_info")]
    rep.ob("rewriting changes nothing but types", not bad, "", bad[0].where() if bad else "")
    st = [x for x in st if x[1] == ("0", "r_info")]
    for t in range(0, 43):
        for kind, (k, s) in KINDS.items():
            s = R(s)
            sc = scenario(name, t, **k)
            cur = [(e, sc(v), sc(c)) for e, r, v, c in st]
            cur = [x for x in cur if x[2] is not I0]
            if not cur:
                continue
            e, v, c = cur[-1]
            new = Rebuild(lambda x: I(t) if x is trunc(32, False, R("INFO")) else None)(trunc(32, False, v))
            low = sub(v, R("INFO"))
            n = None
            if new.op == "int":
                n = new.a[0]
            elif low.op == "int":
                n = t + low.a[0]
            elif v.op == "int":
                n = v.a[0] & 0xffffffff
            else:
                d = sub(v, lin(R("INFO"), (trunc(32, False, R("INFO")), -1)))
                n = d.a[0] if d.op == "int" else None
                d = sub(v, sub(R("INFO"), I(t)))
                n = d.a[0] if n is None and d.op == "int" else n
                n = low_bits(v, R("INFO"), t) if n is None else n
            ok = n == t or (t == 4 and n == 2 and k["dyn"] == 0)
            ok = ok and all(implies(x[2], c) for x in cur[:-1])
            rep.ob("type %d of a %s is kept" % (t, kind), ok, "it becomes %s" % (n if n is not None else show(v)), e.where())


def origin(rep, ctx):
    """the relocations are the ones of the input, for the section and the symbol they name"""
    an = ctx.link()
    if not rep.need("Linker::link", an):
        return
    rep.an(an)
    rep.rule("a relocation is taken over with its own offset, type, addend and symbol, to the section its table is for")
    ss = sources(an)
    if not rep.need("relocations handed on to the writer", ss):
        return
    for n, s in enumerate(ss):
        key = "source %d" % n
        w = s.e.where()
        x = s.x
        if not rep.ob(key + ": offset", x is not None, "the offset is %s" % show(s.off or UNIT), w):
            continue
        u = s.under(addend=1)
        rep.ob(key + ": type", trunc(32, False, s.info) in (s.rtype(), trunc(32, False, s.rtype())), "r_info is %s" % show(s.info), w)
        ad = u(s.add)
        rep.ob(key + ": addend", base_of(ad) == base_of(proj(mk("fld", x, "r_addend"), (("v", "Some"), "0"))),
               "the addend is %s" % show(ad), w)
        ad0 = s.under(addend=0)(s.add)
        rep.ob(key + ": no addend", ad0 is I0, "a relocation without addend gets %s" % show(ad0), w)
        # which symbol: the one with the relocation's index, in the object's table
        getter = [y for y in walk(s.sym) if y.op == "call" and y.a[0].endswith("Symtab::<'a>::get")]
        ok = len(getter) == 1 and getter[0].a[-1] is mk("fld", x, "r_sym") and s.sym.op == "at"
        rep.ob(key + ": symbol", ok, "the symbol is %s" % show(s.sym), w)
        # which section: the one sh_info of the relocation section names
        it = x.a[0] if x.op == "at" else None
        b, p = base_of(it.a[2] if it.op == "call" and len(it.a) > 2 else it) if it is not None else (None, ())
        idx = None
        for y in walk(it) if it is not None else ():
            if y.op in ("elem", "at") and base_of(y)[1][-2:] == ("shdr_relocs", "[]"):
                idx = y.a[2] if y.op == "elem" else y.a[1]
        rep.ob(key + ": relocations of one table", p[-3:] == ("shdr_relocs", "[]", "1") and idx is not None,
               "the relocations are %s" % (show(it) if it is not None else None), w)
        infos = {y for y in walk(s.root) if y.op == "fld" and y.a[1] == "sh_info"}
        ok = False
        for y in infos:
            if y.a[0].op in ("at", "elem") and base_of(y)[1][-2:] == ("[]", "sh_info"):
                k = y.a[0].a[-1]
                kb, kp = base_of(k)
                ok = kp[-3:] == ("shdr_relocs", "[]", "0") and any(
                    z.op in ("at", "elem") and z.a[-1] is idx for z in walk(k))
        mp = [y for y in walk(s.root) if y.op == "at" and base_of(y.a[0])[1][-1:] == ("section_relocations",)]
        ok = ok and all(y.a[1] in infos for y in mp) and len(infos) == 1
        rep.ob(key + ": section", ok, "the section is %s" % show(s.root), w)
        # what is left out
        c = s.under()(role(s.e.cond()))
        odd = [y for y in subjects(c) if y is not s.rtype() and y is not trunc(32, False, s.rtype())
               and not (y.op == "has" and base_of(y.a[0])[1][-1:] in (("section_relocations",), ("symbols",)))]
        rep.ob(key + ": none left out", not odd and c is not I0, "depends on %s" % ", ".join(show(y) for y in odd), w)
        for l in s.e.loops[-2:]:
            d = domain(an, l)
            ok = len(d.iters) == 1 and d.iters[0][1][0] == "each" and d.iters[0][1][3] == 0
            rep.ob(key + ": all relocations of all tables", ok, "", w)
            for k in range(len(an.loops[l].exits)):
                pc = an.loops[l].exits[k][1]
                if pc in d.early:
                    rep.ob(key + ": stops only to fail", exit_k_fails(an, l, k), "a loop ends early", w)
