"""The template of the procedure linkage table is evaluated byte by byte, and every later write into it and
into its slots is compared, as a linear term of the addresses of the tables, the slot and the index of the
entry, with what the psABI's lazy binding stubs need."""
TECHNIQUE = "symbolic dataflow over MIR: template bytes and patched displacements of the linkage stubs compared as linear terms"
NOTE = "Holds for every number of entries and all addresses; that a slot's relocation is the right one is C27."

from terms import *
from query import *
from roles import *
from slots import *
from relocs import going

HEADER = [0xff, 0x35, None, None, None, None, 0xff, 0x25, None, None, None, None]
ENTRY = [0xff, 0x25, None, None, None, None, 0x68, None, None, None, None, 0xe9, None, None, None, None]
NOPS = (0x90, 0xcc, 0x0f, 0x1f, 0x40, 0x00, 0x66)


def match(bs, pat):
    return all(p is None or b == p for b, p in zip(bs, pat))


def run(ctx, rep):
    rep.rule("the table starts with push GOT[1]; jmp *GOT[2] and holds, per entry, jmp *slot; push index; jmp header")
    rep.rule("each displacement is the distance from the end of its instruction to its target")
    rep.rule("the slot of an entry first holds the address behind the entry's first instruction")
    fs = ctx.find("lib", r"plt::Plt as .*Synthesized.*>::expand$")
    if rep.need("template of the PLT", fs):
        an = ctx.run("lib", fs[0])
        rep.an(an)
        pushed = [e for e in an.events if e.kind == "push" and base_of(mk("ptr", e.d[0], e.d[1]))[1][-1:] == ("chunks",)]
        if rep.need("the chunk of the PLT", len(pushed) == 1):
            e = pushed[0]
            app = {}
            for x in an.events:
                if x.kind in ("push", "emit") and x is not e and not (x.kind == "push" and x.d[1] == ("chunks",)):
                    app.setdefault((x.d[0], x.d[1]), []).append(x)
            seg = None
            for k, evs in app.items():
                if all(x.pc is I1 or under(going_env(an, x.loops))(x.full()) is I1 for x in evs):
                    seg = flat_bytes(an, evs)
            ok = seg is not None and len(seg) == 2 and seg[0][0] == "bytes" and seg[1][0] == "rep"
            rep.ob("template: header, then one entry per symbol", ok, str(seg), e.where())
            if ok:
                h, (_, shape, ent) = seg[0][1], seg[1]
                rep.ob("template: header instructions", len(h) == 16 and match(h, HEADER) and all(b in NOPS for b in h[12:]),
                       " ".join("%02x" % b for b in h), e.where())
                rep.ob("template: entry instructions", len(ent) == 16 and match(ent, ENTRY),
                       " ".join("%02x" % b for b in ent), e.where())
                rep.ob("template: as many entries as there are symbols in the table",
                       shape[0] == "each" and shape[2][-1:] == ("inner",) and shape[3] == 0, str(shape[0]), e.where())
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    nm = Slots()
    ws = buffer_writes(an, "plt_section", "got_plt_section")
    if not rep.need("writes into the PLT", ws):
        return
    PLT, GOTPLT, IDX, OFF, REL = R("PLT"), R("GOTPLT"), R("IDX"), R("PLTOFF"), R("REL")
    ent = add(scale(IDX, 16), I(16))           # offset of the entry
    addr = add(PLT, ent)
    want_head = {2: (sub(add(GOTPLT, I(8)), add(PLT, I(6))), "push GOT[1]"),
                 8: (sub(add(GOTPLT, I(16)), add(PLT, I(12))), "jmp *GOT[2]")}
    want = {
        ("plt_section", add(ent, I(2))): (sub(add(GOTPLT, OFF), add(addr, I(6))), 4, "entry: jmp through its slot"),
        ("plt_section", add(ent, I(7))): (REL, 4, "entry: push the index of its relocation"),
        ("plt_section", add(ent, I(12))): (sub(PLT, add(addr, I(16))), 4, "entry: jmp to the header"),
        ("got_plt_section", OFF): (add(addr, I(6)), 8, "slot: behind the entry's jmp"),
    }
    got = {k: [] for k in want}
    head = {k: [] for k in want_head}
    loops = set()
    for e, sec, frm, w, end, v in ws:
        f, v = nm(frm), nm(v)
        g = going(an, e)
        g = Rebuild(present)(role(g))
        wn = w.a[0] if w.op == "int" else None
        if not e.loops and f.op == "int":
            k = f.a[0]
            ok = sec == "plt_section" and k in head and wn == 4 and end == "le"
            if not rep.ob("header: write at %d of %s" % (k, sec), ok, "%s bytes, %s" % (show(w), end), e.where()):
                continue
            x = untrunc(v)
            rep.ob("header: %s" % want_head[k][1], all(untrunc(y) is want_head[k][0] for y in vals(x)),
                   show(v), e.where())
            head[k].append(g)
            continue
        k = (sec, f)
        if not rep.ob("entry: write at %s of %s" % (show(f), sec), k in want and len(e.loops) == 1,
                      "nothing of an entry is there", e.where()):
            continue
        x, width, what = want[k]
        ok = wn == width and end == "le" and all(untrunc(y) is x for y in vals(untrunc(v))) and len(ivs(nm2(frm), nm2(e.d[5]))) <= 1
        rep.ob(what, ok, "%s in %s bytes %s instead of %s" % (show(v), show(w), end, show(x)), e.where())
        got[k].append(g)
        loops.add(e.loops[-1])
    for k, (x, what) in want_head.items():
        rep.ob("header: %s is set, always" % what, cover(head[k]), "", "")
    for k, (x, w, what) in want.items():
        rep.ob(what + ", always", cover(got[k]), "paths: " + ", ".join(show(c) for c in got[k]), "")
    for l in loops:
        d = domain(an, l)
        s = d.iters[0][1] if d.iters else ("none",)
        rep.ob("every symbol with an entry is gone through", len(d.iters) == 1 and not d.early and s[0] == "each"
               and s[2][-1:] in (("got_plt",), ("inner",), ("symbols",)) and s[3] == 0, str(s[0]), "")
    # the index of the relocation
    pushes = [e for e in an.events if e.kind == "push" and base_of(mk("ptr", e.d[0], e.d[1]))[1][-1:] == ("plt_rels",)]
    stores = [e for e in an.events if e.kind == "store" and base_of(mk("ptr", e.d[0], e.d[1]))[1][-1:] == ("relocation_offset",)]
    if rep.need("relocations of the PLT", pushes) and rep.need("their indices", stores):
        for e in stores:
            v = e.d[2]
            ok = False
            for p in pushes:
                if p.loops == e.loops and band(strip(p.cond()), bnot(strip(e.cond()))) is I0 \
                        and band(strip(e.cond()), bnot(strip(p.cond()))) is I0:
                    from flow import vlen
                    n = vlen(p.d[3])
                    ok = ok or all(x.op == "agg" and x.a[1] == "Some" and x.a[3][0] is n
                                   for x in vals(v))
                    vr = role(p.d[2])
                    ok = ok and ivs(role(mk("ptr", e.d[0], e.d[1]))) <= ivs(vr) | set()
            rep.ob("the index pushed is the one of the symbol's relocation", ok, show(v), e.where())
        rep.ob("one place adds relocations of the PLT", len(pushes) == 1, "", pushes[0].where())
    from c27 import in_order
    in_order(rep, an, "plt_rels")


def nm2(t):
    return role(t)


def cover(conds):
    c = I0
    for x in conds:
        c = bor(c, x)
    return c is I1
