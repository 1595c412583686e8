"""The loop that lays out the sections is reduced to what one round does, and its invariants are shown by cases: for every
state it can be in, kind of section and way through the round, the section is aligned, behind what came before, in its segment as
far as in the file, and the counters point behind it. The order of the sections, which the cases rely on, is decided from the
comparator; what is written is followed from the offsets to the file."""
TECHNIQUE = "abstract interpretation of one round of the layout loop, extracted from MIR, with linear and congruence invariants; evaluation of the comparator of sections"
NOTE = "Alignments are powers of two, as ELF demands. Offsets of the section headers and of sections that aren't loaded aren't aligned. That pieces add up to the size of their section: C11; that the headers list what is here: C09."

from terms import *
from query import *
from layout import *
from image import Image, list_changes
import made

ALIGNS = [0] + [1 << k for k in (0, 1, 2, 3, 4, 5, 6, 8, 11, 12, 13, 16, 20, 21, 30)]


def run(ctx, rep):
    rep.rule("a loaded section is aligned, behind everything before it in memory and in the file, and the counters move behind it")
    rep.rule("address and offset of a section are as far from those of its segment, which are congruent modulo the page size")
    rep.rule("loaded sections come before others, and those without data last among those with the same flags")
    rep.rule("contents are written at the offset of their section")
    l = Layout(ctx)
    rep.an(l.an)
    if not rep.need("the loop that lays out the sections: %s" % l.why, l.ok):
        return
    w = l.domain.whole()
    rep.ob("all sections but the null section are laid out, in order", bool(w) and w[2] == ("sections",) and w[3] == 1 and
           not l.domain.early and not l.domain.rev, str(l.domain.iters)[:200], l.where())
    rep.ob("always", strip(entry_cond(l.an, l.loop, None)) is I1, show(strip(entry_cond(l.an, l.loop, None)))[:200], l.where())
    for e in l.outside:
        rep.ob("addresses and offsets are given in one place", False, "%s.%s" % (show(e.d[0])[:80], e.d[1][-1]), e.where())
    for e in l.changed:
        rep.ob("laid out sections keep what their place depends on", False, str(e.d[1]), e.where())
    init = initial(ctx, rep, l)
    if init is None:
        return
    ordered(rep, l)
    c = Count(l)
    if rep.need("the room for the headers: %s" % c.why, c.ok):
        rep.ob("the room for the headers has the file header in it", c.head == 64, show(c.room), l.where())
    r = Rules(rep, l)
    n, why = explore(l, init, r.visit)
    rep.ob("all states of the layout are covered", why is None and n > 100, "%d rounds: %s" % (n, why), l.where())
    m, why = explore(l, init, r.visit, flags=(2, 6, 0x30), types=(PROGBITS, NOBITS), aligns=ALIGNS)
    rep.ob("all alignments are covered", why is None and m > 100, "%d rounds: %s" % (m, why), l.where())
    r.report()
    written(ctx, rep, l)


def initial(ctx, rep, l):
    """the values of the counters of a new writer, as terms"""
    _, ws = made.writers(ctx)
    if not rep.need("a new writer", ws):
        return None
    out = {}
    for k, (w, fields, order) in ws.items():
        for n in ("file_offset", "p_vaddr"):
            out.setdefault(n, set()).add(w[n] if n in w else None)
        rep.ob("style %d: some section is always loaded" % k, any(m.flags is not None and m.flags.op == "int" and m.flags.a[0] & ALLOC
                                                                 for m in order), str(order)[:100], l.where())
    first = min(e.seq for e in l.events)
    for n in out:
        rep.ob("%s: the same at the start of every layout" % n, len(out[n]) == 1 and all(x is not None and x.op == "int" for x in out[n]),
               str(out[n]), l.where())
        for e in l.an.events:
            if e.kind == "store" and tuple(e.d[1]) == (n,) and e.seq < first:
                rep.ob("%s: isn't changed before the layout" % n, False, show(e.d[2])[:80], e.where())
    if any(len(x) != 1 or next(iter(x)) is None for x in out.values()):
        return None
    return {n: next(iter(x)) for n, x in out.items()}


def ordered(rep, l):
    o = Order(l)
    if not rep.need("the order of the sections: %s" % o.why, o.ok):
        return
    an = l.an
    ps = [(f, t, a) for f in FLAGS for t in TYPES for a in (1, 8, 4096)]
    import functools
    got = {}
    for a in ps:
        for b in ps:
            got[a, b] = o.compare(a, b)
    bad = [(a, b) for a, b in got if got[a, b] is None]
    if not rep.ob("order: decided by flags, type and alignment", not bad, str(bad[:2]), o.event.where()):
        return
    bad = [(a, b) for a, b in got if got[a, b] != -got[b, a]]
    seq = sorted(ps, key=functools.cmp_to_key(lambda a, b: got[a, b]))
    bad = bad or [(a, b) for i, a in enumerate(seq) for b in seq[i:] if got[a, b] > 0]
    rep.ob("order: the comparator is an order", not bad, str(bad[:2]), o.event.where())
    bad = [(a, b) for a, b in got if a[0] & ALLOC and not b[0] & ALLOC and got[a, b] >= 0]
    rep.ob("order: loaded sections come first", not bad, str(bad[:2]), o.event.where())
    bad = [(a, b) for a, b in got if a[0] == b[0] and a[0] & ALLOC and a[1] != NOBITS and b[1] == NOBITS and got[a, b] >= 0]
    rep.ob("order: those without data come last among equal flags", not bad, str(bad[:2]), o.event.where())
    bad = [(seq[i], seq[k]) for i in range(len(seq)) for k in range(i, len(seq)) if seq[i][0] == seq[k][0] and seq[i][0] & ALLOC and
           any(seq[j][0] != seq[i][0] for j in range(i, k))]
    rep.ob("order: sections with the same flags are next to each other", not bad, str(bad[:2]), o.event.where())
    first = min(e.seq for e in l.events)
    n = 0
    for e in list_changes(an, "sections"):
        if e.seq <= o.event.seq or e.kind in ("sort", "sorted"):
            continue
        n += e.seq < first
        rep.ob("order: is kept", e.kind == "insert" and e.d[3] is I0 and e.seq < first and not e.loops, "%s at %s" % (e.kind, e.where()), e.where())
    w = l.domain.whole()
    rep.ob("order: what is put in front is left out", not w or w[3] == n, "%d sections, %s left out" % (n, w and w[3]), o.event.where())
    for e in an.events:
        if e.kind == "store" and e.seq > o.event.seq and e.d[1][-1:] in (("sh_flags",), ("sh_type",), ("sh_addralign",)):
            rep.ob("order: what it depends on is kept", False, str(e.d[1]), e.where())


class Rules(object):
    def __init__(self, rep, l):
        self.rep, self.l = rep, l
        self.n, self.bad = {}, {}

    def check(self, what, ok, s, p, txt):
        self.n[what] = self.n.get(what, 0) + 1
        if not ok and what not in self.bad:
            self.bad[what] = "%r; section with flags %#x, type %d, alignment %d: %s" % (s, p[0], p[1], p[2], txt)

    def report(self):
        for what in sorted(self.n):
            self.rep.ob(what, what not in self.bad, self.bad.get(what, "") or "%d ways" % self.n[what], self.l.where())

    def visit(self, s, p, ways):
        for f, why, v in ways:
            self.way(s, p, f, why, v)

    def way(self, s, p, f, why, v):
        fl, ty, al = p
        l = self.l
        f0, v0 = s.cells["file_offset"], s.cells["p_vaddr"]
        f1, v1 = v["file_offset"], v["p_vaddr"]
        addr, off = v["sh_addr"], v["sh_offset"]
        bits = ty == NOBITS
        disk = I0 if bits else SIZE
        k = l.segment(v)

        def ok(what, c, *ts):
            self.check(what, c, s, p, "; ".join(show(t)[:150] for t in ts) + " [" + ", ".join("%s=%s" % (show(a)[:60], b) for a, b in why)[:200] + "]")

        def same(what, a, b):
            ok(what, floor(a) is floor(b), a, b)

        def least(what, a, b):
            ok(what, f.positive(sub(a, b)), a, b)
        if any(t.op in ("agg", "md", "bot") for t in (f1, v1, addr, off)):
            return ok("the round is understood", False, f1, v1, addr, off)
        if not fl & ALLOC:
            least("not loaded: behind what is before it in the file", off, f0)
            same("what comes next is behind the section in the file", f1, add(off, disk))
            same("not loaded: takes no memory", v1, v0)
            ok("not loaded: ends the segment", k is None)
            ok("not loaded: has no address", addr is BEFORE["sh_addr"], addr)
            return
        if al > 1:
            ok("loaded: the address is aligned", f.congruent(addr, al.bit_length() - 1), addr)
        least("loaded: behind what is before it in memory", addr, v0)
        same("loaded: counted in memory", v1, add(addr, SIZE))
        same("what comes next is behind the section in the file", f1, add(off, disk))
        if not bits:
            least("loaded: behind what is before it in the file", off, f0)
        else:
            least("loaded, without data: takes nothing from the file", f1, f0)
        ok("loaded: a segment is open", k is not None)
        if k is None:
            return
        h = v[k].a[3][0]
        h = dict(zip(h.a[2], h.a[3]))
        o, a, fs, ms = (h[n] for n in ("p_offset", "p_vaddr", "p_filesz", "p_memsz"))
        ok("segment: offset and address are congruent", f.congruent(sub(o, a), 12), o, a)
        same("segment: physical and virtual address are the same", h["p_paddr"], a)
        same("segment: ends where memory does", v1, add(a, ms))
        if bits:
            least("segment: ends before the rest of the file", f1, add(o, fs))
            least("segment: no more in the file than in memory", ms, fs)
        else:
            same("segment: ends where the file does", f1, add(o, fs))
            same("segment: as much in the file as in memory", ms, fs)
            same("loaded: as far into the segment in the file as in memory", sub(off, o), sub(addr, a))
        least("loaded: not before the segment", addr, a)
        going_on = s.open and o is O and a is add(O, scale(Q, PAGE))
        if not going_on:
            ok("segment: starts on a page", f.congruent(a, 12), a)
            least("segment: behind what is before it in memory", a, v0)
            if s.loaded:
                least("segment: behind what is before it in the file", o, f0)
        if not s.loaded:
            same("first segment: starts with the file", o, I0)
            least("first segment: the headers come before the first section", off, H)
            same("first segment: its address is where the headers are", v["start_p_vaddr"], a)
        else:
            same("further segments: the headers stay in the first", v["start_p_vaddr"], START)


def written(ctx, rep, l):
    an = l.an
    ends = [e for e in an.events if e.kind == "store" and tuple(e.d[1]) == ("eh", "e_shoff")]
    last = max(e.seq for e in l.events)
    for e in ends:
        rep.ob("the section headers come behind the sections", strip(e.d[2]).op == "ld" and
               base_of(strip(e.d[2]))[1] == ("file_offset",) and e.seq > last and not e.loops and strip(e.cond()) is I1,
               show(e.d[2])[:100], e.where())
    rep.need("offset of the section headers", ends)
    for e in an.events:
        if e.kind == "store" and tuple(e.d[1]) == ("file_offset",) and e.seq > last:
            rep.ob("the end of the sections is kept", False, show(e.d[2])[:100], e.where())
    im = Image(ctx)
    if not rep.need("what is written to the output", im.ok):
        return
    an = im.an
    rep.an(an)
    loops = {e.loops[0] for e in im.contents if e.loops}
    if not rep.need("the loop that writes contents", len(loops) == 1 and all(e.loops for e in im.contents)):
        return
    lid = next(iter(loops))
    loop = an.loops[lid]
    w = im.contents[0].where()
    dom = domain(an, lid)
    names = im.whole(lid)
    rep.ob("contents: of all sections, in order", names is not None and names[-1:] == ("sections",), str(dom.iters)[:200], w)
    ix = next((strip(i) for i, s in dom.iters), None)
    pads = [e for e in im.contents if len(e.loops) == 1]
    data = [e for e in im.contents if len(e.loops) == 2]
    rep.ob("contents: written in one place", len(data) == 1 and len(pads) == 1, "%d, %d" % (len(pads), len(data)), w)
    if len(data) != 1 or len(pads) != 1:
        return
    pad, d = pads[0], data[0]
    c0, ds = lin_parts(strip(pad.d[2]))
    mus = [t for t, n in ds if n == -1 and t.op == "mu" and t.a[0] == lid and not t.a[2]]
    offs = [t for t, n in ds if n == 1 and t.op == "ld" and path_names(t.a[1])[-1:] == ("sh_offset",)]
    if not rep.ob("contents: padded up to the offset of the section", c0 == 0 and len(ds) == 2 and len(mus) == 1 and len(offs) == 1,
                  show(strip(pad.d[2]))[:200], pad.where()):
        return
    at_, off = mus[0], offs[0]
    key = at_.a[1]
    v = strip(pad.d[4]) if len(pad.d) > 4 else BOT
    rep.ob("contents: padded with zeros", v.op == "vrep" and v.a[0] is I0 and v.a[1] is strip(pad.d[2]), show(v)[:100], pad.where())
    sec = off.a[0]

    _, ws = made.writers(ctx)
    some_ = {m.kind()[0] for k, (_, fields, _) in ws.items() for m in fields.values() if m.kind()[0]}
    plain = [None] + sorted({m.kind()[0] for k, (_, fields, _) in ws.items() for m in fields.values()
                             if m.kind()[0] and m.type is not I(NOBITS)})
    rep.ob("contents: sections that are generated", len(some_) > 5, str(some_))

    def scene(t, side, ty, kind=None):
        def f(x):
            if x.op == "more" and any(strip(g) is x for g in dom.guards):
                return I1
            if x.op == "cmp":
                y = strip(x.a[0])
                if y is sub(at_, off):
                    return I(side)
                if y is sub(off, at_):
                    return I(-side)
            if x.op == "ltc" and mentions(x, lambda z: z is at_):
                c, q = strip(x.a[0]), x.a[1]
                for y, k in ((sub(at_, off), 1), (sub(off, at_), -1)):
                    if c is y and q in (0, -1, 1):
                        return I(int((side * k) < q)) if q != 0 else I(int(side * k < 0))
            if x.op == "ld" and path_names(x.a[1])[-1:] == ("sh_type",) and x.a[0] is sec:
                return I(ty)
            if x.op == "discr" and path_names(x.a[0].a[1] if x.a[0].op == "ld" else ())[-1:] == ("synthetic",):
                return I(int(kind is not None))
            if x.op == "discr" and x.a[0].op == "ld" and "synthetic" in path_names(x.a[0].a[1])[-3:] and kind:
                ks = {n: d for d, n in VARIANTS.get(x, {}).items()}
                if kind in ks:
                    return I(ks[kind])
            return None
        return Rebuild(f)(strip(t))
    for side in (-1, 0, 1):
        c = scene(pad.cond(), side, PROGBITS)
        rep.ob("contents: padding is written if it's needed: %d" % side, c is (I1 if side < 0 else I0) or
               (side == 0 and c.op == "int"), show(c)[:200], pad.where())
        for ty, kinds in ((PROGBITS, plain), (NOBITS, [None])):
            for kind in kinds:
                got = [strip(x) for x in leaves(scene(loop.latch.env.get(key, BOT), side, ty, kind)) if x is not BOT]
                sizes = {x for g in got for x, n in lin_parts(g)[1] if x.op == "ld" and path_names(x.a[1])[-1:] == ("sh_size",)}
                if ty == NOBITS:
                    sizes = {I0}
                want = add(off if side < 0 else at_, next(iter(sizes))) if len(sizes) == 1 else BOT
                rep.ob("contents: what was written is counted: %d, type %d%s" % (side, ty, ", " + kind if kind else ""),
                       bool(got) and all(g is want for g in got) and all(x is I0 or x.a[0] is sec for x in sizes),
                       "; ".join(show(g)[:150] for g in got), pad.where())
    b = domain(an, d.loops[1])
    x = b.whole()
    rep.ob("contents: all pieces of the section, in order", bool(x) and tuple(x[2])[-3:] == ("sections", "[]", "chunks") and x[3] == 0 and
           not b.early and not b.rev, str(b.iters)[:200], d.where())
    env = {strip(k): v for k, v in list(b.guards.items()) + list(dom.guards.items())}
    c = Rebuild(lambda t: env.get(strip(t)) if t.op == "more" else None)(d.cond(within=lid))
    rep.ob("contents: every piece of every section", strip(c) is I1, show(c)[:200], d.where())
    p = strip(d.d[4])
    n = strip(d.d[2])
    rep.ob("contents: pieces are written whole", base_of(p)[1][-4:] == ("[]", "chunks", "[]", "data") and
           ix is not None and mentions(p, lambda z: z is ix) and n.op == "len" and n.a[0] is p, "%s: %s" % (show(n)[:100], show(p)[:100]), d.where())
    rep.ob("contents: padding comes before the pieces", pad.seq < d.seq, "", d.where())
    # where the contents start
    ph = an.loops[im.ph[0]]
    first = strip(loop.init.env.get(key, BOT))
    size = sum(e.d[2].a[0] for e in im.io if e.loops and e.loops[-1] == im.ph[0])
    head = sum(e.d[2].a[0] for e in im.io if not e.loops and e.seq < pad.seq and e.full() is not I0)
    okc = first.op == "mu" and first.a[0] == im.ph[0]
    nxt = strip(ph.latch.env.get(first.a[1], BOT)) if okc else BOT
    rep.ob("contents: counted on from the headers", okc and sub(nxt, first) is I(size) and strip(ph.init.env.get(first.a[1], BOT)) is I(head),
           "%s; %s" % (show(first)[:100], show(nxt)[:100]), w)
    rep.ob("contents: headers, sections, section headers", max(e.seq for e in im.io if e.loops and e.loops[-1] == im.ph[0]) < pad.seq and
           d.seq < min(e.seq for e in im.io if e.loops and e.loops[-1] == im.sh[0]), "", w)
