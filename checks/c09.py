"""The loop that lays out the sections and the one that counts the program headers beforehand are followed together, round by
round, through every state and kind of section (see C10): which headers a round adds to the list, with which fields, and that both
loops agree on how many there are. What is put around the list afterwards, and what the file header says about it, is compared
with its final state."""
TECHNIQUE = "abstract interpretation of one round of two loops side by side, extracted from MIR: headers added, their fields and their number, by state and kind of section"
NOTE = "Numbers in the headers of segments: C10. Encoding: C01. Assumes that no input has a section of type DYNAMIC. There is no PT_TLS, PT_NOTE or PT_GNU_STACK (C32)."

from terms import *
from query import *
from layout import *
from image import Image, list_changes
import c10
import made

PT_LOAD, PT_DYNAMIC, PT_INTERP, PT_PHDR = 1, 2, 3, 6
DYNAMIC = 6


def run(ctx, rep):
    rep.rule("every loaded section is in a LOAD segment with exactly the permissions of its flags; each segment is in the list once, in order")
    rep.rule("INTERP and DYNAMIC are where .interp and .dynamic are; PHDR is first and where the headers are")
    rep.rule("as many headers are made as room was left for; the file header has their number, size and place")
    l = Layout(ctx)
    rep.an(l.an)
    if not rep.need("the loop that lays out the sections: %s" % l.why, l.ok):
        return
    c = Count(l)
    if not rep.need("the count of headers: %s" % c.why, c.ok):
        return
    init = c10.initial(ctx, rep, l)
    if init is None:
        return
    c10.ordered(rep, l)
    w = l.domain.whole()
    cw = c.domain.whole()
    for n, d, x in (("layout", l.domain, w), ("count", c.domain, cw)):
        rep.ob("%s: of all sections, in order" % n, bool(x) and x[2] == ("sections",) and x[3] == 1 and not d.early and not d.rev,
               str(d.iters)[:200], l.where())
    counting = [e.seq for e in l.an.events if c.loop.id in e.loops]
    if rep.need("what the counting loop does", counting):
        for e in list_changes(l.an, "sections"):
            rep.ob("count: of the sections that are laid out", e.seq < min(counting), e.kind, e.where())
    r = Headers(rep, l)
    n, why = explore(l, init, r.visit, types=(PROGBITS, NOBITS, DYNAMIC), headers=True, along=c)
    rep.ob("all states of the layout are covered", why is None and n > 100, "%d rounds: %s" % (n, why), l.where())
    r.report()
    ending(ctx, rep, l, c)


class Headers(c10.Rules):
    def visit(self, s, p, ways, more):
        fl, ty, al = p
        l = self.l
        k0 = next((k for k in l.mods if s.open and s.st[k].op == "agg" and s.st[k].a[1] == "Some" and s.st[k].a[3][0].op == "agg"), None)
        for f, why, v in ways:
            def ok(what, c, *ts):
                self.check(what, c, s, p, "; ".join(show(t)[:150] if isinstance(t, T) else str(t) for t in ts))
            k = l.segment(v)
            h = fields(v[k].a[3][0]) if k is not None else None
            old = fields(s.st[k0].a[3][0]) if k0 is not None else None
            goes_on = h is not None and old is not None and h["p_offset"] is old["p_offset"] and h["p_vaddr"] is old["p_vaddr"]
            opened = h is not None and not goes_on
            closed = old is not None and not goes_on
            ok("count: one for each segment", more == int(opened), "%d counted, %d made" % (more, int(opened)))
            if fl & ALLOC:
                ok("segment: a loaded section is in one", h is not None)
            else:
                ok("segment: a section that isn't loaded is in none", h is None)
            if h is not None:
                ok("segment: PT_LOAD", h["p_type"] is I(PT_LOAD), h["p_type"])
                ok("segment: permissions", h["p_flags"] is I(4 | (2 if fl & WRITE else 0) | (1 if fl & EXEC else 0)), h["p_flags"])
                ok("segment: aligned to pages", h["p_align"] is I(PAGE), h["p_align"])
            loads, others = [], []
            for e in l.pushes:
                c = v[("when", e.seq)]
                if c is I0:
                    continue
                x = v[("what", e.seq)]
                x = fields(x) if x.op == "agg" else None
                ok("headers: what is added is a header", c is I1 and x is not None, c)
                if x is None:
                    continue
                if x["p_type"] is I(PT_LOAD):
                    loads.append(x)
                    ok("headers: segments are appended", e.kind == "push", e.kind)
                else:
                    others.append(x)
                    ok("headers: INTERP and DYNAMIC come before the segments", e.kind == "insert" and e.d[3] is I0, e.kind)
            ok("headers: a segment is added when it ends, once", len(loads) == int(closed), "%d added" % len(loads))
            if closed and len(loads) == 1:
                for n in PH_FIELDS:
                    ok("headers: a segment is added as it is: %s" % n, loads[0][n] is old[n], loads[0][n], old[n])
            name = any(c == ".interp" for t, c in why)
            want = PT_DYNAMIC if ty == DYNAMIC else PT_INTERP if name else None
            ok("headers: INTERP for .interp, DYNAMIC for .dynamic", [x["p_type"] for x in others] == ([] if want is None else [I(want)]),
               str([x["p_type"] for x in others]))
            for x in others if ty != NOBITS else ():
                n = {PT_DYNAMIC: "DYNAMIC", PT_INTERP: "INTERP"}.get(x["p_type"].a[0] if x["p_type"].op == "int" else 0, "other")
                disk = I0 if ty == NOBITS else SIZE
                for fld, t in (("p_offset", v["sh_offset"]), ("p_vaddr", v["sh_addr"]), ("p_paddr", v["sh_addr"]),
                               ("p_filesz", disk), ("p_memsz", SIZE), ("p_align", I(al))):
                    ok("%s: %s" % (n, fld), floor(x[fld]) is floor(t), x[fld], t)
                pf = x["p_flags"]
                ok("%s: permissions" % n, pf is I(4 | (2 if fl & WRITE else 0)) or pf is I(4 | (2 if fl & WRITE else 0) | (1 if fl & EXEC else 0)), pf)


def fields(h):
    return dict(zip(h.a[2], h.a[3]))


def ending(ctx, rep, l, c):
    an = l.an
    last = max(e.seq for e in l.events)
    _, ws = made.writers(ctx)
    special = set()
    for k, (w, fs, order) in ws.items():
        dyn = [m for m in order if m.type is not None and m.type is I(DYNAMIC)]
        interp = [m for m in order if m.name == ".interp"]
        special.add(len(dyn) + len(interp))
        rep.ob("style %d: one .dynamic and one .interp" % k, len(dyn) == 1 and len(interp) == 1, "%s %s" % (dyn, interp), l.where())
        rep.ob("style %d: both are loaded" % k, all(m.flags is not None and m.flags.op == "int" and m.flags.a[0] & ALLOC for m in dyn + interp),
               "", l.where())
        rep.ob("style %d: some section isn't loaded, which ends the last segment" % k, any(
            m.flags is not None and m.flags.op == "int" and not m.flags.a[0] & ALLOC for m in order), "", l.where())
        eh = w.get("eh")
        eh = fields(eh) if eh is not None and eh.op == "agg" else {}
        for n, x in (("e_phoff", 64), ("e_phentsize", 56), ("e_ehsize", 64)):
            rep.ob("style %d: file header: %s" % (k, n), eh.get(n) is I(x), str(eh.get(n)), l.where())
    for e in an.events:
        if e.kind == "store" and tuple(e.d[1]) in (("eh", "e_phoff"), ("eh", "e_phentsize")):
            rep.ob("file header: %s is kept" % e.d[1][1], False, show(e.d[2])[:80], e.where())
    rest = [e for e in list_changes(an, "program_headers") if l.lid not in e.loops]
    ph = [e for e in rest if e.kind == "insert" and e.d[3] is I0 and e.seq > last and not e.loops and strip(e.cond()) is I1 and
          e.d[4].op == "agg" and fields(e.d[4]).get("p_type") is I(PT_PHDR)]
    for e in rest:
        rep.ob("headers: PHDR is put in front, and nothing else changes the list", e in ph, "%s at %s" % (e.kind, e.where()), e.where())
    if not rep.need("PHDR", len(ph) == 1):
        return
    rep.ob("count: room for as many headers as there are", special == {c.more - 1}, "%s and PHDR, room for %d more" % (special, c.more), ph[0].where())
    h = fields(ph[0].d[4])
    n, size = sym("count"), sym("e_phentsize")

    def plain(t):
        def f(x):
            x = strip(x)
            if x.op == "trunc" and x.a[2].op == "len" and base_of(x.a[2].a[0])[1] == ("program_headers",):
                return n
            if x.op == "len" and base_of(x.a[0])[1] == ("program_headers",):
                return n
            if x.op == "ld" and base_of(x)[1] == ("eh", "e_phnum"):
                return n
            if x.op == "ld" and base_of(x)[1][-1:] in (("e_phentsize",), ("e_phoff",), ("start_p_vaddr",)):
                return sym(base_of(x)[1][-1])
            return None
        return Rebuild(f)(t)
    def always(c):
        # however many there are, as one was added before
        def has(n):
            return Rebuild(lambda x: I(n) if x.op == "len" and base_of(x.a[0])[1] == ("program_headers",) else None)
        return c is I1 or all(has(n)(c) is I1 for n in list(range(1, 20)) + [1000])
    h = {k: plain(v) for k, v in h.items()}
    for e in an.events:
        if e.kind == "store" and e.seq > ph[0].seq and path_names(e.d[1])[-1:] and path_names(e.d[1])[-1] in PH_FIELDS and \
                base_of(mk("ptr", e.d[0], tuple(e.d[1])))[1][:1] == ("program_headers",):
            i = e.d[0].a[1][-1] if e.d[0].op in ("elem", "ptr") and isinstance(e.d[0].a[1], tuple) else None
            first = e.d[0].op == "elem" and mentions(e.d[0], lambda x: x is I0)
            if rep.ob("PHDR: only it is completed", first and not e.loops and always(strip(e.cond())), show(e.d[0])[:100], e.where()):
                h[e.d[1][-1]] = plain(e.d[2])
    bytes_ = mul(n, size)
    base = add(sym("e_phoff"), sym("start_p_vaddr"))
    for k, t in (("p_type", I(PT_PHDR)), ("p_flags", I(4)), ("p_offset", sym("e_phoff")), ("p_vaddr", base), ("p_paddr", base),
                 ("p_filesz", bytes_), ("p_memsz", bytes_), ("p_align", I(8))):
        rep.ob("PHDR: %s" % k, strip(h[k]) is t, "%s, not %s" % (show(h[k])[:100], show(t)), ph[0].where())
    im = Image(ctx)
    if rep.need("what is written to the output", im.ok):
        rep.an(im.an)
        names = im.whole(im.ph[0])
        rep.ob("written: all headers, in order", names is not None and names[-1:] == ("program_headers",), str(names), im.ph[1]["p_type"][1].where())
        x = im.header["e_phnum"][0]
        if x.op == "trunc" and x.a[0] == 16:
            x = x.a[2]
        rep.ob("written: the number of headers", x.op == "len" and base_of(x.a[0])[1][-1:] == ("program_headers",), show(x)[:100],
               im.header["e_phnum"][1].where())
