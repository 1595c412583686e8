"""For every relocation type the path conditions of taking a relocation over from the input and of applying
it are specialised to the type. Taking over must happen unless the link fails; applying must write the field
or panic on every path. What a type is left without is found as a path on which neither happens."""
TECHNIQUE = "path-condition analysis over MIR: per relocation type, the disjunction of applying and failing must be all paths"
NOTE = "Covers each of the 42 types of the ABI and three unassigned numbers, for each kind of symbol."

from terms import *
from query import *
from roles import *
from relocs import *


def run(ctx, rep):
    rep.rule("a relocation of any type but NONE is taken over from the input, or the link fails")
    rep.rule("a relocation of any type but NONE is applied to the section contents, or the link fails")
    link = ctx.link()
    if not rep.need("Linker::link", link):
        return
    rep.an(link)
    ss = sources(link)
    if not rep.need("relocations handed on to the writer", ss):
        return
    types = list(range(1, 43)) + [43, 255, 0x10000]
    taken = set()
    for n, s in enumerate(ss):
        w = s.e.where()
        if not rep.ob("source %d: recognised" % n, s.x is not None, "", w):
            continue
        lid = s.e.loops[-1]
        latch = link.loops[lid].latch
        for t in types:
            u = known(s.under(t))
            c = u(role(s.e.cond()))
            if c is not I0:
                taken.add(t)
            fine = c
            for k, x in enumerate(link.loops[lid].exits):
                p = u(role(x[1]))
                if p is not I0 and exit_k_fails(link, lid, k):
                    fine = bor(fine, p)
            for e in link.events:
                if e.kind == "panic" and e.loops == s.e.loops:
                    fine = bor(fine, u(role(e.cond())))
            left = bnot(fine)
            ok = left is I0
            rep.ob("source %d: type %d is taken over or refused" % (n, t), ok,
                   "the link goes on without it when %s" % show(left), w)
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    name = Relocs()
    writes, panics, loops = application(an, name)
    if not rep.need("writes to relocated fields", writes):
        return
    for t in types:
        if t not in taken:
            continue
        for kind, (k, s) in KINDS.items():
            sc = scenario(name, t, **k)
            c = I0
            for x in writes:
                c = bor(c, sc(x[5]))
            for x in panics:
                c = bor(c, sc(x[1]))
            c = split_sections(c)
            rep.ob("type %d, %s: applied or refused" % (t, kind), c is I1,
                   "neither when %s" % show(bnot(c)), writes[0][0].where())


def known(u):
    """as u, for a symbol and a section the object has"""
    def rep(t):
        if t.op == "has" and base_of(t.a[0])[1][-1:] in (("section_relocations",), ("symbols",)):
            return I1
        return None
    r = Rebuild(rep)
    return lambda t: r(u(t))
