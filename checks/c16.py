"""All events of a link are ordered along its paths: what is written to the output, what may fail while writing, and
where the mode of the output is set. Every other function of the program is searched for calls that set a mode."""
TECHNIQUE = "event-order and path-condition analysis over MIR, inventory of call sites"
NOTE = "An output that exists keeps its mode while it is rewritten. What the operating system has written is not followed."

import re
from terms import *
from query import *

SETS = r"(^|::)(set_permissions|fchmod|chmod|fchmodat)$"
OTHER = r"OpenOptionsExt.*::mode$|DirBuilderExt.*::mode$|(^|::)fs::(copy|rename|hard_link)$"
MODES = r"PermissionsExt.*::(set_mode|from_mode)$"


def run(ctx, rep):
    rep.rule("the mode is set once, after everything that is written, and nothing is written after that")
    rep.rule("when anything that is written fails, the link fails before it sets the mode; when it cannot set the mode, it fails")
    rep.rule("no other function sets the mode of a file, or creates a file with one")
    an = ctx.link()
    if not rep.need("Linker::link", an):
        return
    rep.an(an)
    sets = [e for e in an.events if e.kind == "call" and re.search(SETS, e.d[0])]
    emits = [e for e in an.events if e.kind == "emit" and e.io is not None]
    if not rep.need("what is written to the output", len(emits) >= 10):
        return
    if not rep.ob("the mode is set in one place", len(sets) == 1, str([e.where() for e in sets]), "Linker::link"):
        return
    s = sets[0]
    w = s.where()
    rep.ob("the mode is set once", not s.loops, str(s.loops), w)
    late = [e for e in emits if e.seq > s.seq]
    rep.ob("nothing is written after the mode is set", not late, "", late[0].where() if late else w)
    files = set(f for e in emits for f in [base_of(mk("ptr", e.d[0], e.d[1]))[1][-1:]])
    tgt = base_of(s.d[1][0])[1][-1:]
    rep.ob("it is the output whose mode is set", len(files) == 1 and (tgt in files or tgt == ("output",)), "%s, %s" % (files, tgt), w)
    # a link that succeeds has set it
    v = apply(lambda c, r: BOT if c is I1 else r, s.full(), an.ret)
    rep.ob("a link that succeeds has set the mode", is_failure(v) or v is BOT, show(v)[:200], w)
    n = 0
    for e in emits:
        n += 1
        rep.ob("a failed write ends the link: %s" % name(e), leads_to_failure(an, e, cond_eq(e.io, 1)), show(e.io), e.where())
    for e in an.events:
        if e.kind == "shortwrite":
            rep.ob("all of it is written", False, "a write may be short", e.where())
    buffered(rep, an, s, emits)
    # the mode
    d = mk("discr", s.ret) if s.ret is not None and s.ret.op != "md" else None
    if rep.need("result of setting the mode", d is not None):
        rep.ob("the link fails when the mode cannot be set", leads_to_failure(an, s, cond_eq(d, 1)), "", w)
    modes = [e for e in an.events if e.kind == "call" and re.search(MODES, e.d[0])]
    good = [e for e in modes if e.d[1][-1].op == "int" and e.d[1][-1].a[0] & 0o111 and e.d[1][-1].a[0] & 0o500 == 0o500]
    used = [e for e in modes if any(x.op in ("havoc", "call", "callx") and x.a[0] == e.d[0] for x in walk(s.d[1][-1]))]
    rep.ob("the mode is executable", bool(used) and all(e in good for e in used) and all(e.seq < s.seq and e.full() is I1 or implies(s.full(), e.full())
           for e in used), str([show(e.d[1][-1]) for e in used]), w)
    # the rest of the program
    total = 0
    for crate in ("lib", "bin"):
        p = ctx.prog(crate)
        total += len(p.fns)
        here = [x for x in p.calls(SETS) if not std(x[0].name)]
        if crate == "lib":
            rep.ob("inventory of places that set a mode", len(here) == 1, str([(f.name, l) for f, _, l in here])[:300], w)
        else:
            rep.ob("the driver sets no mode", all(f.name.startswith("dld::") for f, _, l in here),
                   str([(f.name, l) for f, _, l in here])[:300], "src/main.rs")
        for f, n_, l in p.calls(OTHER):
            if not std(f.name):
                rep.ob("no file is made with a mode of its own", False, "%s in %s" % (n_, f.name), f.name)
    rep.need("functions of the program", total > 200)


def name(e):
    t = base_of(strip(e.d[4]))[1] if isinstance(e.d[4], T) else ()
    return "%s bytes of %s" % (show(e.d[2])[:30] if e.d[2].op == "int" else "all", ".".join(str(x) for x in t[-2:]) or "data")


def std(n):
    return re.match(r"<?&?(mut )?(std|core|alloc)::", n) is not None


def buffered(rep, an, s, emits):
    for e in an.events:
        if e.kind != "buffered":
            continue
        where = base_of(e.d[0])[1][-1:]
        mine = [x for x in emits if base_of(mk("ptr", x.d[0], x.d[1]))[1][-1:] == where and x.seq > e.seq]
        if not mine:
            continue
        last = max(x.seq for x in mine)
        fl = [f for f in an.events if f.kind == "flush" and last < f.seq < s.seq and f.loops == () and implies(s.full(), f.full())
              and leads_to_failure(an, f, cond_eq(f.io, 1))]
        rep.ob("what is buffered is flushed before the mode is set", bool(fl), "", e.where())
