"""Every call of the crate that returns a Result, and every lookup in an input file that can come up empty, is taken with the
condition under which it failed; that condition has to imply, on every path from there, an error of the whole program or a
panic. The conditions are those of the interprocedural analysis, closures and inlined library code included."""
TECHNIQUE = "interprocedural dataflow over MIR: the failure condition of every fallible call implies a failing exit"
NOTE = "Failures that std or goblin hide themselves aren't seen, nor is what a destructor ignores. Panics are failures: they end with a message and a non-zero status."

from terms import *
from query import *

# not failures: the outcome of a search, or a different way to say None
ASKED = ("usize>", "std::env::VarError>", "std::path::StripPrefixError>", "std::num::TryFromIntError>, never")
PARTIAL = ("std::io::Write::write", "std::io::Read::read", "std::io::Write::write_vectored", "std::io::Read::read_vectored")
BUFFERS = ("std::io::BufWriter", "std::io::LineWriter")
HIDERS = ("std::panic::catch_unwind", "std::thread::spawn", "std::panic::set_hook", "std::panic::take_hook")
LOOKUPS = ("Strtab", "Symtab", "Archive")


def run(ctx, rep):
    rep.rule("the condition under which a call of the crate returns an error implies that the program fails")
    rep.rule("an index or an offset that an input file does not have is a failure")
    rep.rule("an input that is no object file is a failure")
    rep.rule("nothing is written or read in part, buffered without a checked flush, or caught")
    total = {}
    for what, an, least in (("the link", ctx.link(), 60), ("the command line", ctx.main(), 12)):
        if not rep.need(what, an is not None):
            return
        rep.an(an)
        n = 0
        for e in an.results:
            name, ty, v, caller = e.d
            if ty.startswith("std::result::Result<"):
                if ty.endswith(ASKED):
                    continue
                cond = failed(an, v, ty, 1)
            elif name.startswith("goblin::") and any(x in name for x in LOOKUPS):
                cond = failed(an, v, ty, 0)
            else:
                continue
            n += 1
            rep.ob("failure of %s in %s" % (name.split("<")[0].rstrip(":"), short(caller)), leads_to_failure(an, e, cond),
                   "goes on if %s" % show(cond)[:150], e.where())
        rep.need("calls of %s that can fail" % what, n >= least, str(n))
        total[what] = n
        partial(an, rep, what)
    objects(ctx.link(), rep)
    status(ctx.main(), rep)
    hidden(ctx, rep)
    rep.notes.append("fallible calls: %s" % total)


def short(caller):
    return caller.split(" as ")[0].lstrip("<") if caller.startswith("<") else caller


def failed(an, v, ty, variant):
    try:
        d = an.discr(v, ty)
    except Exception:
        return I1
    return cond_eq(d, variant)


def partial(an, rep, what):
    buffers = [e for e in an.events if e.kind in ("call", "new") and any(b in str(e.d[0]) for b in BUFFERS)]
    part = [e for e in an.results if e.d[0] in PARTIAL]
    for e in part:
        rep.ob("%s: %s" % (what, e.d[0].split("::")[-1]), False, "handles a part of the data at most, and isn't repeated", e.where())
    made = [e for e in an.results + an.events if e.kind in ("result", "call") and isinstance(e.d[0], str) and any(b in e.d[0] for b in BUFFERS)]
    if buffers or made:
        fl = [e for e in an.results if e.d[0].endswith(("Write::flush", "::into_inner"))]
        last = max([e.seq for e in an.events if e.kind == "emit"], default=0)
        rep.ob("%s: what is buffered is flushed" % what, any(e.seq > last for e in fl), "a failure while a buffer is dropped is ignored", (buffers or made)[0].where())


def objects(an, rep):
    """whatever is linked as an object file has been found to be one"""
    n = 0
    for e in an.events:
        if e.kind != "call" or not e.d[0].endswith("::parse") or "Elf" not in e.d[0]:
            continue
        if any(s[0] == "each" and s[2][-1:] == ("shared_libs",) for l in e.loops for iv, s in domain(an, l).iters):
            continue
        n += 1
        tys = set()
        for x in walk_conditions(an, e):
            for t in walk(x):
                if t.op in ("fld", "ld") and base_of(t)[1][-1:] == ("e_type",) and mentions(t, lambda y: y is e.ret):
                    tys.add(t)
                elif t.op in ("call", "callx", "p") and "is_object_file" in str(t.a[0]) and mentions(t, lambda y: y is e.ret):
                    tys.add(t)
        bad = []
        for t in tys:
            for v in ((0,) if t.op in ("call", "callx", "p") else (0, 2, 3, 4)):
                if not leads_to_failure(an, e, cond_eq(t, v)):
                    bad.append("%s is %d" % (show(t)[:80], v))
        rep.ob("an input that is no object file is a failure", bool(tys) and not bad, ("goes on if " + bad[0]) if bad else
               "the type of the file isn't looked at", e.where())
    rep.need("the inputs are parsed", n >= 2, str(n))


def walk_conditions(an, e):
    out = set()
    for l in e.loops[-1:]:
        l = an.loops[l]
        for x in l.exits:
            out |= set(subjects(x[1]))
        if l.latch is not None:
            out |= set(subjects(l.latch.pc))
    for x in an.events:
        if x.kind == "panic" and x.loops == e.loops:
            out |= set(subjects(x.cond(x.loops[-1]) if x.loops else x.full()))
    return out


def status(an, rep):
    """a failing main is a failing process"""
    ty = an.fn.locals[0]
    rep.ob("main: an error is the status of the process", ty.startswith("std::result::Result<") or
           any(e.kind == "panic" and "process::exit" in e.d[0] for e in an.events), ty, "")
    for e in an.events:
        if e.kind == "panic" and e.d[0].endswith("process::exit"):
            a = e.d[1] if len(e.d) > 1 else BOT
            zero = any(not (x.op == "int" and x.a[0] & 0xff != 0) for x in vals(a)) if isinstance(a, T) else True
            if zero:
                # only what could not fail may leave like this
                bad = [r for r in an.results if r.d[1].startswith("std::result::Result<") and r.seq <= e.seq and
                       band(band(e.full(), r.full()), failed(an, r.d[2], r.d[1], 1)) is not I0]
                rep.ob("main: exit with status zero", not bad, "after a failure of %s" % (bad[0].d[0] if bad else ""), e.where())


def hidden(ctx, rep):
    for crate in ("lib", "bin"):
        p = ctx.prog(crate)
        for h in HIDERS:
            for f, n, line in p.calls("^" + h.replace("::", "::") + "$"):
                if f.local:
                    rep.ob("%s isn't used in %s" % (h, f.name), False, "it hides failures", "%s:%s" % (f.file, line))
        rep.ob("%s: failures aren't caught" % crate, True)
