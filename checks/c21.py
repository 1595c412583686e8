"""Each documented option is put, as a text, into the diagrams of one iteration of the parsing loops: how many operands it
takes, which settings change and to what, which inputs are added, and how it ends; the settings are followed to the link."""
TECHNIQUE = "dataflow over MIR: partial evaluation of one iteration of each argument loop for each option text, with and without an operand; definite-assignment and def-use of settings up to the link"
NOTE = "Texts of options are those of the usage text (its meanings are tabulated here), and some that compilers pass. How a library is searched for is C22, what the styles mean C23. build-id and eh-frame-hdr are accepted but never used by the link: known findings."

import re
from terms import *
from query import *
import cli
import frame
import made

# what the options of the usage text mean: (spelling, has operand, what it sets, to what)
MEANINGS = {
    "-h": ("flag", "help", 1), "--help": ("flag", "help", 1),
    "-o": ("operand", "output"), "-L": ("operand", "directory"), "-l": ("operand", "input"),
    "--build-id": ("optional", "build_id"), "-m": ("operand", "emulation"),
    "--eh-frame-hdr": ("flag", "eh_frame_hdr", 1), "-dynamic-linker": ("operand", "interpreter"),
    "--as-needed": ("flag", "as needed", 1), "--no-as-needed": ("flag", "as needed", 0),
    "--hash-style": ("operand", "style"),
}
# not documented, but passed by compilers, and what other linkers ignore
IGNORED = {"-z": 1, "--start-group": 0, "--end-group": 0}


def usage():
    """{option: has an operand} of the usage text, from the string constants of the program"""
    out = {}
    for p in frame.sources():
        if not p.endswith(".rs"):
            continue
        for m in re.finditer(r'"([^"]*USAGE[^"]*)"', open(p).read()):
            for line in m.group(1).split("\n"):
                w = line.strip()
                if not w.startswith("-") or not line.startswith(" "):
                    continue
                head = re.split(r"\s{2,}", w)[0]
                operand = 0
                for x in head.replace(",", " ").split():
                    if x.startswith("-"):
                        out[x.split("=")[0]] = 0
                    else:
                        operand = 2 if x.startswith("[") else 1
                for x in head.replace(",", " ").split():
                    if x.startswith("-"):
                        out[x.split("=")[0]] = operand
    return out


def run(ctx, rep):
    rep.rule("each option of the usage text is recognised, wherever it stands: it isn't taken for an input, and changes what it documents, and nothing else")
    rep.rule("an operand is taken exactly if one is documented, and its absence fails the link")
    rep.rule("what an option sets is what the link reads, unchanged by anything in between; help ends without a link")
    an = ctx.main()
    rep.an(an)
    documented = usage()
    if not rep.need("options of the usage text", len(documented) >= 12):
        return
    ps = cli.loops(an)
    if not rep.need("the loop that handles arguments", bool(ps)):
        return
    st = cli.Settings(an, ps)
    links = [e for e in an.events if e.kind == "call" and e.d[0].endswith("::link") and "Linker" in e.d[0]]
    if not rep.need("the link", len(links) == 1):
        return
    link = links[0]
    start = link.d[1][0]
    roles = read_by_link(ctx, rep)
    if roles is None:
        return
    defaults = initial(ctx)
    if not rep.need("the initial settings", defaults is not None):
        return
    roles["lists"] = {n for n, v in defaults.items() if v.op == "arr"}
    fields = {}
    for n in defaults:
        v, other = st.back(proj(start, ("options", n)))
        fields[n] = v
        missing = [p.lid for p in ps if not any(x.a[0] == p.lid for x in v)]
        if n in roles["lists"]:
            continue
        rep.ob("%s: as the arguments left it" % n, not missing and len(other) == 1, "; ".join(show(x)[:100] for x in other) or "not from the arguments", link.where())
    helps = set()
    for p in ps:
        one(an, rep, p, st, fields, roles, documented, defaults, helps, ctx)
    for n, k in sorted(documented.items()):
        rep.ob("%s: its meaning is known" % n, n in MEANINGS, "not tabulated", "usage text")
    started = link.full()
    hs = [s for s in walk(started) if s.op == "mu" and st.back(s)[0] & helps]
    on, off = (under({s: x for s in hs}) for x in (I1, I0))
    rep.ob("help: no link", bool(hs) and on(started) is I0, show(started)[:200], link.where())
    rep.ob("without it: a link", off(started) is not I0, show(started)[:200], link.where())
    rep.ob("help: no error", ends_well(an, on), "", link.where())
    first(an, rep, ps)


def ends_well(an, u):
    r = u(an.ret)
    return any(x is not BOT and not is_failure(x) for x in leaves(r))


def first(an, rep, ps):
    """the name of the program isn't an argument"""
    p = ps[0]
    it = [(s, t) for s, t in p.l.iters if s == p.first]
    given = [a for a in p.args if any("env" in show(x) for x in [a.a[0]])]
    ok = False
    for a in given:
        c, ds = lin_parts(a.a[1])
        if c >= 1:
            ok = True
    rep.ob("the program's own name isn't an argument", ok or not given, ", ".join(show(a) for a in given), "main")


def initial(ctx):
    """{setting: its value at the start}"""
    for f in ctx.find("lib", r"^<dld::.*Options as .*Default>::default$"):
        v = ctx.run("lib", f).ret
        if v is not None and v.op == "agg":
            return dict(zip(v.a[2], v.a[3]))
    return None


def read_by_link(ctx, rep):
    """which setting the link uses for what"""
    an = ctx.link()
    rep.an(an)
    read, seen = set(), set()

    def note(t):
        for x in walk(t, seen):
            if x.op == "ld":
                b, p = base_of(x)
                n = [q for q in p if isinstance(q, str)]
                if b.op == "sym" and "options" in n and n.index("options") + 1 < len(n):
                    read.add(n[n.index("options") + 1])
    for e in an.events:
        note(e.pc)
        for x in e.d:
            for y in (x if isinstance(x, (tuple, list)) else (x,)):
                if isinstance(y, T):
                    note(y)
    out = {"read": read, "lists": set()}
    opens = [e for e in an.events if e.kind == "call" and re.search(r"File::create|OpenOptions::open|fs::write", e.d[0])]
    for e in opens:
        n = {base_of(x)[1][-1] for x in e.d[1] if isinstance(x, T) and x.op == "ld" and "options" in base_of(x)[1]}
        if len(n) == 1:
            out["output"] = n.pop()
    wan, ws = made.writers(ctx)
    if ws:
        for w in ws.values():
            for m in w[2]:
                if m.name == ".interp" and m.chunks:
                    l = set()
                    for t in walk(m.chunks[0].d[2]):
                        if t.op == "mu":
                            for s, x in wan.loops[t.a[0]].iters:
                                l |= {base_of(y)[1][-1] for y in walk(x) if y.op == "ld" and base_of(y)[1]}
                        if t.op == "ld" and base_of(t)[1]:
                            l.add(base_of(t)[1][-1])
                    if len(l) == 1:
                        out["interpreter"] = l.pop()
        out["style"] = next((base_of(t.a[0])[1][-1] for t in walk(wan.ret) if t.op == "discr" and t.a[0].op == "ld" and
                             base_of(t.a[0])[1][-1:] and "style" in str(base_of(t.a[0])[1][-1])), None)
    for k in ("output", "interpreter", "style"):
        if not rep.need("the setting the link uses as " + k, out.get(k) is not None):
            return None
    return out


def one(an, rep, p, st, fields, roles, documented, defaults, helps, ctx):
    where = p.head[0].where()
    tag = "" if p.l.frames and any("env" in show(a) for a in p.args) else " (script)"
    # what is no option is an input
    u = p.given("some.o")
    ins = p.pushed(u)
    ok = len(ins) == 1 and one_of(ins[0][2], S("some.o")) and implies(p.going(u), ins[0][3])
    rep.ob("what is no option: an input" + tag, ok, "; ".join(show(x[2])[:80] for x in ins), where)
    if not ok:
        return
    inputs = ins[0][1]
    marks = {x for x in walk(ins[0][2]) if x.op == "mu"}
    if not rep.need("the mark of inputs linked as needed", len(marks) == 1):
        return
    mark = marks.pop()
    dirs = None
    hvar = None
    state = {n: [x for x in v if x.a[0] == p.lid] for n, v in fields.items()}
    state = {n: v[0] for n, v in state.items() if len(v) == 1 and n not in roles["lists"]}
    names = {"output": roles["output"], "interpreter": roles["interpreter"], "style": roles["style"],
             "emulation": "emulation", "build_id": "build_id", "eh_frame_hdr": "eh_frame_hdr"}
    spell = []
    for n in sorted(documented):
        if n in MEANINGS:
            m = MEANINGS[n]
            spell.append((n, n, m, None))
            if n in ("-L", "-l"):
                spell.append((n + "X", n + "some", ("joined",) + m[1:], S("some")))
            if n == "--hash-style":
                spell.append((n + "=X", n + "=some", ("joined",) + m[1:], S("some")))
        else:
            spell.append((n, n, ("operand" if documented[n] == 1 else "flag" if not documented[n] else "optional", None), None))
    for n in sorted(IGNORED):
        spell.append((n, n, ("operand" if IGNORED[n] else "flag", "nothing"), None))
    for title, text, m, operand in spell:
        title += tag
        u = p.given(text)
        going = p.going(u)
        low, high, by = p.consumed(u)
        kind = m[0]
        operand = operand or cli.OPERAND
        if text in documented:
            rep.ob("%s: documented so" % title, documented[text] == {"operand": 1, "flag": 0, "optional": 2}.get(kind),
                   str(documented[text]), "usage text")
        want = {"operand": (1, 1), "flag": (0, 0), "joined": (0, 0), "optional": (0, 1)}[kind]
        rep.ob("%s: takes %s" % (title, {"operand": "one operand", "optional": "an operand, if there is one"}.get(kind, "no operand")),
               (low, high) == want, "between %d and %d" % (low, high), where)
        if kind == "operand":
            rep.ob("%s: its absence is an error" % title, p.fails(p.given(text, operand=False)), "", where)
        if kind == "optional":
            optional(rep, p, title, text, by, where)
        # the iteration goes on, unless its operand is refused
        bad = p.leaves_ok(u)
        rep.ob("%s: later arguments are handled" % title, not bad, "leaves the loop", where)
        refuse = bnot(p.goes_on(u))
        if kind != "optional":
            other = [s for s in walk(refuse) if s.op not in ("md", "int") and s in all_subjects(refuse) and not about(s, operand)]
            rep.ob("%s: refused only for its operand" % title, refuse is not I1 and not other, show(refuse)[:200], where)
        # what it adds
        added = p.pushed(u)
        ins = [x for x in added if x[1] == inputs]
        if m[1] == "input":
            rep.ob("%s: an input" % title, len(added) == 1 and len(ins) == 1 and one_of(ins[0][2], operand) and
                   implies(going, ins[0][3]) and mark in set(walk(ins[0][2])), "; ".join(show(x[2])[:80] for x in added), where)
        else:
            rep.ob("%s: no input" % title, not ins, "; ".join(show(x[2])[:80] for x in ins), where)
        if m[1] == "directory":
            ok = len(added) == 1 and added[0][2] is operand and implies(going, added[0][3]) and added[0][0].kind == "push"
            rep.ob("%s: a directory" % title, ok, "; ".join(show(x[2])[:80] for x in added), where)
            if ok:
                if dirs is None:
                    dirs = added[0][1]
                rep.ob("%s: in the one list of directories" % title, dirs == added[0][1], str(added[0][1]), where)
        elif m[1] not in ("input", None):
            rep.ob("%s: adds nothing" % title, not added, "; ".join(show(x[2])[:80] for x in added), where)
        # what it sets
        changed = {f: p.after(u, v) for f, v in state.items()}
        changed = {f: x for f, x in changed.items() if x is not state[f]}
        field = names.get(m[1])
        for f, x in sorted(changed.items()):
            if f != field and m[1] is not None:
                rep.ob("%s: %s stays as it is" % (title, f), False, show(x)[:150], where)
        if field is not None:
            x = changed.get(field, state.get(field))
            v = [y for y in vals(x)] if x is not None else []
            if kind == "flag":
                ok = v == [I(m[2])]
            elif m[1] in ("style", "emulation"):
                ok = v == [parsed(x, operand)]
            elif m[1] == "build_id":
                ok = bool(v) and all(y.op == "agg" and y.a[1] == "Some" for y in v) and any(about(y, operand) for y in v) and \
                    all(about(y, operand) or not any(z is operand for z in walk(y)) for y in v)
            else:
                ok = v == [operand]
            rep.ob("%s: sets %s" % (title, m[1]), ok, show(x)[:200] if x is not None else "no such setting", where)
            one_value = single(ctx, defaults.get(field))
            if not tag:
                rep.ob("%s: used by the link" % m[1], field in roles["read"] or one_value, "nothing in the link reads it", where)
        after = p.after(u, mark)
        if m[1] == "as needed":
            rep.ob("%s: marks what follows" % title, after is I(m[2]), show(after)[:100], where)
        else:
            rep.ob("%s: as-needed stays as it is" % title, after is mark, show(after)[:100], where)
        if m[1] == "help":
            for k, v in p.l.head.env.items():
                if isinstance(v, T) and v.op == "mu":
                    for w in cand(p, k):
                        if p.after(u, w) is I1 and p.after(p.given("some.o"), w) is w and w is not mark:
                            helps.add(w)
                            hvar = w
            rep.ob("%s: noted" % title, hvar is not None, "", where)
    if hvar is not None:
        for title, text, m, operand in spell:
            if m[1] not in ("help", None):
                x = p.after(p.given(text), hvar)
                rep.ob("%s: no help" % (title + tag), x is hvar, show(x)[:80], where)


def cand(p, key):
    """the fields of a variable of the loop that an iteration may set"""
    out = set()
    for x in walk(p.l.latch.env[key]):
        if x.op == "upd" and x.a[0].op in ("mu", "upd"):
            b = x.a[0]
            while b.op == "upd":
                b = b.a[0]
            if b.op == "mu" and b.a[:2] == (p.lid, key):
                out.add(mk("mu", p.lid, key, tuple(b.a[2]) + tuple(x.a[1])))
        if x.op == "mu" and x.a[:2] == (p.lid, key):
            out.add(x)
    return out


def all_subjects(m):
    return set(x.a[0] for x in walk(m) if x.op == "md")


def about(t, operand):
    return any(x is operand for x in walk(t))


def one_of(v, x):
    """x is one of the parts of the value"""
    if v is x:
        return True
    return v.op == "agg" and sum(1 for y in v.a[3] if y is x) == 1


def parsed(x, operand):
    """the value parsed from the operand, as it appears in x"""
    for y in walk(x):
        if y.op == "fld" and y.a[1] == "0" and y.a[0].op == "fld" and y.a[0].a[1] == ("v", "Ok"):
            c = y.a[0].a[0]
            if "from_str" in show(c) and any(z is operand for z in c.a):
                return y
    return None


def single(ctx, v):
    """the setting's type has a single value"""
    if v is None or v.op != "agg":
        return False
    names = ctx.prog("lib").variants(v.a[0])
    if not names or len(names) != 1:
        return False
    for f in ctx.find("lib", r"^<%s as .*FromStr>::from_str$" % re.escape(v.a[0])):
        r = ctx.run("lib", f).ret
        return r.op == "md" and is_failure(r.a[2])
    return False


def optional(rep, p, title, text, by, where):
    """it takes what follows exactly if that is there and is no option"""
    u = p.given(text, operand=False)
    rep.ob("%s: may be last" % title, not p.fails(u) and p.consumed(u)[1] == 0, "", where)
    u = p.given(text, value=S("-x"))
    rep.ob("%s: does not take an option" % title, p.consumed(u)[1] == 0, "", where)
    u = p.given(text, value=S("--xx"))
    rep.ob("%s: does not take a long option" % title, p.consumed(u)[1] == 0, "", where)
    u = p.given(text, value=S("sha1"))
    rep.ob("%s: takes a style" % title, p.consumed(u)[:2] == (1, 1), "", where)
