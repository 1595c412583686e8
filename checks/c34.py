"""The parser of linker scripts is read off the program: the terms the analysis has for combine's parsers become a transducer,
what their functions make of what was read is evaluated, and the loop around them is followed. This transducer and that of
the scripts' grammar are walked through side by side, for every text: they have to accept the same and give the same names,
in the same order. The bounds are those of the alphabet: ASCII, and two other characters for all the rest."""
TECHNIQUE = "abstract interpretation of the parser's construction over MIR into a transducer; equivalence with a reference transducer by exploring all pairs of states"
NOTE = "combine's parsers are taken to do what their documentation says. Characters that can be part of file names and that dld doesn't read, and what follows AS_NEEDED without a parenthesis, may be read in any way."

from terms import *
from query import *
import grammar
from grammar import chars, lit, seq, alt, many, out, ALL, WS, LETTERS, DIGITS

OK = {"v": "Ok"}


def run(ctx, rep):
    rep.rule("what is accepted, and what names are given, is what the grammar says, for every text")
    rep.rule("a rest is parsed until nothing is left; nothing that isn't understood is passed over")
    rep.rule("every name that was read is an argument, in order")
    fs = ctx.find("bin", r"linker_script::parse$")
    if not rep.need("the parser of scripts", fs):
        return
    an = ctx.run("bin", fs[0])
    rep.an(an)
    ts = {strip(e.d[2]) for e in an.results if e.d[2].op == "p:parse"}
    if not rep.need("one parser that is applied to the text", len(ts) == 1, str(len(ts))):
        return
    t = ts.pop()
    name = fs[0].name
    r = the_loop(rep, an, t, name)
    if r is None:
        return
    path = r
    try:
        line = grammar.build(strip(t.a[0]), {(strip(a), strip(b)): v for (a, b), v in an.rules.items()})
        owner = grammar.at_path(line, path)
        mine = grammar.Machine(grammar.pin(line, None, {owner.n}, [], []))
        ref = grammar.Machine(script())
        w, a, b, n = grammar.compare(mine, ref)
    except grammar.Unknown as e:
        rep.ob("the grammar is known", False, str(e), name)
        return
    rep.ob("scripts are read as the grammar says", w is None, "%r: %s instead of %s" % (w, said(a), said(b)), name)
    rep.need("states of the two machines", n >= 40, str(n))
    rep.notes.append("pairs of states: %d" % n)
    # what it is for
    for text, want in (("GROUP ( libgcc_s.so.1 -lgcc )", ["libgcc_s.so.1", "-lgcc"]), ("OUTPUT_FORMAT(elf64-x86-64)", []), ("", []),
                       ("/* a * b */\nGROUP(AS_NEEDED(x) Abc /lib/y.a)\n", ["--as-needed", "x", "Abc", "/lib/y.a"]),
                       ("GROUP ( a", None), ("INPUT ( a )", None), ("/* a", None)):
        for what, m in (("the parser", mine), ("the grammar", ref)):
            got = reads(m, text)
            rep.ob("%s reads %r" % (what, text), got == want, "as %s" % said(got), name)


def said(x):
    return "refused" if x is None else str(x)


def reads(m, text):
    s, o = m.start(), ""
    for c in text:
        s, x = m.step(s, c)
        o += x
    s, x = m.step(s, None)
    return (o + x).split("\0")[:-1] if s == grammar.ACCEPT else None


# ---------------------------------------------------------------- the grammar
def script():
    ws = many(chars(WS))
    arg = LETTERS | DIGITS | set("-._/")
    free = set("+=~@:%$!#^&\\|<>[]{}`?\"';") | grammar.OTHER
    anything = grammar.Node("dc", set=frozenset(free), ty="unit")

    def word(kept):
        c = chars(arg)
        w = many(c, 1, "str")
        c.keep = w.keep = kept
        return seq(w, *(([out("\0")] if kept else []) + [grammar.Node("opt", [anything], ty="opt")]))

    def items(*more):
        return seq(chars("("), many(alt(chars(WS), anything, *more)), chars(")"))
    needed = seq(grammar.Node("att", [lit("AS_NEEDED")]), ws, alt(seq(grammar.Node("look", [chars("(")]), out("--as-needed\0"), items(word(True))),
                                                              grammar.Node("dc", set=frozenset(ALL - {"("}), ty="unit")))
    group = seq(lit("GROUP"), ws, items(needed, word(True)))
    comma = grammar.Node("dc", set=frozenset(","), ty="unit")
    form = seq(lit("OUTPUT_FORMAT"), ws, chars("("), ws, alt(word(False), anything), ws, alt(comma, chars(")")))
    comment = seq(lit("/*"), grammar.Node("until", [grammar.Node("att", [lit("*/")])], ty="unit"), lit("*/"))
    return grammar.Node("opt", [alt(chars(WS), comment, group, form)], ty="opt")


# ---------------------------------------------------------------- the loop
def below(x, t):
    """the path from t to x"""
    path = []
    while x is not t:
        if x.op != "fld":
            return None
        path.append(x.a[1])
        x = x.a[0]
    return path[::-1]


def the_loop(rep, an, t, w):
    """the path of what is kept within what the parser gives, if the text is parsed to its end"""
    mu = t.a[1]
    if not rep.ob("the text is parsed in a loop", mu.op == "mu" and mu.a[0] in an.loops, show(mu)[:100], w):
        return None
    l = an.loops[mu.a[0]]
    key = mu.a[1]
    start = l.init.env.get(key)
    rep.ob("starts with the whole text", parent(l) is None and start is not None and start.op == "ptr" and start.a[0] is an.args[0].a[0] and not start.a[1]
           or start is not None and strip(start) is strip(an.args[0]), show(start)[:100] if start is not None else "", w)
    ok = proj1(proj1(t, ("v", "Ok")), "0")
    rest = proj1(ok, "1")
    got = {strip(x) for x in vals(apply(lambda c, v: v if c is I1 else BOT, strip(l.latch.pc), strip(l.latch.env.get(key, BOT))))}
    rep.ob("goes on with the rest", got == {rest}, str([show(x)[:60] for x in got]), w)

    def state(fails, before, after):
        env = {}
        same = before == after
        for g in subjects_of(an, l):
            s = strip(g)
            if s.op == "discr" and s.a[0] is t:
                env[s] = I(int(fails))
            elif s.op == "eq" and set(s.a[:2]) == {rest, mu}:
                env[s] = I(int(same))

        def rep_(y):
            if y in env:
                return env[y]
            if y.op == "len" and y.a[0] is rest:
                return I(after)
            if y.op == "len" and y.a[0] is mu:
                return I(before)
        return lambda x: Rebuild(rep_)(strip(x))

    def outcome(s):
        """what can become of a round: goes on, ends well, fails"""
        r = set()
        if s(l.latch.pc) is not I0:
            r.add("goes on")
        for n, x in enumerate(l.exits):
            if s(x[1]) is not I0:
                r.add("fails" if exit_k_fails(an, l.id, n) else "ends")
        return r
    for what, st, want in (("a text that can't be parsed is refused", state(True, 5, 0), [{"fails"}]),
                           ("an empty text is the end", state(False, 0, 0), [{"ends"}]),
                           ("the end is reached", state(False, 5, 0), [{"ends"}, {"goes on"}]),
                           ("a text of which nothing is understood is refused", state(False, 5, 5), [{"fails"}]),
                           ("the rest is parsed", state(False, 5, 3), [{"goes on"}])):
        r = outcome(st)
        rep.ob(what, r in want, str(sorted(r)), w)
    # what is kept
    push = [e for e in an.events if e.kind in ("push", "insert", "minsert", "store", "resize") and e.loops]
    if not rep.ob("what was read is added in one place", len(push) == 1 and push[0].kind == "push" and len(push[0].loops) == 2 and push[0].loops[0] == l.id,
                  str([(e.kind, e.where()) for e in push]), w):
        return None
    e = push[0]
    inner = an.loops[e.loops[1]]
    dom = domain(an, inner.id)
    v = strip(e.d[2])
    path = None
    if v.op == "at" and not dom.rev and len(inner.iters) == 1:
        path = below(v.a[0], t)
        sh = dom.iters[0][1] if len(dom.iters) == 1 else ("", "")
        site, it = inner.iters[0]
        if not (sh[0] == "each" and sh[3] == 0 and strip(v.a[1]) is strip(mk("iv", site, it)) and any(x is v.a[0] for x in walk(strip(it)))):
            path = None
    if not rep.ob("names are added in order", path is not None, show(v)[:200], e.where()):
        return None
    if not rep.ob("names come from what was read", path[:3] == [("v", "Ok"), "0", "0"], str(path), e.where()):
        return None
    some = [i for i, x in enumerate(path) if isinstance(x, tuple) and i]
    env = {}
    for i in some:
        x = t
        for y in path[:i]:
            x = proj1(x, y)
        for g in subjects_of(an, l):
            if strip(g).op == "discr" and strip(g).a[0] is x:
                env[strip(g)] = I(1)
    more = dict(env)
    more.update({strip(g): x for g, x in dom.guards.items()})
    c = under(more)(strip(e.cond(within=inner.id)))
    early = [x[1] for n, x in enumerate(inner.exits) if under(more)(strip(x[1])) is not I0 and not exit_k_fails(an, inner.id, n)]
    rep.ob("every name is added", c is I1 and not early, show(c)[:200], e.where())
    c = entry_cond(an, inner, l.id)
    for n, st in (("goes on", state(False, 5, 3)), ("ends", state(False, 5, 0))):
        rep.ob("what was read is added when the parser %s" % n, under(env)(st(c)) is I1, show(st(c))[:200], e.where())
    # the result
    root = e.d[0]
    v0 = l.init.env.get(root_key(root))
    rep.ob("there are no names at first", v0 is not None and v0.op == "arr" and not v0.a, show(v0)[:60] if v0 is not None else str(root), w)
    for n, x in enumerate(l.exits):
        if exit_k_fails(an, l.id, n):
            continue
        u = under({mk("exit", l.id): I(n)}) if len(l.exits) > 1 else (lambda y: y)
        r = u(an.ret)
        r = proj1(proj1(r, ("v", "Ok")), "0")
        last = {strip(y) for y in vals(r)}
        k = root_key(root)
        names = {strip(mk("mu", l.id, k, ())), strip(mk("mu", inner.id, k, ()))}
        rep.ob("the result is all the names", last and last <= names, str([show(y)[:60] for y in last]), w)
        if state(False, 5, 0)(x[1]) is not I0:
            rep.ob("the result has the names read last", strip(mk("mu", inner.id, k, ())) in last or l.latch is None, str([show(y)[:60] for y in last]), w)
    nxt = {strip(y) for y in vals(apply(lambda c, v: v if c is I1 else BOT, strip(l.latch.pc), strip(l.latch.env.get(root_key(root), BOT))))}
    k = root_key(root)
    rep.ob("the names are kept", nxt and nxt <= {strip(mk("mu", l.id, k, ())), strip(mk("mu", inner.id, k, ()))}, str([show(y)[:60] for y in nxt]), w)
    return [y for y in path[3:] if not isinstance(y, tuple)]


def root_key(root):
    return tuple(root.a[:2]) if root.op != "const" else None


def subjects_of(an, l):
    r = set(subjects(l.latch.pc))
    for x in l.exits:
        r |= set(subjects(x[1]))
    for i in an.loops.values():
        r |= set(subjects(i.init.pc))
        for x in i.exits:
            r |= set(subjects(x[1]))
    return r
