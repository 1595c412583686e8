"""Every cycle of the control-flow of the link, the command line and the scripts is found on the MIR, calls and closures
included, and has to come with what makes it end: an iterator over something finite that takes a step in each round, text
that gets shorter, links of a table that only go forwards, a list of work whose entries are new, or rounds that find
something. The grammar's repetitions have to be of what consumes something."""
TECHNIQUE = "termination analysis over MIR: a ranking argument for every natural loop, no recursion, nullability of repeated parsers"
NOTE = "What the libraries (goblin, combine, std) loop over is theirs: their iterators are finite, a parser's rest is a suffix of its input. Time isn't bounded, only rounds."

import re
from terms import *
from query import *
from frame import Report
from c14 import untrunc
import c07
import c24
import rounds

ENDLESS = ("RangeFrom", "Repeat", "RepeatWith", "Cycle", "Successors", "FromFn", "Incoming", "Generator")
FINITE = {"ref", "map", "mapval", "val", "seq", "chain", "enumerate", "filter", "filter_map", "zip", "skip", "copied", "range",
          "rev", "take", "opt", "peekable", "args", "flatten", "flat_map", "step_by", "take_while", "skip_while", "map_while", "chunks",
          "windows", "once", "empty", "chars", "bytes"}
# combine's parsers
CONSUME = {"space", "newline", "crlf", "tab", "upper", "lower", "letter", "alpha_num", "digit", "hex_digit", "oct_digit", "char",
           "any", "satisfy", "satisfy_map", "token", "one_of", "none_of", "item"}
TEXT = {"string", "string_cmp", "tokens", "tokens_cmp", "range"}
NULLABLE = {"many", "skip_many", "optional", "spaces", "value", "produce", "position", "eof", "look_ahead", "not_followed_by", "unit",
            "sep_by", "sep_end_by", "skip_until", "take_until", "take_while", "count", "skip_count", "from_str"}
SAME = {"many1", "skip_many1", "map", "attempt", "try", "expected", "message", "silent", "flat_map", "and_then", "recognize", "map_input",
        "parser_map", "left", "right", "sep_by1", "sep_end_by1", "chainl1", "chainr1", "boxed", "by_ref", "iter", "into", "lazy"}
BOTH = {"and", "skip", "with", "between", "then", "then_partial", "then_ref"}
EITHER = {"or", "choice"}
REPEAT = {"many", "many1", "skip_many", "skip_many1"}
SEPARATED = {"sep_by", "sep_by1", "sep_end_by", "sep_end_by1", "skip_sep_by"}


def run(ctx, rep):
    rep.rule("a loop steps through something finite in every round, or has another reason to end")
    rep.rule("no function calls itself")
    rep.rule("a round of the resolution that finds nothing is the last; what was found is not found again")
    rep.rule("what a script names is followed once; a script is read to its end or refused")
    rep.rule("no parser that can succeed without consuming anything is repeated")
    ans = [("the link", ctx.link()), ("the command line", ctx.main()), ("the layout", ctx.compute())]
    seen = {}
    for what, an in ans:
        if not rep.need(what, an is not None):
            return
        rep.an(an)
        n = {}
        for lid in sorted(an.loops):
            kind = classify(ctx, rep, an, lid)
            n[kind] = n.get(kind, 0) + 1
        rep.ob("%s: loops" % what, sum(n.values()) >= 5, str(n))
        seen[what] = n
    link, main = seen["the link"], seen["the command line"]
    rep.need("the rounds of the resolution", link.get("rounds", 0) >= 1)
    rep.need("the loop over the scripts", main.get("worklist", 0) + main.get("steps", 0) >= 1)
    rep.notes.append("loops by the reason why they end: %s" % seen)
    recursion(ctx, rep)
    endless(ctx, rep)
    grammar(rep, ctx.main())


def name(an, l):
    return "%s" % (l.pos[2] if len(l.pos) > 2 else l.pos[0])


def place(l):
    return "%s:%s" % (l.pos[0], l.pos[1])


def classify(ctx, rep, an, lid):
    l = an.loops[lid]
    if l.latch is None or l.latch.pc is I0:
        return "never repeated"
    why = []
    for kind, f in (("steps", steps), ("text", text), ("links", links), ("worklist", worklist), ("rounds", lambda c, a, l: resolution(c, a, l, rep))):
        w = f(ctx, an, l)
        if w is None:
            rep.ob("loop in %s ends (%s)" % (name(an, l), kind), True, "", place(l))
            return kind
        if w:
            why.append("%s: %s" % (kind, w))
    rep.ob("loop in %s ends" % name(an, l), False, "; ".join(why)[:600] or "nothing is used up in a round", place(l))
    return "unknown"


# ---------------------------------------------------------------- iterators
def peeks(an, lid):
    return {e.d[1] for e in an.steps if e.d[0] == "peek"} - {e.d[1] for e in an.steps if e.d[0] != "peek"}


def finite(d):
    """None, or what in the iterator isn't known to be finite"""
    if d.op != "it":
        return None
    k = d.a[0]
    kids = [x for x in d.a[1:] if isinstance(x, T) and x.op == "it"]
    if k == "zip":
        bad = [finite(x) for x in kids]
        return None if any(b is None for b in bad) else bad[0] if bad else None
    if k == "take":
        return None
    if k not in FINITE:
        return k
    if k == "range" and (len(d.a) < 3 or d.a[2] is None or not isinstance(d.a[2], T)):
        return "open range"
    for x in kids:
        b = finite(x)
        if b:
            return b
    return None


def steps(ctx, an, l):
    ps = peeks(an, l.id)
    gs, bad = {}, []
    for site, it in l.iters:
        if site in ps:
            continue
        b = finite(it)
        if b:
            bad.append(b)
            continue
        gs[strip(mk("more", site, it))] = I0
        gs[mk("more", site, it)] = I0
    go = under(gs)(strip(l.latch.pc))
    if gs and go is I0:
        return None
    d = domain(an, l.id)
    if not l.iters and d.iters and d.guards and all(band(strip(l.latch.pc), bnot(cond_eq(strip(g), v.a[0]))) is I0 for g, v in d.guards.items()):
        return None     # counts up to a length
    if counts(an, l):
        return None
    return ("endless: %s" % ", ".join(bad)) if bad else ""


def counts(an, l):
    """a variable moves to a bound that stays"""
    go = strip(l.latch.pc)
    for k, nxt in l.latch.env.items():
        init = l.init.env.get(k)
        if init is None:
            continue
        mu = mk("mu", l.id, k, ())
        step = {sub(strip(x), mu) for x in vals(strip(apply(lambda c, v: v if c is I1 else BOT, l.latch.pc, nxt)))}
        if not step or not all(x.op == "int" and x.a[0] != 0 for x in step):
            continue
        up = {x.a[0] > 0 for x in step}
        if len(up) != 1:
            continue
        up = up.pop()
        for g in subjects(go):
            if g.op not in ("ltc", "cmp"):
                continue
            c0, ds = lin_parts(g.a[0])
            mine = [n for t, n in ds if t is mu]
            if len(mine) != 1 or any(t is not mu and mentions(t, lambda x: x.op == "mu" and x.a[0] == l.id) for t, n in ds):
                continue
            towards = (mine[0] > 0) == up     # the subject grows
            if g.op == "ltc" and towards and under({g: I0})(go) is I0:
                return True
            if g.op == "ltc" and not towards and under({g: I1})(go) is I0:
                return True
            if g.op == "cmp":
                end = [I(1), I(0)] if towards else [I(-1), I(0)]
                if under({g: end[0]})(go) is I0 and (under({g: I(0)})(go) is I0):
                    return True
                if all(under({g: e})(go) is I0 for e in end[:1]):
                    return True
    return False


# ---------------------------------------------------------------- text
def text(ctx, an, l):
    """what is left of a text is shorter in each round"""
    go = strip(l.latch.pc)
    for k, nxt in l.latch.env.items():
        if k not in l.init.env:
            continue
        mu = mk("mu", l.id, k, ())
        new = {strip(x) for x in vals(apply(lambda c, v: v if c is I1 else BOT, go, strip(nxt)))}
        if mu in new or len(new) != 1:
            continue
        new = new.pop()
        for g in subjects(go):
            if g.op in ("cmp", "ltc"):
                c0, ds = lin_parts(g.a[0])
                ls = {t.a[0]: n for t, n in ds if t.op == "len"}
                if c0 != 0 or len(ds) != 2 or len(ls) != 2 or new not in ls or mu not in ls or ls[new] + ls[mu] != 0:
                    continue
                if g.op == "cmp":
                    longer = I(1) if ls[new] > 0 else I(-1)
                    same = under({g: I0})(go) is I0
                else:
                    same = under({g: I0 if ls[new] > 0 and g.a[1] == 0 else I1 if ls[new] < 0 and g.a[1] == 1 else None})(go) is I0 \
                        if (ls[new] > 0 and g.a[1] == 0) or (ls[new] < 0 and g.a[1] == 1) else False
                    longer = None
                if same and (rest_of(an, l, new) or (longer is not None and under({g: longer})(go) is I0)):
                    return None
                if not same:
                    return "goes on with a rest of the same length"
                return "what is left doesn't come from the text"
            if g.op == "eq" and set(g.a[:2]) == {new, mu}:
                if under({g: I1})(go) is I0 and rest_of(an, l, new):
                    return None
    return ""


def rest_of(an, l, new):
    """what a parser leaves"""
    return any(t.op == "p:parse" or t.op in ("havoc", "call", "callx", "fld") and mentions(t, lambda x: x.op in ("havoc", "call", "callx") and "combine::" in str(x.a[0]))
               for t in walk(new))


# ---------------------------------------------------------------- links of a table
def links(ctx, an, l):
    go = strip(l.latch.pc)
    why = ""
    for k, nxt in l.latch.env.items():
        init = l.init.env.get(k)
        if init is None:
            continue
        mu = mk("mu", l.id, k, ())
        new = {untrunc(strip(x)) for x in vals(apply(lambda c, v: v if c is I1 else BOT, go, strip(nxt)))}
        if len(new) != 1:
            continue
        new = new.pop()
        if new.op != "at" or untrunc(new.a[1]) is not mu:
            continue
        if not any(zero(go, x) for x in {mu, new} | {y for y in subjects(go) if untrunc(y) in (mu, new)}):
            why = "goes on when there is no next"
            continue
        r = forwards(an, l, new.a[0], untrunc(strip(init)))
        if r is None:
            return None
        why = r
    return why


def zero(go, x):
    return Rebuild(lambda t: I0 if t is x else None)(go) is I0


def forwards(an, l, table, head):
    """the links of the table only go to where a later round of the loop around put something"""
    up = parent(l)
    while up is not None and not (table.op == "mu" and table.a[0] == up):
        up = parent(an.loops[up])
    if up is None:
        return "the table is not filled by a loop around"
    o = an.loops[up]
    d = domain(an, up)
    if d.rev or not d.iters:
        return "the loop that fills the table isn't known"
    ix = {strip(i) for i, s in d.iters}
    tables = {}
    for k, v in o.latch.env.items():
        t = mk("mu", up, k, ())
        i = o.init.env.get(k)
        if i is not None and any(x.op == "eset" for x in walk(v)) and not any(x.op == "eset" for x in walk(i)):
            tables[t] = (strip(i), strip(v))
    if table not in tables:
        return "what the table holds isn't known"

    def now(x):
        """an index the loop around has reached"""
        return untrunc(x) in ix

    def past(x, deep=0):
        x = untrunc(x)
        if x is I0:
            return True
        if x.op == "at" and x.a[0] in tables:
            return True
        if x.op == "mu" and not x.a[2] and x.a[0] in an.loops and deep < 4 and x.a[0] != up:
            m = an.loops[x.a[0]]
            if x.a[1] not in m.init.env or m.latch is None:
                return False
            a = [y for y in vals(strip(m.init.env[x.a[1]]))]
            b = [y for y in vals(strip(m.latch.env.get(x.a[1], x)))]
            return all(untrunc(y) is x or past(y, deep + 1) for y in a + b)
        return False

    for t, (i, v) in tables.items():
        if not empty(i):
            return "a table isn't empty at first: %s" % show(i)[:80]
        for x in vals(v):
            while x.op == "eset":
                if not now(x.a[2]) and not (t is not table and past(x.a[2])):
                    return "an entry is no index of this round: %s" % show(x.a[2])[:80]
                if t is table and not past(x.a[1]):
                    return "a link is put where another round may follow it: %s" % show(x.a[1])[:80]
                x = x.a[0]
            if x is not t:
                return "a table is replaced: %s" % show(x)[:80]
    if not all(past(x) for x in vals(head)):
        return "starts at %s" % show(head)[:80]
    return None


def empty(t):
    """zeros only"""
    xs = vals(t)
    for x in xs:
        if x.op == "vrep":
            if x.a[0] is not I0:
                return False
        elif x.op == "arr":
            if not all(y is I0 for y in x.a):
                return False
        else:
            return False
    return bool(xs)


# ---------------------------------------------------------------- lists of work
def worklist(ctx, an, l):
    """a round takes an entry from a list; what it adds to the list it does for an entry that is new to a set"""
    pops = [e for e in an.events if e.kind in ("pop", "vremove", "remove", "pop_front", "popped") and e.loops and e.loops[-1] == l.id]
    go = strip(l.latch.pc)
    for p in pops:
        adds = [e for e in an.events if e.kind in ("push", "insert", "extend", "append", "push_back", "push_front", "store", "lstore") and l.id in e.loops and
                e is not p and same_place(p, e)]
        if band(go, bnot(strip(p.cond(within=l.id)))) is not I0:
            return "a round can do without taking an entry"
        sets = [e for e in an.events if e.kind == "minsert" and l.id in e.loops]
        for e in adds:
            ok = False
            c = cond_in(an, e, l)
            for s in sets:
                k = strip(s.d[2])
                hs = [t for t in subjects(c) if t.op == "has" and under({t: I1})(c) is I0 and t.a[1] is k and set_of(t.a[0], s)]
                if hs and implies(c, cond_in(an, s, l)) and kept(an, l, s):
                    ok = True
            if not ok:
                return "an entry can be added again and again at %s" % e.where()
        if not adds:
            return None
        return None
    return ""


def cond_in(an, e, l):
    """the condition of an event within loop l (what the loops within need to be entered at least)"""
    ls = e.loops[e.loops.index(l.id):]
    c = e.cond(within=ls[-1]) if len(ls) == 1 else I1
    c = strip(c)
    for inner in reversed(ls[1:]):
        c = band(c if len(ls) == 1 else I1, strip(entry_cond(an, an.loops[inner], l.id)))
        break
    if len(ls) > 1:
        c = strip(entry_cond(an, an.loops[ls[1]], l.id))
    return c


def set_of(v, s):
    """the set that a test looks at is the variable that is inserted in"""
    return v.op == "mu" and s.d[0].op == "L" and v.a[1] == s.d[0].a


def kept(an, l, s):
    """the set lives longer than the loop, and nothing is taken out of it"""
    if s.d[0].op != "L":
        return False
    for e in an.events:
        if e.d and isinstance(e.d[0], T) and e.d[0].op == "L" and e.d[0].a == s.d[0].a and \
                e.kind in ("mremove", "retain", "clear", "lstore", "new", "store") and l.id in e.loops:
            return False
    return True


def same_place(a, b):
    if not (isinstance(a.d[0], T) and isinstance(b.d[0], T)) or not isinstance(b.d[1], tuple) or not isinstance(a.d[1], tuple):
        return False
    return a.d[0] is b.d[0] and (a.d[1] == b.d[1] or a.d[1][:len(b.d[1])] == b.d[1])


# ---------------------------------------------------------------- rounds of the resolution
class Quiet(Report):
    def __init__(self):
        Report.__init__(self, "C24")
        self.parts = None


def resolution(ctx, an, l, rep):
    if an is not ctx.link():
        return ""
    q = Quiet()
    c24.run(ctx, q)
    if q.parts is None:
        return "; ".join(k for k, d, w in q.viol)[:300] or "what the rounds look for isn't known"
    U, M, u = q.parts["needs"], q.parts["links"], q.parts["kinds"]
    R = parent(an.loops[parent(an.loops[U])]) if parent(an.loops[U]) is not None else None
    if R != l.id:
        return ""
    where = q.parts["where"]
    # a round in which nothing is found
    r = rounds.Round(an, R)
    found = {}
    for lid in an.loops:
        if any(f[0] == "loop" and f[1] == R for f in an.loops[lid].frames):
            m = rounds.marked(an, lid)
            if m is not I0 and not any(f[0] == "loop" and f[1] == parent(an.loops[U]) for f in an.loops[lid].frames):
                found[lid] = m
    found[U] = q.parts["raw"]
    best, why = None, []
    for k, v in l.latch.env.items():
        if k in l.init.env and (c07.Chain(an, v).ok or c07.Chain(an, l.init.env[k]).ok):
            x, w = r.decide(mk("mu", R, k, ()), found, U)
            if x is not None and (best is None or x[1] is I0):
                best = x
            why.append(w)
    for lid, o in an.loops.items():
        if parent(o) == R and o.latch is not None:
            for k in o.latch.env:
                if c07.Chain(an, mk("mu", lid, k, ())).ok:
                    x, w = r.decide(mk("mu", lid, k, ()), found, U)
                    if x is not None and (best is None or x[1] is I0):
                        best = x
                    why.append(w)
    if best is None:
        return "whether another round follows doesn't depend on what was found: %s" % "; ".join(sorted({w for w in why if w}))[:200]
    if best[1] is not I0:
        return "goes on after a round in which nothing was found: if %s" % show(best[1])[:200]
    # what was found in an archive isn't found again
    again = u({"linked": 1})(q.parts["found"])
    rep.ob("resolution: a member that was linked isn't found again", again is I0,
           "an archive whose index is out of date makes rounds without end: %s" % show(again)[:150], where)
    need = ("a member is linked once", "what was linked isn't forgotten", "what is linked is remembered", "what was linked is remembered for the whole link",
            "linked: a symbol that is still undefined", "needed: what was linked is told apart in the same way", "members: none is left out, but by a failure")
    bad = {k: (d, w) for k, d, w in q.viol}
    for k in need:
        rep.ob("resolution: " + k, any(x == k for x, ok in q.obs) and k not in bad, bad.get(k, ("isn't known", ""))[0], bad.get(k, ("", where))[1])
    # what was found in a library is provided by it
    def flags(x):
        return any(y.op == "eset" and y.a[2] is I1 for k, v in an.loops[x].latch.env.items() if k in an.loops[x].mods for y in leaves(strip(v)))
    libs = [x for x in found if x != U and flags(x) and not any(f[0] == "loop" and f[1] == parent(an.loops[U]) for f in an.loops[x].frames)]
    if not rep.need("what is found in libraries", bool(libs)):
        return None
    for x in libs:
        c = strip(found[x])
        st = I0
        for e in an.events:
            if e.kind == "store" and e.loops and e.loops[-1] == x and isinstance(e.d[1], tuple) and \
                    base_of(mk("ptr", e.d[0], e.d[1]))[1][-1:] == ("dynamic",):
                st = bor(st, strip(e.cond(within=x)))
        fl = {}
        for s in subjects(band(c, bnot(st))):
            # the symbol that is looked for is in the table
            if s.op == "has" and base_of(s.a[0])[1][-1:] in (("symbols",), ("names",)):
                fl[s] = I1
        miss = under(fl)(band(c, bnot(st)))
        d = domain(an, x)
        for g, v in d.guards.items():
            miss = band(miss, cond_eq(strip(g), v.a[0]))
        go = band(strip(an.loops[x].latch.pc), miss) if an.loops[x].latch is not None else I0
        bad = go is not I0
        for n, ex in enumerate(an.loops[x].exits):
            if band(strip(ex[1]), miss) is not I0 and not exit_k_fails(an, x, n):
                bad = True
        rep.ob("resolution: what a library has is provided by it from then on", not bad, show(go)[:300], place(an.loops[x]))
    return None


# ---------------------------------------------------------------- recursion, endless iterators
def recursion(ctx, rep):
    for crate in ("lib", "bin"):
        p = ctx.prog(crate)
        from flow import fn_consts
        g, n = {}, 0
        for f in p.fns.values():
            if not f.has or not f.local:
                continue
            to = set()
            for b in f.blocks:
                for c in fn_consts([b["t"], b["s"]]):
                    i = c.get("inst")
                    if i in p.fns and p.fns[i].has and p.fns[i].local:
                        to.add(i)
            for x in p.fns.values():
                if x.has and x.local and x.name.startswith(f.name + "::{closure"):
                    to.add(x.id)
            g[f.id] = to
            n += len(to)
        rep.need("calls between the functions of %s" % crate, n >= 10, str(n))
        done, path = set(), []
        for f in sorted(g):
            c = cycle(g, f, done)
            if c:
                rep.ob("recursion: %s" % p.fns[c].name.split("<")[0], False, "calls itself", p.fns[c].file)
        rep.ob("%s: no function calls itself" % crate, not any(cycle(g, f, set()) for f in g), "", "")


def cycle(g, f, done):
    st = [(f, iter(sorted(g.get(f, ()))))]
    on = {f}
    while st:
        x, it = st[-1]
        for y in it:
            if y in on:
                return y
            if y not in done:
                on.add(y)
                st.append((y, iter(sorted(g.get(y, ())))))
                break
        else:
            done.add(x)
            on.discard(x)
            st.pop()
    return None


def endless(ctx, rep):
    """iterators without end, by their types, where they are gone through"""
    from flow import fn_consts
    pat = re.compile(r"\b(%s)<" % "|".join(ENDLESS))
    n = 0
    for crate in ("lib", "bin"):
        p = ctx.prog(crate)
        for f in p.fns.values():
            if not f.has or not f.local:
                continue
            for b in f.blocks:
                for c in fn_consts([b["t"], b["s"]]):
                    nm = str(c.get("name") or c.get("def") or "")
                    if "Iterator" not in nm and "iter" not in nm:
                        continue
                    n += 1
                    ty = " ".join(str(x) for x in c.values() if isinstance(x, str))
                    m = pat.search(ty)
                    if m and "Take<" not in ty and "Zip<" not in ty and consumes(nm):
                        rep.ob("iterator in %s is finite" % f.name, False, "%s of %s" % (nm, m.group(1)), "%s:%s" % (f.file, b["line"]))
    rep.need("uses of iterators", n >= 30, str(n))


def consumes(nm):
    return nm.split("::")[-1] in ("next", "collect", "for_each", "fold", "count", "last", "max", "min", "sum", "extend", "unzip", "partition", "any", "all",
                                  "find", "position", "nth")


# ---------------------------------------------------------------- the grammar
def grammar(rep, an):
    n = 0
    for e in an.events:
        if e.kind != "call" or "combine" not in e.d[0]:
            continue
        nm = e.d[0].split("::")[-1]
        if nm in REPEAT:
            n += 1
            x = nullable(strip(e.d[1][0]))
            rep.ob("script grammar: %s repeats what consumes something" % nm, x is None, "can succeed without consuming: %s" % x, e.where())
        elif nm in SEPARATED:
            n += 1
            x = nullable(strip(e.d[1][0]))
            y = nullable(strip(e.d[1][1]))
            rep.ob("script grammar: %s repeats what consumes something" % nm, x is None or y is None, "can succeed without consuming: %s" % x, e.where())
    rep.need("repetitions in the script grammar", n >= 5, str(n))


def nullable(t):
    """None, or the parser in t that makes it possible to succeed without consuming anything"""
    if t.op == "agg":
        kids = [x for x in t.a[3] if isinstance(x, T)] if len(t.a) > 3 else []
        bad = [nullable(x) for x in kids]
        return None if any(b is None for b in bad) else (bad[0] if bad else "an empty sequence")
    if t.op == "arr":
        bad = [b for b in (nullable(x) for x in t.a) if b]
        return bad[0] if bad else None
    if t.op in ("call", "callx") or (t.op == "p"):
        nm = str(t.a[0]).split("::")[-1]
        args = [x for x in t.a[1:] if isinstance(x, T)]
        if nm in CONSUME:
            return None
        if nm in TEXT:
            ss = [x for x in args if x.op == "str"]
            return None if ss and ss[0].a[0] else show(t)[:80]
        if nm in NULLABLE:
            return nm
        if nm in SAME:
            return nullable(args[0]) if args else nm
        if nm in BOTH:
            bad = [nullable(x) for x in args if parser(x)]
            return None if any(b is None for b in bad) else (bad[0] if bad else nm)
        if nm in EITHER:
            if nm == "choice" and len(args) == 1 and args[0].op in ("agg", "arr"):
                kids = args[0].a[3] if args[0].op == "agg" else args[0].a
                bad = [b for b in (nullable(x) for x in kids if isinstance(x, T)) if b]
            else:
                bad = [b for b in (nullable(x) for x in args if parser(x)) if b]
            return bad[0] if bad else None
        return nm
    bad = [b for b in (nullable(x) for x in vals(t)) if b] if len(vals(t)) > 1 else [show(t)[:80]]
    return bad[0] if bad else None


def parser(x):
    return x.op in ("call", "callx", "p", "agg", "arr")
