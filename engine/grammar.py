"""Grammars made of combine's parsers: the parser a term stands for is turned into a deterministic transducer (what is
read, what is kept of it), and two of these are compared for all texts by walking through their pairs of states.

A parser either succeeds or fails, with or without having read anything: an alternative is tried only if the one before
failed without reading (`attempt` makes any failure such a one). The machine reads one symbol after the other; what
`attempt` and the like have to look ahead for is followed in parallel until it is known."""
from terms import *

NAMES = {}


class Unknown(Exception):
    pass


class Node(object):
    """a parser"""
    COUNT = 0

    def __init__(self, kind, kids=(), **kw):
        self.kind, self.kids = kind, list(kids)
        self.keep = False       # its value is part of the result
        self.__dict__.update(kw)
        Node.COUNT += 1
        self.n = Node.COUNT

    def __repr__(self):
        return self.kind + ("(%s)" % ", ".join(map(repr, self.kids)) if self.kids else "")


# ---------------------------------------------------------------- symbols
WS = {chr(c) for c in (9, 10, 11, 12, 13, 32)}
LETTERS = {chr(c) for c in list(range(65, 91)) + list(range(97, 123))}
DIGITS = {chr(c) for c in range(48, 58)}
OTHER = {"\u00e9", "\u20ac"}     # a letter, and something else, that aren't ASCII
ALL = {chr(c) for c in range(128)} | OTHER
ALPHABET = sorted(ALL)
SETS = {"space": WS, "alpha_num": LETTERS | DIGITS | {"\u00e9"}, "letter": LETTERS | {"\u00e9"}, "digit": DIGITS, "any": ALL, "newline": {"\n"},
        "tab": {"\t"}, "upper": {c for c in LETTERS if c.isupper()}, "lower": {c for c in LETTERS if c.islower()} | {"\u00e9"},
        "hex_digit": DIGITS | set("abcdefABCDEF"), "oct_digit": set("01234567")}


def chars(s, name="set"):
    return Node("ch", set=frozenset(s), ty="char")


def lit(s):
    return Node("lit", text=s, ty="const")


def seq(*k):
    return Node("seq", k, ty="tuple")


def alt(*k):
    return Node("alt", k)


def many(k, least=0, ty="unit"):
    return Node("many", [k], least=least, ty=ty)


def pick(n, *k):
    return Node("pick", k, pick=n)


def out(text):
    return Node("out", text=text, ty="unit")


# ---------------------------------------------------------------- terms to parsers
def last(n):
    return n.split("::")[-1]


def collects(t):
    """what a parser that repeats makes of what it read"""
    for g in t.a[1]:
        if g.startswith("std::string::String"):
            return "str"
        if g.startswith(("std::vec::Vec", "alloc::vec::Vec", "std::collections::VecDeque")):
            return "list"
        if g == "()":
            return "unit"
        break
    return "?"


def build(t, rules):
    """the parser a term stands for; rules: {(parser, function): Rule}"""
    if t.op in ("ptr", "ld") and t.a[0].op == "const" and t.a[1] == ():
        t = t.a[0].a[0]
    if t.op == "agg" and t.a[0] in ("()", "tuple", ""):
        return Node("seq", [build(x, rules) for x in t.a[3]], ty="tuple")
    if t.op == "agg" and t.a[0].startswith("combine::") and len(t.a[3]) == 1:
        return build(t.a[3][0], rules)
    if t.op not in ("call", "callx") or not isinstance(t.a[0], str):
        raise Unknown("what parser this is: " + show(t)[:120])
    n = last(t.a[0])
    args = list(t.a[2:]) if t.op == "call" else list(t.a[3:])

    def sub(i):
        return build(args[i], rules)
    if n in SETS and not args:
        return chars(SETS[n])
    if n == "spaces":
        return many(chars(WS))
    if n in ("char", "token") and args[0].op == "int":
        return chars({chr(args[0].a[0])})
    if n in ("string", "tokens_cmp", "str") and args[0].op == "str":
        return lit(args[0].a[0])
    if n in ("one_of", "none_of"):
        x = args[0]
        if x.op == "it":
            x = x.a[1]
        s = text_set(x)
        if s is not None:
            return chars(s if n == "one_of" else ALL - s)
    if n in ("choice", "or"):
        kids = [sub(0), sub(1)] if n == "or" else build_all(args[0], rules)
        return Node("alt", kids)
    if n in ("many", "many1"):
        return Node("many", [sub(0)], least=int(n[-1] == "1"), ty=collects(t))
    if n in ("skip_many", "skip_many1"):
        return Node("many", [sub(0)], least=int(n[-1] == "1"), ty="unit")
    if n in ("sep_by", "sep_by1", "sep_end_by", "sep_end_by1"):
        return Node("sep", [sub(0), sub(1)], least=int(n[-1] == "1"), ty=collects(t), end="end" in n)
    if n == "optional":
        return Node("opt", [sub(0)], ty="opt")
    if n == "between":
        return pick(1, sub(0), sub(2), sub(1))
    if n == "skip":
        return pick(0, sub(0), sub(1))
    if n == "with":
        return pick(1, sub(0), sub(1))
    if n == "skip_until":
        return Node("until", [sub(0)], ty="unit")
    if n in ("attempt", "try"):
        return Node("att", [sub(0)])
    if n == "look_ahead":
        return Node("look", [sub(0)])
    if n == "not_followed_by":
        return Node("not", [sub(0)], ty="unit")
    if n == "eof":
        return Node("eof", ty="unit")
    if n in ("value", "produce"):
        return Node("seq", ty="unit")
    if n in ("expected", "message", "silent", "by_ref"):
        return sub(0)
    if n == "map":
        r = rules.get((args[0], args[1]))
        if r is None:
            raise Unknown("what a function makes of what was read")
        return r.node()
    raise Unknown("what %s reads" % n)


def build_all(t, rules):
    if t.op == "agg" and t.a[0] in ("()", "tuple", ""):
        return [build(x, rules) for x in t.a[3]]
    if t.op == "arr":
        return [build(x, rules) for x in t.a]
    raise Unknown("what alternatives there are: " + show(t)[:120])


def text_set(x):
    while x.op in ("const", "it", "p:str::chars") and x.a:
        x = x.a[-1] if x.op == "it" else x.a[0]
    if x.op == "str":
        return set(x.a[0])
    if x.op == "arr" and all(y.op == "int" for y in x.a):
        return {chr(y.a[0]) for y in x.a}
    return None


# ---------------------------------------------------------------- what functions make of values
class Sample(object):
    """a value a parser could give: lists have `size` elements"""

    def __init__(self, size):
        self.size, self.n, self.owner = size, 0, {}

    def text(self, node):
        self.n += 1
        t = mk("gtext", self.n)
        self.owner[t] = node
        return t

    def value(self, node, own=None, turn=0):
        """own: the node whose value, as a whole, this is part of"""
        if node.kind == "pick":
            return self.value(node.kids[node.pick], own)
        if node.kind in ("att", "look"):
            return self.value(node.kids[0], own)
        ty = typ(node)
        if ty == "unit":
            return UNIT
        if ty == "const":
            return mk("str", node.text)
        if ty == "tuple" and node.kind == "seq":
            return tup(*[self.value(k, own) for k in node.kids])
        if node.kind == "alt":
            return self.value(node.kids[turn % len(node.kids)], own or node, turn)
        own = own or node
        if ty in ("char", "str"):
            return self.text(own)
        if ty == "opt":
            if self.size == 0:
                return mk("agg", "std::option::Option", "None", (), ())
            return mk("agg", "std::option::Option", "Some", ("0",), (self.value(node.kids[0], own),))
        if node.kind == "map":
            return mk("arr", *[self.text(own) for _ in range((self.size + turn) % 3)])
        if ty == "list":
            return mk("arr", *[self.value(node.kids[0], own, i) for i in range(self.size)])
        raise Unknown("values of %s" % node.kind)


def typ(node):
    t = getattr(node, "ty", None)
    if t is None:
        k = node.kids[node.pick] if node.kind == "pick" else node.kids[0]
        t = typ(k)
        if node.kind == "alt" and any(typ(x) != t for x in node.kids):
            raise Unknown("the value of alternatives")
    if t == "?":
        raise Unknown("what is made of what is read")
    return t


class Rule(object):
    """the value of `map`: constants, what is kept of the values, constants"""

    def __init__(self, kid, ty, before, kept, after):
        self.kid, self.ty, self.before, self.kept, self.after = kid, ty, before, kept, after

    def node(self):
        return Node("map", [self.kid], ty=self.ty, rule=self)


class Unclear(object):
    def __init__(self, why):
        self.why = why

    def node(self):
        raise Unknown(self.why)


def rule(t, f, rules, call):
    """call(value): the term f makes of a value"""
    kid = build(t, rules)
    res = None
    for size in (0, 1, 2, 3):
        s = Sample(size)
        v = s.value(kid)
        r = call(v)
        if r is None:
            raise Unknown("what a function makes of what was read")
        order = list(s.owner)
        if r.op == "agg" and r.a[0] == "()" and not r.a[3]:
            ty, items = "unit", []
        elif r.op == "arr":
            ty, items = "list", list(r.a)
        elif r.op in ("gtext", "str"):
            ty, items = "str", [r]
        else:
            raise Unknown("what a function makes of what was read: " + show(r)[:120])
        pos = [i for i, x in enumerate(items) if x.op == "gtext"]
        if any(x.op not in ("gtext", "str") for x in items) or (pos and pos != list(range(pos[0], pos[-1] + 1))):
            raise Unknown("what a function makes of what was read: " + show(r)[:120])
        got = [items[i] for i in pos]
        kept = {s.owner[x].n for x in got}
        have = {s.owner[x].n for x in order}
        if got != [x for x in order if s.owner[x].n in kept]:
            raise Unknown("a function changes the order of what was read, or loses some")
        if pos:
            before = [x.a[0] for x in items[:pos[0]]]
            after = [x.a[0] for x in items[pos[-1] + 1:]]
        else:
            before, after = [x.a[0] for x in items], []
        res = res or []
        res.append((ty, before, kept, after, have, bool(pos)))
    full = res[-1]
    for ty, before, kept, after, have, some in res:
        if ty != full[0] or kept != full[2] & have:
            raise Unknown("what a function makes of what was read depends on how much it is")
        if (before, after) != (full[1], full[3]) if some else before != full[1] + full[3]:
            raise Unknown("what a function adds depends on how much was read")
    return Rule(kid, full[0], full[1], full[2], full[3])


# ---------------------------------------------------------------- results
def nodes(n):
    yield n
    for k in n.kids:
        for x in nodes(k):
            yield x


def at_path(node, path):
    """the parser whose value is at a path of names within the value of node"""
    path = list(path)
    while True:
        if node.kind in ("att", "look"):
            node = node.kids[0]
        elif node.kind == "pick":
            node = node.kids[node.pick]
        elif path and node.kind == "seq" and path[0].isdigit() and int(path[0]) < len(node.kids):
            node = node.kids[int(path.pop(0))]
        elif path and node.kind == "opt" and path[0] in ("0", "Some"):
            path.pop(0)
            node = node.kids[0]
        elif path:
            raise Unknown("what part of what was read is kept")
        else:
            return node


def give(node, parent=None):
    """the parser that gives out the texts which are the value of node, as a copy"""
    return copy(node, True)


def copy(n, kept):
    """kept: the value of n is part of the result"""
    r = Node(n.kind, **{k: v for k, v in n.__dict__.items() if k not in ("kind", "kids", "keep", "n")})
    if n.kind == "map":
        ru = n.rule
        return pin(ru.kid, ru, set(ru.kept) if kept else set(), ru.before if kept else [], ru.after if kept else [])
    r.keep = kept
    if n.kind == "seq":
        if kept and n.kids:
            raise Unknown("texts of a sequence")
        r.kids = [copy(k, False) for k in n.kids]
    elif n.kind == "pick":
        r.kids = [copy(k, kept and i == n.pick) for i, k in enumerate(n.kids)]
    elif n.kind == "sep":
        r.kids = [copy(n.kids[0], kept), copy(n.kids[1], False)]
    elif n.kind in ("until", "not"):
        r.kids = [copy(k, False) for k in n.kids]
    else:
        r.kids = [copy(k, kept) for k in n.kids]
    if kept and n.kind == "many" and typ(n) == "str":
        return seq(r, out("\0"))
    if kept and n.kind == "lit":
        return seq(r, out(n.text + "\0"))
    if kept and n.kind in ("look",):
        raise Unknown("texts that are read twice")
    return r


def pin(n, ru, owners, before, after):
    """n with the values of some of its parsers kept, constants before the first of them and after the last"""
    order = [x.n for x in nodes(n) if x.n in owners]
    first, final = (order[0], order[-1]) if order else (None, None)
    pre = [out(x + "\0") for x in before]
    post = [out(x + "\0") for x in after]

    def go(x):
        if x.n in owners:
            r = copy(x, True)
            if x.n == first and pre:
                r = seq(*(pre + [r]))
            if x.n == final and post:
                r = seq(*([r] + post))
            return r
        r = Node(x.kind, **{k: v for k, v in x.__dict__.items() if k not in ("kind", "kids", "keep", "n")})
        if x.kind == "map":
            return copy(x, False)
        r.kids = [go(k) for k in x.kids]
        return r
    r = go(n)
    if not order and pre + post:
        r = seq(*([r] + pre + post))
    return r


# ---------------------------------------------------------------- the machine
FP, FC, ACCEPT, DC = "fails", "fails having read", "accepts", "anything"


class Machine(object):
    """of a parser that is applied again and again to what it left, until nothing is left"""

    def __init__(self, line):
        self.line = line
        self.memo = {}
        self.any = chars(ALL)

    def start(self):
        return ("run", (self.line, ("outer", False)), "")

    def step(self, s, c):
        """(state, what is given out) after symbol c; None is the end"""
        k = (s, c)
        r = self.memo.get(k)
        if r is None:
            n = self.go(s, c)
            o = ""
            while isinstance(n, tuple) and n[0] == "passed":
                n = n[1]
            if isinstance(n, tuple) and n[0] == "run":
                n, o = ("run", n[1], ""), n[2]
            elif isinstance(n, tuple) and n[0] == "accept":
                n, o = ACCEPT, n[1]
            r = self.memo[k] = (n, o)
        return r

    def go(self, s, c):
        if s in (FP, FC, DC):
            return s
        k = s[0]
        if k == "run":
            return self.run(s[1], s[2], c)
        if k == "passed":
            return ("passed", self.go(s[1], c))
        if k == "att":
            return self.att(self.go(s[1], c), lambda: self.go(s[2], c))
        if k == "look":
            return self.look(self.go(s[1], c), lambda: self.go(s[2], c), lambda: self.go(s[3], c))
        if k == "accept":
            return FC
        raise Unknown("a state " + str(s))

    def att(self, a, fb):
        if isinstance(a, tuple) and a[0] == "passed":
            return a[1]
        if a in (FP, FC):
            return fb()
        if a == DC:
            return DC
        b = fb()
        if b == FC:
            return self.passed(a, 0)    # nothing else to try
        return ("att", a, b)

    def passed(self, s, n):
        """s without its n-th end of an `attempt`"""
        if s in (FP, FC, DC):
            return s
        if s[0] == "run":
            at = [i for i, f in enumerate(s[1]) if not isinstance(f, Node) and f[0] == "passed"]
            return ("run", s[1][:at[n]] + s[1][at[n] + 1:], s[2])
        if s[0] == "att":
            return ("att", self.passed(s[1], n + 1), self.passed(s[2], n))
        if s[0] == "look":
            return ("look", s[1], self.passed(s[2], n), self.passed(s[3], n))
        if s[0] == "passed":
            return ("passed", self.passed(s[1], n)) if n else s[1]
        raise Unknown("a state " + str(s))

    def look(self, p, good, bad):
        if p == "succ":
            return good()
        if p == FP:
            return bad()
        if p == FC:
            return FC
        return ("look", p, good(), bad())

    def run(self, st, pend, c):
        n = 0
        while True:
            n += 1
            if n > 10000:
                raise Unknown("whether a parser ends")
            f, st = st[0], st[1:]
            k = f.kind if isinstance(f, Node) else f[0]
            if k == "out":
                pend += f.text
            elif k == "ch":
                if c is not None and c in f.set:
                    return ("run", self.read(st), pend + (c if f.keep else ""))
                st, pend = self.back(st, pend)
            elif k == "dc":
                if c is not None and c in f.set:
                    return DC
                st, pend = self.back(st, pend)
            elif k == "lit":
                if not f.text:
                    continue
                if c == f.text[0]:
                    st = self.read(st)
                    return ("run", ((("rest", f.text[1:]),) + st) if len(f.text) > 1 else st, pend)
                st, pend = self.back(st, pend)
            elif k == "rest":
                if c == f[1][0]:
                    return ("run", ((("rest", f[1][1:]),) + st) if len(f[1]) > 1 else st, pend)
                st, pend = self.back(st, pend)
            elif k in ("seq", "pick"):
                st = tuple(f.kids) + st
            elif isinstance(f, Node) and k == "alt":
                st = (f.kids[0], ("alt", tuple(f.kids[1:]), len(pend))) + st
            elif isinstance(f, Node) and k == "many":
                st = (f.kids[0], ("more", f, True, len(pend), f.least == 0)) + st
            elif k == "more":
                if f[2]:
                    return FC       # reads nothing, for ever
                st = (f[1].kids[0], ("more", f[1], True, len(pend), True)) + st
            elif isinstance(f, Node) and k == "sep":
                st = (f.kids[0], ("elem", f, True, len(pend), f.least == 0)) + st
            elif k == "elem":
                st = (f[1].kids[1], ("between", f[1], True, len(pend))) + st
            elif k == "between":
                st = (f[1].kids[0], ("elem", f[1], True, len(pend), f[1].end or f[2])) + st
            elif isinstance(f, Node) and k == "opt":
                st = (f.kids[0], ("opt", len(pend))) + st
            elif k in ("alt", "opt"):
                pass
            elif k == "att":
                b, bp = self.back(st, pend)
                return self.att(self.run((f.kids[0], ("passed",)) + st, pend, c), lambda: self.again(b, bp, c))
            elif k == "passed":
                return ("passed", self.run(st, pend, c))
            elif k == "until":
                probe = self.run((f.kids[0], ("probe", False)), "", c)
                return self.look(probe, lambda: self.run(st, pend, c), lambda: self.run((self.any, f) + st, pend, c))
            elif k == "look":
                b, bp = self.back(st, pend)
                probe = self.run((f.kids[0], ("probe", False)), "", c)
                return self.look(probe, lambda: self.run(st, pend, c), lambda: self.again(b, bp, c))
            elif k == "not":
                b, bp = self.back(st, pend)
                probe = self.run((Node("att", [f.kids[0]]), ("probe", False)), "", c)
                return self.look(probe, lambda: self.again(b, bp, c), lambda: self.run(st, pend, c))
            elif k == "probe":
                return "succ"
            elif k == "eof":
                if c is not None:
                    st, pend = self.back(st, pend)
            elif k == "outer":
                if c is None:
                    return ("accept", pend)
                if not f[1]:
                    return FC
                st = (self.line, ("outer", False))
            elif k == "stop":
                return f[1]
            else:
                raise Unknown("a parser " + str(k))

    def again(self, st, pend, c):
        return self.run(st, pend, c)

    def read(self, st):
        """something was read: it is too late for alternatives"""
        r = []
        for f in st:
            if isinstance(f, Node):
                r.append(f)
            elif f[0] in ("alt", "opt"):
                continue
            elif f[0] in ("more", "elem", "between"):
                r.append(f[:2] + (False,) + ((0,) + f[4:] if len(f) > 3 else ()))
            elif f[0] in ("outer", "probe"):
                r.append((f[0], True))
            else:
                r.append(f)
        return tuple(r)

    def back(self, st, pend):
        """what is tried if something failed that read nothing"""
        for i, f in enumerate(st):
            if isinstance(f, Node):
                continue
            if f[0] == "alt":
                if f[1]:
                    return (f[1][0], ("alt", f[1][1:], f[2])) + st[i + 1:], pend[:f[2]]
            elif f[0] == "opt":
                return st[i + 1:], pend[:f[1]]
            elif f[0] in ("more", "elem"):
                if f[2] and f[4]:
                    return st[i + 1:], pend[:f[3]]
            elif f[0] == "between":
                if f[2]:
                    return st[i + 1:], pend[:f[3]]
            elif f[0] == "passed":
                return (("stop", FP),), pend
            elif f[0] == "probe":
                return (("stop", FC if f[1] else FP),), pend
            elif f[0] == "outer":
                return (("stop", FC),), pend
        return (("stop", FC),), pend


def texts(s):
    return s.split("\0")


def compare(a, b, limit=20000):
    """None, or (text, what a does, what b does): b is the reference, and may say that anything will do"""
    live = {}

    def alive(m, s):
        """a text that is accepted from here, or None"""
        if (m, s) not in live:
            seen, todo, r = {s}, [(s, "")], None
            while todo:
                x, w = todo.pop(0)
                if m.step(x, None)[0] == ACCEPT:
                    r = w
                    break
                for c in ALPHABET:
                    y, _ = m.step(x, c)
                    if y not in seen and y not in (FP, FC, DC):
                        seen.add(y)
                        todo.append((y, w + c))
                if len(seen) > limit:
                    raise Unknown("whether anything is accepted")
            live[(m, s)] = r
        return live[(m, s)]
    start = (a.start(), b.start(), "", "")
    seen, todo = {start}, [(start, "", "", "")]
    while todo:
        (x, y, p, q), w, oa, ob = todo.pop(0)
        if x != FC:
            ea, pa = a.step(x, None)
            eb, pb = b.step(y, None) if y != FC else (FC, "")
            if eb != DC:
                if (ea == ACCEPT) != (eb == ACCEPT):
                    return w, texts(oa + pa) if ea == ACCEPT else None, texts(ob + pb) if eb == ACCEPT else None, len(seen)
                if ea == ACCEPT and (p == "!" or p + pa != q + pb):
                    return w, texts(oa + pa), texts(ob + pb), len(seen)
        for c in ALPHABET:
            x2, o1 = a.step(x, c) if x != FC else (FC, "")
            y2, o2 = b.step(y, c) if y != FC else (FC, "")
            if y2 == DC or x2 == DC:
                continue
            x2 = FC if x2 == FP else x2
            y2 = FC if y2 == FP else y2
            if x2 == FC and y2 == FC:
                continue
            if x2 == FC:
                v = alive(b, y2)
                if v is not None:
                    return w + c + v, None, "accepted", len(seen)
                continue
            if y2 == FC:
                v = alive(a, x2)
                if v is not None:
                    return w + c + v, "accepted", None, len(seen)
                continue
            if p == "!":
                p2, q2 = "!", ""
            else:
                p2, q2 = p + o1, q + o2
                n = 0
                while n < min(len(p2), len(q2)) and p2[n] == q2[n]:
                    n += 1
                p2, q2 = p2[n:], q2[n:]
                if p2 and q2 or max(len(p2), len(q2)) > 64:
                    p2, q2 = "!", ""
            s = (x2, y2, p2, q2)
            if s not in seen:
                seen.add(s)
                todo.append((s, w + c, oa + o1, ob + o2))
        if len(seen) > limit:
            raise Unknown("whether the texts accepted are the same")
    return None, None, None, len(seen)
