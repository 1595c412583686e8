"""The command line, as the program's parsing loop handles it: what the loop does with one argument of a given text,
read off the diagrams of one iteration; and what becomes of the settings on their way to the link."""
from terms import *
from query import *


OPERAND = mk("sym", "the operand")


def loops(an):
    """the loops that handle arguments: those that compare what they step through with texts of options"""
    out = []
    for lid in an.loops:
        p = Parser(an, lid)
        if p.args:
            out.append(p)
    return out


def texts(t):
    """{subject: texts it is compared with}"""
    out = {}
    for x in walk(t):
        if x.op == "md":
            s = [c for c, _ in x.a[1] if isinstance(c, str)]
            if s:
                out.setdefault(x.a[0], set()).update(s)
        elif x.op in ("starts", "eq", "ends") and x.a[1].op == "str":
            out.setdefault(x.a[0], set()).add(x.a[1].a[0])
    return out


class Parser(object):
    def __init__(self, an, lid):
        self.an, self.lid, self.l = an, lid, an.loops[lid]
        l = self.l
        self.args = set()
        if l.latch is None:
            return
        self.steps = [e for e in an.steps if e.loops and e.loops[-1] == lid]
        if not self.steps:
            return
        for e in self.inside():
            for s, c in texts(e.cond(within=lid)).items():
                if s.op == "at" and any(x.startswith("-") and len(x) > 1 for x in c):
                    self.args.add(s)
        # the argument is what the first step of an iteration yields; later steps yield operands
        sites = {site for a in self.args for site in self.sites(a)}
        first = min((e.d[1] for e in self.steps), default=None)
        self.first = first
        self.args = {a for a in self.args if first in self.sites(a)}
        self.head = [e for e in self.steps if e.d[1] == first]
        self.next = [e for e in self.steps if e.d[1] != first and e.d[0] != "peek"]
        self.operand_sites = {e.d[1] for e in self.steps if e.d[1] != first}

    def inside(self):
        return [e for e in self.an.events if self.lid in e.loops] + self.steps

    def sites(self, a):
        """the steps whose position the index of an element mentions"""
        if a.op != "at":
            return set()
        return {x.a[0] for x in walk(a.a[1]) if x.op == "iv"}

    def given(self, text, operand=True, value=None, more=None):
        """an iteration that handles an argument of this text, with an operand behind it or none"""
        mores = more or {}

        def rep(t):
            if t in self.args:
                return S(text) if isinstance(text, str) else text
            if t.op == "more":
                if t.a[0] == self.first:
                    return I1
                if t.a[0] in self.operand_sites:
                    return I(int(operand))
            if t.op == "at" and self.sites(t) & self.operand_sites:
                return value or OPERAND
            return None

        def fix(t):
            if t.op == "after" and t.a[0].op == "str" and t.a[1].op == "str" and t.a[0].a[0].startswith(t.a[1].a[0]):
                return S(t.a[0].a[0][len(t.a[1].a[0]):])
            if t.op == "p:substr" and t.a[0].op == "str" and t.a[1].op == "agg" and t.a[1].a[0].endswith("RangeFrom"):
                n = t.a[1].a[3][0]
                if n.op == "int":
                    return S(t.a[0].a[0][n.a[0]:])
            return None
        return Rebuild(rep, fix)

    def consumed(self, u):
        """how many operands it takes: (at least, at most, other conditions)"""
        by = {}
        for e in self.next:
            by[e.d[1]] = bor(by.get(e.d[1], I0), u(e.cond(within=self.lid)))
        going = self.going(u)
        low = sum(1 for c in by.values() if implies(going, c))
        high = sum(1 for c in by.values() if band(going, c) is not I0)
        return low, high, by

    def going(self, u):
        """the condition of the iteration being reached, without what was assumed"""
        g = I0
        for e in self.head:
            g = bor(g, u(e.cond(within=self.lid)))
        return g

    def goes_on(self, u):
        return u(self.l.latch.pc)

    def fails(self, u):
        """every way out of the iteration is an error, and there is one"""
        ks = [n for n, x in enumerate(self.l.exits) if u(x[1]) is not I0]
        return bool(ks) and band(u(self.l.latch.pc), self.going(u)) is I0 and all(exit_k_fails(self.an, self.lid, n) for n in ks)

    def leaves_ok(self, u):
        """ways out of the iteration that are no error"""
        return [n for n, x in enumerate(self.l.exits) if u(x[1]) is not I0 and not exit_k_fails(self.an, self.lid, n)]

    def pushed(self, u):
        """[(event, names of the list, value)] an iteration adds"""
        out = []
        for e in self.an.events:
            if e.kind in ("push", "insert", "extend") and self.lid in e.loops:
                c = u(e.cond(within=self.lid))
                if c is not I0:
                    out.append((e, e.d[1] if isinstance(e.d[1], tuple) else (), u(e.d[2]), c))
        return out

    def after(self, u, var):
        """the value of a variable (a mu term of this loop) after the iteration"""
        return u(value(self.l.latch, var.a[1], var.a[2]))


class Settings(object):
    """the values the link is started with, followed back to the parsing loops"""

    def __init__(self, an, parsers):
        self.an, self.parsers = an, {p.lid: p for p in parsers}

    def back(self, t):
        """(variables of parsing loops whose final value it is, other values it may have)"""
        ps, other, todo, seen = set(), set(), [t], set()
        while todo:
            for v in leaves(todo.pop()):
                if v is BOT or v in seen:
                    continue
                seen.add(v)
                if v.op != "mu":
                    other.add(v)
                    continue
                l = self.an.loops[v.a[0]]
                todo.append(value(l.init, v.a[1], v.a[2]))
                if v.a[0] in self.parsers:
                    ps.add(v)
                elif l.latch is not None:
                    todo.append(value(l.latch, v.a[1], v.a[2]))
        return ps, other


def value(st, key, path):
    v = st.env.get(key)
    return BOT if v is None else proj(v, path)
