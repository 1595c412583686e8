"""What becomes of one element of a list while it goes through other lists and maps, loop by loop."""
from terms import *
from query import *

X = mk("sym", "the element")
OUT = ("out",)


class Unknown(Exception):
    pass


class Flow(object):
    """base: the list the element is in at first; found: {loop: condition within it} what may happen to the element, of
    which only that in the loop `which` does"""

    def __init__(self, an, base, found, which):
        self.an, self.base, self.which = an, strip(base), which
        self.found = {k: strip(v) for k, v in found.items()}
        self.why = ""

    def after(self, v, found):
        """the states of the element in (or of the value) v, if what may happen does happen once (or never)"""
        try:
            return self.states(strip(v), found, {})
        except Unknown as e:
            self.why = str(e)
            return None

    def holds(self, l):
        k = self.which
        return k == l or any(f[0] == "loop" and f[1] == l for f in self.an.loops[k].frames)

    def states(self, v, found, env):
        if v in env:
            return env[v]
        if v is self.base:
            return {("in", None)}
        if v.op == "int":
            return {("int", v.a[0])}
        if v.op == "arr" and not v.a:
            return {OUT}
        if v.op == "mnew":
            return {OUT}
        if v.op == "mu" and not v.a[2] and v.a[0] in self.an.loops:
            return self.loop(v, found, env)
        if v.op in ("vretain", "mretain"):
            out = set()
            c, site, keep = v.a
            for s in self.states(c, found, env):
                if s[0] != "in":
                    out.add(s)
                    continue
                k = self.visit(strip(keep), site, {**env, c: {s}}, found)
                for x in vals(k):
                    out.add(OUT if x is I0 else s)
                if any(x is not I0 and x is not I1 for x in vals(k)):
                    out.add(OUT)
            return out
        if v.op == "vsorted":
            return self.states(v.a[0], found, env)
        if v.op == "vpush":
            old = self.states(v.a[0], found, env)
            return {("in", None)} if v.a[1] is X else old
        if v.op in ("eset", "mins"):
            old = self.states(v.a[0], found, env)
            if v.a[1] is X:
                return {("in", v.a[2].a[0] if v.a[2].op == "int" else None)}
            return old
        if v.op == "mrem":
            return {OUT} if v.a[1] is X else self.states(v.a[0], found, env)
        if v.op in ("ite", "case", "sw") or len(leaves(v)) > 1:
            out = set()
            for x in vals(v):
                out |= self.states(x, found, env)
            return out
        if v.op == "add":
            raise Unknown(show(v)[:80])
        raise Unknown("%s: %s" % (v.op, show(v)[:80]))

    def visit(self, t, site, env, found):
        """t for the element, as the loop at the site meets it"""
        def rep(x):
            if x.op in ("key", "at") and isinstance(x.a[1], T) and x.a[1].op == "iv" and x.a[1].a[0] == site:
                return X
            return None
        t = Rebuild(rep)(t)
        return self.flags(t, env, found)

    def flags(self, t, env, found):
        def rep(x):
            if x.op == "at" and x.a[1] is X:
                try:
                    s = self.states(x.a[0], found, env)
                except Unknown:
                    return None
                fs = {y[1] for y in s if y[0] == "in"}
                if len(fs) == 1 and None not in fs:
                    return I(fs.pop())
            if x.op == "has" and x.a[1] is X:
                try:
                    s = self.states(x.a[0], found, env)
                except Unknown:
                    return None
                if len(s) == 1:
                    return I1 if list(s)[0][0] == "in" else I0
            return None
        return Rebuild(rep)(t)

    def step(self, l, key, mu, s, found, env, site, happens):
        """the states after one iteration"""
        d = domain(self.an, l.id)
        leave = I0
        for n, x in enumerate(l.exits):
            if self.early(d, x[1]):
                if not exit_k_fails(self.an, l.id, n):
                    raise Unknown("the loop can be left early")
                leave = bor(leave, strip(x[1]))
        env = {**env, mu: {s}}
        go, v = strip(l.latch.pc), strip(l.latch.env[key])
        for q in {q for t in (leave, go, v) for q in subjects(t)}:
            # what holds the element isn't empty
            if q.op == "len":
                try:
                    st = self.states(strip(q.a[0]), False, env)
                except Unknown:
                    continue
                if st and all(x[0] == "in" for x in st):
                    leave = bor(leave, cond_eq(q, 0))
        # what neither goes on nor leaves has been passed over by the iterator
        nxt = apply(lambda out, go, v: BOT if out is I1 else (v if go is I1 else mu), leave, go, v)
        nxt = under(d.guards)(nxt)
        if site is not None:
            nxt = self.visit(nxt, site, env, found)
        if l.id in self.found:
            c = self.found[l.id]
            if site is not None:
                c = self.visit(c, site, env, found)
            c = under(d.guards)(c)
            nxt = apply(lambda p, q: q if p is I1 else BOT, c if happens and l.id == self.which else bnot(c), nxt)
        return self.states(nxt, found if happens is None else bool(happens), env)

    def loop(self, mu, found, env):
        l = self.an.loops[mu.a[0]]
        key = mu.a[1]
        if key not in l.init.env:
            raise Unknown("variable of a loop")
        start = self.states(strip(l.init.env[key]), found and not self.holds(l.id), env)
        if l.latch is None or key not in l.latch.env:
            return start
        holds = self.holds(l.id)
        d = domain(self.an, l.id)
        src = None
        if len(d.iters) == 1 and d.iters[0][1][0] == "each":
            iv, (_, root, names, first) = d.iters[0]
            if not names:
                c = root
                if c.op == "L":
                    c = l.init.env.get(root.a, root)
                try:
                    src = (iv.a[0], strip(c), self.states(strip(c), found and not holds, env), first)
                except Unknown:
                    src = None
        if src is not None:
            site, c, ss, first = src
            if first != 0 or any(not exit_k_fails(self.an, l.id, n) and self.early(d, x[1]) for n, x in enumerate(l.exits)):
                raise Unknown("not all are looked at")
            out = set()
            same = c is strip(l.init.env[key])
            for s in ss:
                for b in ([s] if same else start):
                    if s[0] != "in":
                        out.add(b)
                    else:
                        out |= self.step(l, key, mu, b, found, {**env, c: {s}}, site, (found if holds else None))
            if not same and not out:
                out = start
            # the others don't touch this one
            return out
        quiet = self.closure(l, key, mu, start, env, False if holds else None, found)
        if not (found and holds):
            return quiet
        hit = set()
        for s in quiet:
            hit |= self.step(l, key, mu, s, True, env, None, True)
        return self.closure(l, key, mu, hit, env, False, False)

    def early(self, d, pc):
        for g, v in d.guards.items():
            pc = band(pc, cond_eq(g, v.a[0]))
        return pc is not I0

    def closure(self, l, key, mu, start, env, happens, found):
        out, todo = set(start), list(start)
        while todo:
            s = todo.pop()
            for x in self.step(l, key, mu, s, found if happens is None else bool(happens), env, None, happens):
                if x not in out:
                    out.add(x)
                    todo.append(x)
        return out


class Round(object):
    """the test that ends the rounds of a loop"""

    def __init__(self, an, lid):
        self.an, self.lid, self.l = an, lid, an.loops[lid]
        self.ends = [x[1] for n, x in enumerate(self.l.exits) if not exit_k_fails(an, lid, n)]
        # the rounds that don't fail
        self.fine = {}
        for s in {s for x in self.l.exits for s in subjects(x[1])}:
            if s.op == "exit" and s.a[0] in an.loops:
                ok = [n for n in range(len(an.loops[s.a[0]].exits)) if not exit_k_fails(an, s.a[0], n)]
                if len(ok) == 1:
                    self.fine[s] = I(ok[0])
        u = under(self.fine)
        self.end = I0
        for x in self.ends:
            self.end = bor(self.end, u(x))
        self.go = u(self.l.latch.pc) if self.l.latch is not None else I0

    def decide(self, base, found, which):
        """(a round in which what may happen does, ends; a round in which nothing does, goes on), why not"""
        f = Flow(self.an, base, found, which)
        some, none = {}, {}
        for s in subjects(self.end):
            if s.op in ("cmp", "ltc", "eq"):
                ts = [t for t in walk(s) if t.op == "len"]
                if not ts or s.op == "eq":
                    continue
                c0, ds = lin_parts(s.a[0])
                if any(t.op != "len" for t, n in ds):
                    continue
                r = []
                for happens in (True, False):
                    tot = {0}
                    for t, n in ds:
                        st = f.after(t.a[0], happens)
                        if st is None:
                            return None, f.why
                        tot = {a + n * (1 if x[0] == "in" else 0) for a in tot for x in st}
                    r.append(tot)
                if r[1] != {0}:
                    return None, "a list changes though nothing was found"
                if not (all(x > 0 for x in r[0]) or all(x < 0 for x in r[0])):
                    return None, "a list stays the same though something was found"
                up = all(x > 0 for x in r[0])
                if s.op == "cmp" and c0 == 0:
                    some[s], none[s] = I(1 if up else -1), I0
                elif s.op == "ltc":
                    none[s] = I1 if 0 < s.a[1] - c0 else I0
                    # at least one
                    if up and not (1 < s.a[1] - c0):
                        some[s] = I0
                    if not up and -1 < s.a[1] - c0:
                        some[s] = I1
            elif s.op == "mu" and not s.a[2]:
                st, sn = f.after(s, True), f.after(s, False)
                if st is None or sn is None:
                    return None, f.why
                if len(st) == 1 and len(sn) == 1 and list(st)[0][0] == "int" and list(sn)[0][0] == "int":
                    some[s], none[s] = I(list(st)[0][1]), I(list(sn)[0][1])
        return (under(some)(self.end), under(none)(self.go)), ", ".join(show(s)[:80] for s in some)


def marked(an, lid):
    """the condition under which an element is marked by an iteration of the loop"""
    l = an.loops[lid]
    c = I0
    if l.latch is None:
        return c
    for k, v in l.latch.env.items():
        if k not in l.mods:
            continue
        v = strip(v)
        if any(x.op == "eset" for x in leaves(v)):
            c = bor(c, apply(lambda x: I1 if x.op == "eset" else I0, v))
    return c
