"""Evaluating terms under assumptions, and comparing them by role.

`rebuild` re-applies the smart constructors of terms.py bottom up after replacing subterms, so that a
condition or a value can be specialised to a scenario (a relocation type, a kind of symbol, the name
of an option, ...): everything the scenario decides disappears, what remains is what the code makes
depend on something else.
"""
from terms import *
import terms
from flow import VARIANTS, at, vlen


def copydom(new, old):
    if new is old or new.op in ("int", "str", "md", "agg"):
        return
    if old in DOM and new not in DOM:
        DOM[new] = DOM[old]
    if old in VARIANTS and new not in VARIANTS:
        VARIANTS[new] = VARIANTS[old]
    if old in RANGE and new not in RANGE:
        RANGE[new] = RANGE[old]


class Rebuild(object):
    """replace: term -> term or None (asked top down); fix: rebuilt term -> term or None"""

    def __init__(self, replace=None, fix=None):
        self.replace = replace
        self.fix = fix
        self.memo = {}

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.replace(t) if self.replace else None
            if r is None:
                r = self.build(t)
                if self.fix:
                    f = self.fix(r)
                    if f is not None:
                        r = f
            copydom(r, t)
            self.memo[t] = r
        return r

    def build(self, t):
        o, a = t.op, t.a
        if o in ("int", "str", "bot", "sym"):
            return t
        if o == "md":
            s = self(a[0])
            if s is BOT:
                return BOT
            if s.op in ("int", "str"):
                for c, x in a[1]:
                    if c == s.a[0]:
                        return self(x)
                return self(a[2]) if a[2] is not BOT or a[0] not in DOM else BOT
            kids = [(c, self(x)) for c, x in a[1]]
            d = self(a[2])
            if s.op == "md":
                out = BOT
                return self.pick(s, kids, d)
            if s.op == "agg" or s.op == "ptr":
                return BOT
            return case(s, kids, d)
        if o == "lin":
            r = I(a[0])
            for x, k in a[1]:
                r = add(r, scale(self(x), k))
            return r
        if o == "mul":
            return mul(self(a[0]), self(a[1]))
        if o == "trunc":
            return trunc(a[0], a[1], self(a[2]))
        if o in ("shr", "div", "rem", "and", "or", "xor"):
            x, y = self(a[0]), self(a[1])
            return binop({"shr": "Shr", "div": "Div", "rem": "Rem", "and": "BitAnd", "or": "BitOr",
                          "xor": "BitXor"}[o], x, y, "u64")
        if o == "shl":
            x, y = self(a[0]), self(a[1])
            ty = {v: k for k, v in BITS.items() if k[0] == "u"}.get(a[2], "u64")
            return binop("Shl", x, y, ty)
        if o == "ltc":
            return apply(lambda x: self.ltc(x, a[1]), self(a[0]))
        if o == "cmp":
            return apply(self.cmp, self(a[0]))
        if o == "fits":
            return apply(lambda x: self.fits(x, a[0], a[1]), self(a[2]))
        if o == "discr":
            names = VARIANTS.get(t)

            def f(x):
                if x.op == "agg" and names:
                    for d, n in names.items():
                        if n == x.a[1]:
                            return I(d)
                s = mk("discr", x)
                copydom(s, t)
                return s
            return apply(f, self(a[0]))
        if o == "agg":
            return mk("agg", a[0], a[1], a[2], tuple(self(x) for x in a[3]))
        if o == "fld":
            return proj1(self(a[0]), self(a[1]) if isinstance(a[1], T) else a[1])
        if o == "at":
            return at(self(a[0]), self(a[1]))
        if o == "len":
            return vlen(self(a[0]))
        if o in ("has", "starts", "ends", "eq"):
            x, y = self(a[0]), self(a[1])

            def g(p, q):
                if p.op == "str" and q.op == "str":
                    if o == "starts":
                        return I(int(p.a[0].startswith(q.a[0])))
                    if o == "ends":
                        return I(int(p.a[0].endswith(q.a[0])))
                    if o == "eq":
                        return I(int(p is q))
                s = mk(o, p, q, *[self(z) for z in a[2:]])
                copydom(s, t)
                return s
            return apply(g, x, y)
        if o in ("ld", "ptr"):
            return mk(o, self(a[0]), self(a[1]), *a[2:])
        new = tuple(self(x) for x in a)
        return mk(o, *new)

    def pick(self, s, kids, d):
        """branch on the leaves of the diagram s"""
        ks = dict(kids)
        rest = [x for x in leaves(s) if x.op not in ("int", "str", "bot")]
        out = None

        def f(x):
            if x.op in ("int", "str"):
                return ks.get(x.a[0], d)
            return case(x, kids, d)

        memo = {}

        def rec(m):
            r = memo.get(m)
            if r is None:
                if m is BOT:
                    r = BOT
                elif m.op == "md":
                    r = case(m.a[0], [(c, rec(x)) for c, x in m.a[1]], rec(m.a[2]))
                else:
                    r = f(m)
                memo[m] = r
            return r
        return rec(s)

    def ltc(self, x, c):
        if x.op == "int":
            return I(int(x.a[0] < c))
        r = rng(x)
        if r:
            if r[1] < c:
                return I1
            if r[0] >= c:
                return I0
        if x.op == "lin":
            e = compare("Lt", x, I(c), "u64" if (rng(x) or (0, 0))[0] >= 0 else "i64")
            return e
        s = mk("ltc", x, c)
        DOM[s] = (0, 1)
        return s

    def cmp(self, d):
        c0, ds = lin_parts(d)
        if not ds:
            return I((c0 > 0) - (c0 < 0))
        sg = -1 if ds[0][1] < 0 else 1
        d = scale(d, sg)
        s = mk("cmp", d)
        DOM[s] = (-1, 0, 1)
        r = lin_rng(d)
        if r and (r[0] > 0 or r[1] < 0):
            return I(sg if r[0] > 0 else -sg)
        if r and (r[0] >= 0 or r[1] <= 0):
            return terms._node(s, tuple((c, I(sg * c)) for c in (-1, 0, 1) if r[0] < 0 or c >= 0 if r[1] > 0 or c <= 0), BOT)
        return s if sg > 0 else terms._node(s, ((-1, I1), (0, I0), (1, I(-1))), BOT)

    def fits(self, x, b, s):
        return fits(x, ("i" if s else "u") + str(b))


def strip(t):
    """forget which version of the memory a value was read from"""
    return STRIP(t)


def _strip_replace(t):
    if t.op == "ld" and t.a[2] != 0:
        return STRIP(mk("ld", t.a[0], t.a[1], 0))
    return None


STRIP = Rebuild(_strip_replace)


def strip_reset():
    STRIP.memo.clear()


def under(env):
    """a specialiser: env maps terms to terms, after versions are stripped"""
    def rep(t):
        return env.get(t)
    return Rebuild(rep)


def subterms(t, op=None):
    return [x for x in walk(t) if op is None or x.op == op]


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def path_names(p):
    """the field names on a path"""
    return tuple(e[1] if isinstance(e, tuple) and e[0] == "v" else e for e in p
                 if not (isinstance(e, tuple) and e[0] == "i"))


def base_of(t):
    """root object and the whole path of fields that leads to t"""
    p = ()
    while True:
        if t.op in ("ld", "ptr"):
            p = path_names(t.a[1]) + p
            t = t.a[0]
        elif t.op == "elem":
            p = path_names(t.a[1]) + ("[]",) + p
            t = t.a[0]
        elif t.op == "fld":
            p = path_names((t.a[1],)) + p
            t = t.a[0]
        elif t.op == "at":
            p = ("[]",) + p
            t = t.a[0]
        elif t.op == "guard":
            t = t.a[2]
        elif t.op == "slice":
            p = path_names(t.a[1]) + p
            t = t.a[0]
        elif t.op == "mu" and len(t.a) > 2 and t.a[2]:
            p = path_names(t.a[2]) + p
            t = mk("mu", t.a[0], t.a[1], ())
        else:
            return t, p


def vals(m):
    """the values a diagram can have"""
    return [x for x in leaves(m) if x is not BOT]


class Domain(object):
    """what one loop goes through: iters are (index term, shape), shape being
    ('each', root, names, start) | ('range', from, to) | ('partial', why) | ('chain', a, b) ..."""

    def __init__(self, lid):
        self.id = lid
        self.iters = []
        self.guards = {}      # guard -> its value while the loop goes on
        self.early = []
        self.rev = False      # from the end to the start

    def whole(self):
        """all elements of one container: its names, else None"""
        if len(self.iters) != 1 or self.early:
            return None
        s = self.iters[0][1]
        return s if s[0] == "each" else None


def shape_of(an, d):
    k = d.a[0]
    if k == "ref":
        root, path, frm, to = d.a[1:]
        if to is not None or frm.op != "int":
            return ("partial", "slice")
        b, n = base_of(mk("ptr", root, path))
        return ("each", b, n, frm.a[0])
    if k == "map" and len(d.a) > 3:
        b, n = base_of(mk("ptr", d.a[1], d.a[2]))
        return ("each", b, n, 0)
    if k in ("val", "mapval", "seq"):
        b, n = base_of(d.a[1])
        return ("each", b, n, 0)
    if k in ("copied", "enumerate", "map", "filter", "filter_map", "rev"):
        return shape_of(an, d.a[1])
    if k == "skip":
        s = shape_of(an, d.a[1])
        if s[0] == "each" and d.a[2].op == "int":
            return s[:3] + (s[3] + d.a[2].a[0],)
        return ("partial", "skip")
    if k == "range":
        return ("range", d.a[1], d.a[2])
    if k == "chain":
        return ("chain", shape_of(an, d.a[1]), shape_of(an, d.a[2]))
    if k == "opt":
        return ("opt", d.a[1])
    return ("partial", k)


def backwards(d):
    if d.op != "it":
        return False
    k = d.a[0]
    if k == "rev":
        return not backwards(d.a[1])
    if k == "chain":
        return backwards(d.a[1]) or backwards(d.a[2])
    return any(backwards(x) for x in d.a[1:2] if isinstance(x, T))


def lenof(t):
    """the container t is the length of, as (root, names)"""
    if t.op == "len":
        return base_of(t.a[0])
    return None


def domain(an, lid):
    l = an.loops[lid]
    d = Domain(lid)
    for site, it in l.iters:
        ix = mk("iv", site, it)
        g = mk("more", site, it)
        s = shape_of(an, it)
        d.rev = d.rev or backwards(it)
        if s[0] == "range" and s[1].op == "int":
            c0, ds = lin_parts(strip(s[2]))
            if len(ds) == 1 and ds[0][1] == 1 and c0 == 0 and lenof(ds[0][0]):
                b, n = lenof(ds[0][0])
                s = ("each", b, n, s[1].a[0])
        d.iters.append((ix, s))
        d.guards[g] = I1
    if not l.iters and l.kind == "mir":
        c = counter(an, l)
        if c:
            ix, guard, gv, (b, n), start = c
            d.iters.append((ix, ("each", b, n, start)))
            d.guards[guard] = gv
    for x in l.exits:
        pc = x[1]
        c = pc
        for g, v in d.guards.items():
            c = band(c, cond_eq(g, v.a[0]))
        if c is not I0 or not d.guards:
            d.early.append(pc)
    return d


def counter(an, l):
    """a loop which counts a variable up to the length of a container"""
    if l.latch is None:
        return None
    for k, c, tgt, s in l.exits:
        for g in subjects(c):
            if g.op not in ("ltc", "cmp"):
                continue
            c0, ds = lin_parts(g.a[0])
            mus = [(t, n) for t, n in ds if t.op == "mu" and t.a[0] == l.id]
            lens = [(t, n) for t, n in ds if lenof(t)]
            if len(ds) == 2 and len(mus) == 1 and len(lens) == 1 and abs(mus[0][1]) == 1 and lens[0][1] == -mus[0][1] \
                    and c0 == 0:
                if g.op == "ltc" and (g.a[1] != 0 or mus[0][1] != 1):
                    continue
                mu = mus[0][0]
                gv = I1 if g.op == "ltc" else I(-mus[0][1])
                if band(c, cond_eq(g, gv.a[0])) is not I0:
                    continue
                key = mu.a[1]
                init, nxt = l.init.env.get(key), l.latch.env.get(key)
                if init is not None and init.op == "int" and nxt is not None and sub(nxt, mu) is I1:
                    return mu, g, gv, lenof(strip(lens[0][0])), init.a[0]
    return None


def going_env(an, loops):
    env = {}
    for l in loops:
        env.update(domain(an, l).guards)
    return env


def entry_cond(an, l, upto):
    """the condition under which loop l is entered, seen from the body of loop `upto` (or the root)"""
    c = l.init.pc
    for f in reversed(l.frames):
        if f[0] == "loop":
            if f[1] == upto:
                return c
            c = band(c, f[2])
        else:
            c = band(c, f[2])
    return c


def parent(l):
    for f in reversed(l.frames):
        if f[0] == "loop":
            return f[1]
    return None


def is_failure(v):
    """a Result that is certainly an error (or no value at all)"""
    for x in leaves(v):
        if x is BOT:
            continue
        if x.op == "agg" and x.a[1] == "Err":
            continue
        return False
    return True


def ret_fails(an, cond):
    """the root returns an error whenever cond holds"""
    if cond is I0:
        return True
    if an.ret is None:
        return True
    v = apply(lambda c, r: r if c is I1 else BOT, cond, an.ret)
    return is_failure(v)


def exit_fails(an, lid, cond):
    """leaving loop lid while cond holds (a condition within its body) makes the root fail"""
    l = an.loops[lid]
    for n, x in enumerate(l.exits):
        if band(x[1], cond) is I0:
            continue
        if not exit_k_fails(an, lid, n):
            return False
    return True


def exit_k_fails(an, lid, n):
    key = ("xf", lid, n)
    memo = an.__dict__.setdefault("memo", {})
    if key in memo:
        return memo[key]
    memo[key] = False
    l = an.loops[lid]
    subj = mk("exit", lid)
    sp = under({subj: I(n)}) if len(l.exits) > 1 else (lambda t: t)
    up = parent(l)
    c = sp(entry_cond(an, l, up))
    if up is None:
        v = sp(an.ret) if an.ret is not None else BOT
        r = is_failure(apply(lambda p, q: q if p is I1 else BOT, c, v))
    else:
        pl = an.loops[up]
        latch = pl.latch.pc if pl.latch is not None else I0
        r = band(sp(latch), c) is I0
        if r:
            for k, x in enumerate(pl.exits):
                if band(sp(x[1]), c) is not I0 and not exit_k_fails(an, up, k):
                    r = False
                    break
    memo[key] = r
    return r


def all_of(an, lid):
    """like whole(), where the loop may also be left by failing"""
    d = domain(an, lid)
    if len(d.iters) != 1 or d.iters[0][1][0] != "each" or not d.guards:
        return None
    u = under(d.guards)
    for n, x in enumerate(an.loops[lid].exits):
        if u(x[1]) is not I0 and not exit_k_fails(an, lid, n):
            return None
    return d.iters[0][1]


def event_cond_fails(an, loops, cond):
    """an iteration of the innermost loop in which cond holds makes the root fail (by an error)"""
    l = an.loops[loops[-1]]
    latch = l.latch.pc if l.latch is not None else I0
    return band(latch, cond) is I0 and exit_fails(an, l.id, cond)


def leads_to_failure(an, e, cond):
    """whenever cond holds right after event e, the root returns an error or panics"""
    full = band(e.full(), cond)
    if full is I0:
        return True
    rest = cond_at(e, cond)
    for p in an.events:
        if p.kind == "panic" and p.seq > e.seq - (e.kind == "result") and p.loops[:len(e.loops)] == e.loops and p.full() is not I0:
            if p.loops == e.loops:
                rest = band(rest, bnot(rel(p, e)))
                if rest is I0:
                    return True
    if e.loops:
        return event_cond_fails(an, e.loops, rest)
    return ret_fails(an, rest)


def rel(p, e):
    """the condition of p within the innermost loop of e"""
    return p.cond(e.loops[-1]) if e.loops else p.full()


def cond_at(e, cond):
    return band(e.cond(e.loops[-1]), cond) if e.loops else band(e.full(), cond)


BITWISE = ("and", "or", "xor", "not", "trunc", "shl", "shr")


def low_bits(v, x, low):
    """what the lower 32 bits of v are, if those of x are `low`: v is made of x by operations on bits, each of which comes
    from one of x, so all ones and all zeros in the upper half stand for the rest"""
    for t in walk(v):
        if t is not x and t.op not in BITWISE and t.op != "int":
            return None
    r = set()
    for hi in (0, 0xffffffff):
        w = Rebuild(lambda t: I(hi << 32 | low) if t is x else None)(v)
        r.add(w.a[0] & 0xffffffff if w.op == "int" else None)
    return r.pop() if len(r) == 1 else None
