"""Hash-consed terms and multi-valued decision diagrams (gated values).

A value is a term.  A value that depends on control flow is a decision diagram (`md`) whose
internal nodes are subjects (terms that were branched on) and whose leaves are terms; diagrams are
kept outermost, except below aggregates, so that two programs which compute the same value under
the same tests have the same term however the tests are arranged.
"""
import sys
sys.setrecursionlimit(100000)

_tab = {}


class T(object):
    __slots__ = ("op", "a", "id", "rty", "_h")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t.rty = None
        _tab[k] = t
    return t


BOT = mk("bot")
UNIT = mk("agg", "()", "", (), ())


def I(n):
    return mk("int", n)


I0, I1 = I(0), I(1)


def S(s):
    return mk("str", s)


DOM = {}     # subject -> finite domain
ASSUME = {}  # (subject, const) -> condition that is known when the subject has that value
SIGNED = ("i8", "i16", "i32", "i64", "isize", "i128")
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64,
        "usize": 64, "isize": 64, "u128": 128, "i128": 128, "char": 32, "bool": 1}


def is_int(t):
    return t.op == "int"


class TooBig(Exception):
    pass


def _node(subj, items, default):
    """items: tuple of (const, child), no child below has a subject <= subj"""
    dom = DOM.get(subj)
    if dom is not None:
        d = dict(items)
        items = tuple((c, d.get(c, default)) for c in dom)
        default = BOT
    else:
        items = tuple(sorted(((c, x) for c, x in items if x is not default),
                             key=lambda p: (isinstance(p[0], str), p[0])))
    kids = {x for _, x in items} | {default}
    kids.discard(BOT)
    if not kids:
        return BOT
    if len(kids) == 1:
        return next(iter(kids))
    return mk("md", subj, items, default)


def cof(m, subj, c):
    """the diagram m once subj is known to be c (c=None: none of the listed values)"""
    if m.op == "md" and m.a[0] is subj:
        if c is not None:
            for k, x in m.a[1]:
                if k == c:
                    return x
        return m.a[2]
    return m


def _consts(ms, subj):
    dom = DOM.get(subj)
    if dom is not None:
        return list(dom), False
    cs = []
    for m in ms:
        if m.op == "md" and m.a[0] is subj:
            for k, _ in m.a[1]:
                if k not in cs:
                    cs.append(k)
    return cs, True


def top(ms):
    s = None
    for m in ms:
        if m.op == "md" and (s is None or m.a[0].id < s.id):
            s = m.a[0]
    return s


_budget = [0]


def apply(f, *ms):
    """f on leaves, pointwise"""
    memo = {}

    def rec(ms):
        for m in ms:
            if m is BOT:
                return BOT
        r = memo.get(ms)
        if r is not None:
            return r
        s = top(ms)
        if s is None:
            r = f(*ms)
        else:
            cs, open_ = _consts(ms, s)
            if len(memo) > 60000:
                raise TooBig()
            kids = [(c, rec(tuple(cof(m, s, c) for m in ms))) for c in cs]
            d = rec(tuple(cof(m, s, None) for m in ms)) if open_ else BOT
            r = case(s, kids, d)
        memo[ms] = r
        return r

    return rec(tuple(ms))


def case(subj, kids, default):
    """a diagram branching on subj, whose children are arbitrary diagrams"""
    vals = [x for _, x in kids] + [default]
    s = top(vals)
    if s is None or s.id > subj.id:
        return _node(subj, tuple(kids), default)
    if s is subj:
        cs, open_ = _consts(vals, s)
        for c, _ in kids:
            if c not in cs:
                cs.append(c)
        d = dict(kids)
        return _node(subj, tuple((c, cof(d.get(c, default), s, c)) for c in cs),
                     cof(default, s, None))
    cs, open_ = _consts(vals, s)
    return _node(s, tuple((c, case(subj, [(k, cof(x, s, c)) for k, x in kids], cof(default, s, c)))
                          for c in cs),
                 case(subj, [(k, cof(x, s, None)) for k, x in kids], cof(default, s, None))
                 if open_ else BOT)


_and_memo = {}


def band(p, q):
    if p is I1:
        return q
    if q is I1:
        return p
    if p is I0 or q is I0:
        return I0
    if p is q:
        return p
    k = (p, q) if p.id < q.id else (q, p)
    r = _and_memo.get(k)
    if r is None:
        r = _and_memo[k] = _logic(k[0], k[1], 0)
    return r


def _logic(p, q, absorb):
    memo = {}
    ab = I(absorb)
    un = I(1 - absorb)

    def rec(p, q):
        if p is ab or q is ab:
            return ab
        if p is un or p is BOT:
            return q
        if q is un or q is BOT:
            return p
        if p is q:
            return p
        r = memo.get((p, q))
        if r is None:
            s = top((p, q))
            if s is None:
                raise Exception("boolean expected: %r %r" % (p, q))
            cs, open_ = _consts((p, q), s)
            r = _node(s, tuple((c, rec(cof(p, s, c), cof(q, s, c))) for c in cs),
                      rec(cof(p, s, None), cof(q, s, None)) if open_ else BOT)
            memo[(p, q)] = r
        return r

    return rec(p, q)


def bor(p, q):
    if p is I0:
        return q
    if q is I0:
        return p
    if p is I1 or q is I1:
        return I1
    return _logic(p, q, 1)


def bnot(p):
    def f(x):
        if x.op == "int":
            return I(1 - x.a[0])
        return cond_eq(x, 0)
    return apply(f, p)


def implies(p, q):
    return band(p, bnot(q)) is I0


def cond_eq(t, c):
    """the condition that t equals the constant c"""
    def f(x):
        if x.op in ("int", "str"):
            return I1 if x.a[0] == c else I0
        if x.op == "lin" and isinstance(c, int) and len(x.a[1]) == 1 and x.a[1][0][1] in (1, -1):
            b, k = x.a[1][0]
            return cond_eq(b, (c - x.a[0]) * k)
        if x.op == "trunc" and isinstance(c, int) and not x.a[1] and not (0 <= c < (1 << x.a[0])):
            return I0
        dom = DOM.get(x)
        if dom is not None and c not in dom:
            return I0
        return _node(x, ((c, I1),), I0)
    return apply(f, t)


def select(pa, va, pb, vb):
    """va where pa holds, vb where pb holds, anything elsewhere"""
    if va is vb:
        return va
    if va.op == "agg" and vb.op == "agg" and va.a[:3] == vb.a[:3]:
        return mk("agg", va.a[0], va.a[1], va.a[2],
                  tuple(select(pa, x, pb, y) for x, y in zip(va.a[3], vb.a[3])))
    if va.op == "arr" and vb.op == "arr" and len(va.a) == len(vb.a):
        return mk("arr", *[select(pa, x, pb, y) for x, y in zip(va.a, vb.a)])
    memo = {}

    def rec(pa, pb, va, vb):
        if pa is I1 or (pb is I0 and pa is not I0):
            if pa is I1 or va is BOT:
                return va
        if pa is I0:
            if pb is I0:
                return BOT
            if pb is I1:
                return vb
        if va is BOT and pb is I1:
            return vb
        if va is vb:
            return va
        k = (pa, pb, va, vb)
        r = memo.get(k)
        if r is not None:
            return r
        ms = (pa, pb, va, vb)
        if len(memo) > 60000:
            raise TooBig()
        s = top(ms)
        if s is None:
            # pa, pb are constants or undefined here
            if pa is I0 and pb is I0:
                r = BOT
            elif pa is I1:
                r = va
            elif pb is I1:
                r = vb
            elif pa is BOT and pb is BOT:
                r = BOT
            elif pa is BOT:
                r = va if pb is I0 else vb
            else:
                r = vb
        else:
            cs, open_ = _consts(ms, s)
            r = case(s, [(c, rec(*[cof(m, s, c) for m in ms])) for c in cs],
                     rec(*[cof(m, s, None) for m in ms]) if open_ else BOT)
        memo[k] = r
        return r

    r = rec(pa, pb, va, vb)
    return merge_aggs(r)


def merge_aggs(r):
    """a diagram whose leaves all are the same constructor becomes that constructor of diagrams"""
    if r.op != "md":
        return r
    ls = [x for x in leaves(r) if x is not BOT]
    f = ls[0]
    if f.op == "agg" and f.a[3] and all(x.op == "agg" and x.a[:3] == f.a[:3] for x in ls):
        return mk("agg", f.a[0], f.a[1], f.a[2],
                  tuple(apply(lambda x, i=i: x.a[3][i], r) for i in range(len(f.a[3]))))
    return r


_leaf_memo = {}


def leaves(m):
    if m.op != "md":
        return (m,)
    r = _leaf_memo.get(m)
    if r is None:
        out = []
        seen = set()
        st = [m]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "md":
                st.append(x.a[2])
                for _, k in reversed(x.a[1]):
                    st.append(k)
            else:
                out.append(x)
        r = _leaf_memo[m] = tuple(out)
    return r


def subjects(m):
    out = []
    seen = set()
    st = [m]
    while st:
        x = st.pop()
        if x.op != "md" or x in seen:
            continue
        seen.add(x)
        if x.a[0] not in out:
            out.append(x.a[0])
        st.append(x.a[2])
        for _, k in x.a[1]:
            st.append(k)
    return out


# ---------------------------------------------------------------- integers
def lin_parts(t):
    if t.op == "int":
        return t.a[0], ()
    if t.op == "lin":
        return t.a
    return 0, ((t, 1),)


def mklin(c, d):
    d = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda p: p[0].id))
    if not d:
        return I(c)
    if c == 0 and len(d) == 1 and d[0][1] == 1:
        return d[0][0]
    return mk("lin", c, d)


def _add(x, y, k=1):
    c1, d1 = lin_parts(x)
    c2, d2 = lin_parts(y)
    d = dict(d1)
    for t, n in d2:
        d[t] = d.get(t, 0) + n * k
    return mklin(c1 + c2 * k, d)


def add(x, y):
    return apply(_add, x, y)


def sub(x, y):
    return apply(lambda a, b: _add(a, b, -1), x, y)


def scale(x, k):
    def f(a):
        c, d = lin_parts(a)
        return mklin(c * k, {t: n * k for t, n in d})
    return apply(f, x)


def mul(x, y):
    def f(a, b):
        if a.op == "int":
            a, b = b, a
        if b.op == "int":
            return scale(a, b.a[0])
        # distribute over sums
        ca, da = lin_parts(a)
        cb, db = lin_parts(b)
        r = {}
        for t, n in da:
            if cb:
                r[t] = r.get(t, 0) + n * cb
        for t, n in db:
            if ca:
                r[t] = r.get(t, 0) + n * ca
        for t, n in da:
            for u, m in db:
                p = mk("mul", *sorted((t, u), key=lambda z: z.id))
                r[p] = r.get(p, 0) + n * m
        return mklin(ca * cb, r)
    return apply(f, x, y)


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def trunc(bits, signed, x):
    def f(a):
        if a.op == "int":
            return I(wrap(a.a[0], bits, signed))
        if a.op == "trunc" and a.a[0] <= bits and (a.a[1] == signed or (not a.a[1] and a.a[0] < bits)):
            return a
        if a.op == "trunc" and a.a[0] >= bits:
            return f(a.a[2])
        if a.op == "lin":
            c, d = a.a
            nd = {}
            ch = False
            for t, k in d:
                while t.op == "trunc" and t.a[0] >= bits:
                    t = t.a[2]
                    ch = True
                if t.op == "lin" or t.op == "int":
                    c2, d2 = lin_parts(t)
                    c += c2 * k
                    for t2, k2 in d2:
                        nd[t2] = nd.get(t2, 0) + k2 * k
                    ch = True
                else:
                    nd[t] = nd.get(t, 0) + k
            c2 = wrap(c, bits, True)
            nd = {t: wrap(k, bits, True) for t, k in nd.items()}
            b = mklin(c2, nd)
            if b is not a:
                return f(b)
        if a.op in ("shr",) and a.a[1].op == "int" and rng(a) is not None and rng(a)[1] < (1 << bits) and not signed:
            return a
        return mk("trunc", bits, signed, a)
    return apply(f, x)


RANGE = {}   # term -> integer type it came with


def rng(t):
    """an upper and lower bound of t, if its type tells"""
    if t.op == "int":
        return t.a[0], t.a[0]
    if t.op == "trunc":
        return (0, (1 << t.a[0]) - 1) if not t.a[1] else (-(1 << t.a[0] - 1), (1 << t.a[0] - 1) - 1)
    if t.op == "shr" and t.a[1].op == "int":
        r = rng(t.a[0])
        return r and (r[0] >> t.a[1].a[0], r[1] >> t.a[1].a[0])
    if t.op == "rem":
        r = rng(t.a[0])
        if r and r[0] >= 0:
            m = rng(t.a[1])
            return (0, min(r[1], m[1] - 1) if m and m[0] >= 0 else r[1])
    ty = RANGE.get(t)
    if ty in BITS:
        b = BITS[ty]
        return (-(1 << b - 1), (1 << b - 1) - 1) if ty in SIGNED else (0, (1 << b) - 1)
    return None


def lin_rng(t):
    """the bounds of a sum"""
    c0, ds = lin_parts(t)
    lo = hi = c0
    for x, n in ds:
        r = rng(x)
        if r is None:
            return None
        lo, hi = lo + n * r[n < 0], hi + n * r[n > 0]
    return lo, hi


def cast_int(x, frm, to):
    fb, tb = BITS.get(frm, 64), BITS.get(to, 64)
    fs, ts = frm in SIGNED, to in SIGNED

    def f(a):
        if a.op == "int":
            return I(wrap(a.a[0], tb, ts))
        if tb >= 64 or tb > fb or (tb == fb and fs == ts):
            return a
        r = rng(a)
        lo, hi = (-(1 << tb - 1), (1 << tb - 1) - 1) if ts else (0, (1 << tb) - 1)
        if r and lo <= r[0] and r[1] <= hi:
            return a
        return trunc(tb, ts, a)
    return apply(f, x)


def fits(x, to):
    """x converted with a check: the value if it fits into `to`"""
    tb, ts = BITS[to], to in SIGNED
    lo, hi = (-(1 << tb - 1), (1 << tb - 1) - 1) if ts else (0, (1 << tb) - 1)

    def f(a):
        r = rng(a)
        if r and lo <= r[0] and r[1] <= hi:
            return I1
        if r and (r[1] < lo or r[0] > hi):
            return I0
        s = mk("fits", tb, ts, a)
        DOM[s] = (0, 1)
        return _node(s, ((0, I0), (1, I1)), BOT)
    return apply(f, x)


def binop(op, x, y, ty):
    bits, signed = BITS.get(ty, 64), ty in SIGNED

    def f(a, b):
        if a.op == "int" and b.op == "int":
            m, n = a.a[0], b.a[0]
            try:
                v = {"Div": lambda: abs(m) // abs(n) * (1 if m * n >= 0 else -1),
                     "Rem": lambda: abs(m) % abs(n) * (1 if m >= 0 else -1),
                     "BitAnd": lambda: m & n, "BitOr": lambda: m | n, "BitXor": lambda: m ^ n,
                     "Shl": lambda: wrap(m << n, bits, signed), "Shr": lambda: m >> n}[op]()
                return I(v)
            except ZeroDivisionError:
                return BOT
        if op == "Shl":
            if b.op == "int":
                r = scale(a, 1 << b.a[0])
                return trunc(bits, signed, r) if bits < 64 else r
            return mk("shl", a, b, bits)
        if op == "Shr":
            if b.op == "int" and b.a[0] == 0:
                return a
            return mk("shr", a, b)
        if op == "Div":
            if b is I1:
                return a
            if b.op == "int" and not signed and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0:
                return mk("shr", a, I(b.a[0].bit_length() - 1))
            return mk("div", a, b)
        if op == "Rem":
            if b is I1 or a is I0:
                return I0
            if b.op == "int" and not signed and b.a[0] & (b.a[0] - 1) == 0:
                return trunc(b.a[0].bit_length() - 1, False, a)
            return mk("rem", a, b)
        if a.id > b.id or a.op == "int":
            a, b = b, a
        if a.op == "int":
            a, b = b, a
        if op == "BitAnd":
            if b.op == "int":
                m = b.a[0]
                if m == 0:
                    return I0
                if m > 0 and m & (m + 1) == 0:
                    r = rng(a)
                    if r and 0 <= r[0] and r[1] <= m:
                        return a
                    return trunc(m.bit_length(), False, a)
            if a is b:
                return a
            return mk("and", a, b)
        if op == "BitOr":
            if b is I0 or a is b:
                return a
            return mk("or", a, b)
        if op == "BitXor":
            if b is I0:
                return a
            if a is b:
                return I0
            return mk("xor", a, b)
        return mk("bin" + op, a, b)
    return apply(f, x, y)


def compare(op, x, y, ty):
    """Lt, Le, Gt, Ge, Eq, Ne as a condition"""
    unsigned = ty.startswith("u") and ty in BITS

    def f(a, b):
        if a.op == "str" or b.op == "str":
            if a.op == "str" and b.op == "str":
                e = I1 if a.a[0] == b.a[0] else I0
            elif a.op == "str":
                e = cond_eq(b, a.a[0])
            else:
                e = cond_eq(a, b.a[0])
            return e if op == "Eq" else bnot(e)
        d = _add(a, b, -1)
        c0, ds = lin_parts(d)
        if not ds:
            return I1 if {"Lt": c0 < 0, "Le": c0 <= 0, "Gt": c0 > 0, "Ge": c0 >= 0,
                          "Eq": c0 == 0, "Ne": c0 != 0}[op] else I0
        if op in ("Eq", "Ne") and len(ds) == 1 and ds[0][1] in (1, -1):
            e = cond_eq(ds[0][0], -c0 * ds[0][1])
            return e if op == "Eq" else bnot(e)
        if len(ds) == 1 and ds[0][1] in (1, -1):
            # against a constant; x < c0
            k = ds[0][1]
            t = ds[0][0]
            o, c = (op, -c0) if k == 1 else ({"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), c0)
            # t o c
            r = rng(t)
            uns = unsigned or (r is not None and r[0] >= 0)
            if o == "Le":
                o, c = "Lt", c + 1
            if o == "Gt":
                o, c = "Ge", c + 1
            # t < c or t >= c
            if uns and c <= 0:
                return I0 if o == "Lt" else I1
            if uns and c == 1:
                e = cond_eq(t, 0)
                return e if o == "Lt" else bnot(e)
            s = mk("ltc", t, c)
            DOM[s] = (0, 1)
            e = _node(s, ((0, I0), (1, I1)), BOT)
            return e if o == "Lt" else bnot(e)
        # general: sign of d, normalised
        sg = 1
        if ds[0][1] < 0:
            d = scale(d, -1)
            sg = -1
        s = mk("cmp", d)
        DOM[s] = (-1, 0, 1)
        want = {"Lt": (-1,), "Le": (-1, 0), "Gt": (1,), "Ge": (0, 1), "Eq": (0,), "Ne": (-1, 1)}[op]
        r = lin_rng(d) or (-1, 1)
        return _node(s, tuple((c, I1 if c * sg in want else I0) for c in (-1, 0, 1)
                              if r[0] < 0 or c >= 0 if r[1] > 0 or c <= 0), BOT)
    return apply(f, x, y)


# ---------------------------------------------------------------- structure
def agg(name, variant, names, vals):
    return mk("agg", name, variant, tuple(names), tuple(vals))


def tup(*v):
    return agg("()", "", [str(i) for i in range(len(v))], v)


def some(x):
    return agg("std::option::Option", "Some", ["0"], [x])


NONE = agg("std::option::Option", "None", [], [])


def ok(x):
    return agg("std::result::Result", "Ok", ["0"], [x])


def err(x):
    return agg("std::result::Result", "Err", ["0"], [x])


def proj1(t, e):
    """one projection; e is a field name or ('v', variant)"""
    def f(x):
        if x.op == "agg":
            if isinstance(e, tuple):
                if e[0] == "v":
                    return x if (x.a[1] == e[1] or x.a[0] == "closure") else BOT
            elif e in x.a[2]:
                return x.a[3][x.a[2].index(e)]
            elif x.a[0] == "()" or not x.a[2]:
                return mk("fld", x, e)
            else:
                return BOT
        if x.op == "arr" and isinstance(e, tuple) and e[0] == "i":
            from flow import at
            return at(x, e[1])
        if x.op == "eset" and isinstance(e, tuple) and e[0] == "i":
            from flow import at
            return at(x, e[1])
        if x.op == "upd":
            b, p, v = x.a
            if p[0] == e:
                if len(p) == 1:
                    return v
                return mkupd(proj1(b, e), p[1:], v)
            return proj1(b, e)
        if x.op == "ld":
            r = mk("ld", x.a[0], x.a[1] + (e,), x.a[2])
            return r
        if x.op == "mu":
            return mk("mu", x.a[0], x.a[1], x.a[2] + (e,))
        if x.op in ("ptr", "guard", "box"):
            return x if e in ("0", "pointer") else mk("fld", x, e)
        return mk("fld", x, e)
    return apply(f, t)


def mkupd(b, p, v):
    if b.op == "agg":
        return withpath(b, p, v)
    return mk("upd", b, p, v)


def proj(t, path):
    for e in path:
        t = proj1(t, e)
    return t


def withpath(t, path, v):
    if not path:
        return v

    def f(x):
        e = path[0]
        if x.op == "agg":
            if isinstance(e, tuple) and e[0] == "v":
                return withpath(x, path[1:], v) if x.a[1] == e[1] else x
            if e in x.a[2]:
                i = x.a[2].index(e)
                vals = list(x.a[3])
                vals[i] = withpath(vals[i], path[1:], v)
                return mk("agg", x.a[0], x.a[1], x.a[2], tuple(vals))
        if x.op == "arr" and isinstance(e, tuple) and e[0] == "i" and e[1].op == "int":
            vals = list(x.a)
            if e[1].a[0] < len(vals):
                vals[e[1].a[0]] = withpath(vals[e[1].a[0]], path[1:], v)
                return mk("arr", *vals)
        if x.op == "upd" and x.a[1] == path:
            return mk("upd", x.a[0], path, v)
        return mk("upd", x, path, v)
    if t.op == "md" or t.op in ("agg", "arr"):
        return apply(f, t) if t.op == "md" else f(t)
    return f(t)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.a
    if d > 7:
        return "…"
    w = lambda x: show(x, d + 1)
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "bot":
        return "⊥"
    if o == "md":
        return "{%s? %s}" % (w(a[0]), "; ".join(
            ["%s:%s" % (c, w(x)) for c, x in a[1]] + ([] if a[2] is BOT else ["_:" + w(a[2])])))
    if o == "lin":
        s = "+".join(("%s*" % k if k != 1 else "") + w(x) for x, k in a[1])
        return "(%s%s)" % (s, "%+d" % a[0] if a[0] else "")
    if o == "agg":
        if a[0] == "()":
            return "(%s)" % ", ".join(map(w, a[3]))
        n = a[1] or a[0].split("::")[-1]
        if not a[2]:
            return str(n)
        return "%s(%s)" % (n, ", ".join(
            (w(v) if k.isdigit() else k + "=" + w(v)) for k, v in zip(a[2], a[3])))
    if o == "ld":
        return "%s%s@%s" % (w(a[0]), spath(a[1]), a[2])
    if o == "ptr":
        return "&%s%s" % (w(a[0]), spath(a[1]))
    if o == "elem":
        return "%s%s[%s]" % (w(a[0]), spath(a[1]), w(a[2]))
    if o == "L":
        return "L%s.%s" % (a[0], a[1])
    if o == "sym":
        return "$" + a[0]
    if o == "mu":
        return "mu%s[%s]%s" % (a[0], a[1] if not isinstance(a[1], tuple) else "%s.%s" % a[1][:2], spath(a[2]))
    if o == "fld":
        return "%s%s" % (w(a[0]), spath((a[1],)))
    if o == "iv":
        return "i%s" % (a[0],)
    if o == "more":
        return "more%s" % (a[0],)
    return "%s(%s)" % (o, ", ".join(w(x) if isinstance(x, T) else str(x) if not isinstance(x, tuple)
                                     else spath(x) if x and not isinstance(x[0], T) else "(" + ",".join(map(w, x)) + ")" for x in a))


def spath(p):
    s = ""
    for e in p:
        if isinstance(e, tuple):
            s += "<%s>" % e[1] if e[0] == "v" else "[%s]" % (e[1],)
        else:
            s += "." + str(e)
    return s


def walk(t, seen=None):
    """all subterms"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            if x not in seen:
                seen.add(x)
                yield x
                st.extend(x.a)
