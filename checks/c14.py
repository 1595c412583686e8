"""The recurrence of each hash function is extracted from the loop over the name and its transfer function compared with
the ABI's. The loops that fill the two tables are reduced to what they do to a bucket, a chain and a word of the
filter for one symbol; the collection they go through is the one that is emitted, and its order is compared with what
the chains need."""
TECHNIQUE = "extraction of loop transfer functions from MIR by dataflow analysis, inductive chain and bucket rules"
NOTE = "The tables' bytes: C01. That the null symbol comes first: C29. Uniqueness of names: C06, C13."

from terms import *
from query import *
from roles import *
from order import *
from slots import writer_path

M32 = (1 << 32) - 1


def run(ctx, rep):
    rep.rule("a symbol's hash values are the ABI's functions of its name, each in its own field")
    rep.rule("each symbol after the null symbol is put in the bucket of its hash, its chain keeps what was there")
    rep.rule("GNU: chains hold the hashes, with the last bit set exactly at the end of a bucket; the filter admits every symbol")
    rep.rule("the sizes in the header are those of the tables; both are made from the order that is emitted, which groups buckets")
    names(ctx, rep)
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    first = None
    for t, check in (("HashTable", sysv), ("GnuHashTable", gnu)):
        fields, evs = table(an, t)
        if not rep.need("filling of the %s" % t, fields):
            continue
        w = evs[0].where()
        rep.ob("%s: is filled whenever it is there" % t, all(only_presence(e) for e in evs), show(evs[0].full())[:200], w)
        rep.ob("%s: is filled once" % t, len(evs) in (1, len(fields)), str(len(evs)), w)
        last = max(e.seq for e in evs)
        first = last if first is None else min(first, min(e.seq for e in evs))
        outs = [e.seq for e in an.events if e.kind == "emit" and t in str(writer_tail(e)) and e.loops and
                any(s[0] == "each" and s[2][-1:] == ("sections",) for ix, s in domain(an, e.loops[0]).iters)]
        if rep.need("emission of the %s" % t, outs):
            rep.ob("%s: is filled before it is emitted" % t, last < min(outs), "", w)
        s = Table(an, rep, t, fields, w)
        if s.coll is None:
            rep.ob("%s: is made from the symbols" % t, False, "no collection", w)
            continue
        check(rep, s)
        order(ctx, rep, s)
    if first is not None:
        later(rep, an, first)


def writer_tail(e):
    return [base_of(x)[1] for x in walk(e.d[4]) if x.op in ("ld", "at")] if len(e.d) > 4 and isinstance(e.d[4], T) else []


def only_presence(e):
    c = strip(e.full())
    r = Rebuild(lambda t: I1 if t.op == "discr" else None)(c)
    return r is I1 and all(x.op == "discr" and base_of(x.a[0])[1][-1:] in (("hash_section",), ("gnu_hash_section",))
                           for x in subjects(c))


def table(an, t):
    """{field: value} of the table as it is stored, and the events"""
    out, evs = {}, []
    for e in an.events:
        if e.kind != "store" or not isinstance(e.d[2], T):
            continue
        v = e.d[2]
        p = writer_path(*e.d[:2])
        if v.op == "agg" and v.a[0].split("::")[-1] == t and t in p:
            out = dict(zip(v.a[2], v.a[3]))
            evs.append(e)
        elif len(p) > 2 and p[-3] == t:
            out[p[-1]] = v
            evs.append(e)
    return out, evs


# ---- the hash functions

def sysv_step(h, b):
    h = ((h << 4) + b) & M32
    g = h & 0xf0000000
    if g:
        h ^= g >> 24
    return h & ~g & M32


def gnu_step(h, b):
    return (h * 33 + b) & M32


GRID = sorted(set([0, M32, 5381, 0x12345678, 0x0fedcba9, 0x07777777] + [1 << k for k in range(32)] +
                  [(1 << k) - 1 for k in range(32)] + [0x9e3779b9 * k & M32 for k in range(1, 24)]))
BYTES = [0, 1, 15, 16, 65, 95, 97, 127, 128, 200, 255]


def names(ctx, rep):
    fs = ctx.find("lib", r"Writer.*::add_dyn_symbol$")
    if not rep.need("Writer::add_dyn_symbol", fs):
        return
    an = ctx.run("lib", fs[0])
    rep.an(an)
    syms, text = [], set()
    for e in an.events:
        if e.kind == "minsert":
            p = writer_path(*e.d[:2])
            if p[-1:] == ("symbols",) and "SymbolTable" in p:
                syms.append((e, strip(e.d[3])))
            elif p[-1:] == ("names",):
                text |= set(base_of(x)[0] for x in walk(strip(e.d[2])) if x.op in ("sym", "ld"))
    if not rep.need("insertion of a dynamic symbol", syms) or not rep.need("name of a dynamic symbol", text):
        return
    for e, v in syms:
        w = e.where()
        for field, init, step, keep in (("hash", 0, sysv_step, 28), ("gnu_hash", 5381, gnu_step, 32)):
            h = untr(proj1(v, field)) if v.op == "agg" else BOT
            if not rep.ob("%s: is computed by one loop" % field, h.op == "mu" and h.a[0] in an.loops and
                          an.loops[h.a[0]].latch is not None, show(h)[:200], w):
                continue
            l = an.loops[h.a[0]]
            d = domain(an, h.a[0])
            ok = len(d.iters) == 1 and not d.early and not d.rev and d.iters[0][1][0] == "each" and d.iters[0][1][3] == 0
            of = d.iters[0][1][1] if d.iters else None
            if isinstance(of, T) and of.op in ("p:str::bytes", "p:str::as_bytes"):
                of = of.a[0]
            root = base_of(strip(of.a[0] if isinstance(of, T) and of.op in ("const", "slice") else of))[0] if d.iters else None
            rep.ob("%s: goes through the bytes of the name" % field, ok and root in text,
                   "%s, name: %s" % (d.iters, [show(x) for x in text]), w)
            if not ok:
                continue
            i0 = l.init.env.get(h.a[1])
            rep.ob("%s: initial value" % field, i0 is I(init), show(i0) if i0 is not None else "?", w)
            nxt = strip(l.latch.env[h.a[1]])
            ix = d.iters[0][0]
            bad = n = 0
            for x in GRID:
                if x >> keep:
                    continue
                for b in BYTES:
                    n += 1
                    r = conc(nxt, h, ix, x, b)
                    if r.op != "int" or r.a[0] & M32 != step(x, b):
                        bad += 1
                        what = "from %#x by %d: %s instead of %#x" % (x, b, show(r)[:60], step(x, b))
            rep.ob("%s: each byte is added as the ABI says" % field, bad == 0, what if bad else "%d points" % n, w)
            over = []
            for a in an.events:
                if a.kind == "assert" and a.loops and a.loops[-1] == h.a[0] and len(a.d) > 4 and str(a.d[0])[:8] == "overflow":
                    op, p, q, ty = a.d[3:7]
                    bits = {"u32": 32, "u64": 64, "usize": 64, "u16": 16, "u8": 8}.get(ty.a[0])
                    for x in GRID:
                        if x >> keep:
                            continue
                        p1, q1 = conc(strip(p), h, ix, x, 255), conc(strip(q), h, ix, x, 255)
                        if p1.op != "int" or q1.op != "int":
                            continue
                        r = {"Add": p1.a[0] + q1.a[0], "Sub": p1.a[0] - q1.a[0], "Mul": p1.a[0] * q1.a[0]}[op.a[0]]
                        if bits and not 0 <= r < 1 << bits:
                            over.append(a.where())
                            break
            rep.ob("%s: no name overflows" % field, not over, "", over[0] if over else w)


def conc(t, h, ix, x, b):
    def f(s):
        if s is h:
            return I(x)
        if s.op == "at" and s.a[1] is ix or s.op == "ld" and mentions(s, lambda y: y is ix):
            return I(b)
        return None
    return Rebuild(f)(t)


def untr(v):
    v = strip(v)
    while v.op == "trunc" and v.a[0] >= 32:
        v = v.a[2]
    return v


# ---- the tables

class Table(object):
    """the terms of one table, with the symbols' hashes as role H(field, index) and the number of symbols as LEN"""

    def __init__(self, an, rep, t, fields, where):
        self.an, self.rep, self.t, self.where = an, rep, t, where
        self.fields = {k: strip(v) for k, v in fields.items()}
        self.coll = None
        for n in ("buckets", "chains"):
            v = self.fields.get(n, BOT)
            if v.op == "mu" and v.a[0] in an.loops:
                for c in self.colls(v.a[0]):
                    self.coll = self.coll or c
        self.srcs = []
        c = self.coll
        while c is not None:
            self.srcs.append(c)
            c = c.a[0] if c.op == "vsorted" else None
        self.norm = Rebuild(self._rep)

    def colls(self, lid):
        """what the elements' hashes in a loop are read from, and its domain"""
        l, out = self.an.loops[lid], []
        for v in l.latch.env.values() if l.latch is not None else ():
            for x in walk(v):
                if x.op == "ld" and x.a[1] and x.a[1][-1] in ("hash", "gnu_hash"):
                    b = x.a[0]
                    while b.op in ("ptr", "ld") and not b.a[1]:
                        b = b.a[0]
                    if b.op == "at" and strip(b.a[0]) not in out:
                        out.append(strip(b.a[0]))
        return out

    def _rep(self, t):
        if t.op in ("ld", "fld") and t.a[1] and t.a[1][-1] in ("hash", "gnu_hash") and len(t.a[1]) == 1:
            b = strip(t.a[0])
            while b.op in ("ptr", "ld") and not b.a[1]:
                b = b.a[0]
            if b.op == "at" and strip(b.a[0]) is self.coll:
                r = mk("H", t.a[1][-1], self.norm(b.a[1]))
                RANGE[r] = "u32"
                return r
        if t.op == "len" and strip(t.a[0]) in self.srcs:
            RANGE[LEN] = "usize"
            return LEN
        if t.op == "mu" and t in self.sizes():
            return None
        if t.op == "len" and t.a[0].op == "mu" and t.a[0] in self.sizes():
            return self.sizes()[t.a[0]]
        return None

    _sizes = None

    def sizes(self):
        """vectors made with a fixed length: {vector: length}"""
        if self._sizes is None:
            self._sizes = {}
            for n, v in self.fields.items():
                if v.op == "mu":
                    i = self.an.loops[v.a[0]].init.env.get(v.a[1], BOT)
                    i = strip(i)
                    if i.op == "vrep":
                        self._sizes[v] = self.norm(i.a[1])
                    elif self.grows(v, i):
                        self._sizes[v] = sub(LEN, I(domain(self.an, v.a[0]).iters[0][1][3]))
        return self._sizes

    def grows(self, v, i):
        """a vector to which one element is added for each symbol, from none on"""
        l = self.an.loops[v.a[0]]
        if l.latch is None or not (i.op == "arr" and not i.a):
            return False
        d = domain(self.an, v.a[0])
        if len(d.iters) != 1 or d.early or d.rev or d.iters[0][1][0] != "each":
            return False
        x = strip(l.latch.env[v.a[1]])
        return all(y.op == "vpush" and y.a[0] is v for y in vals(x))

    def filled(self, n):
        """(loop, value before, value after one symbol, initial element, number of elements, index of the loop)"""
        v = self.fields.get(n, BOT)
        ok = v.op == "mu" and v.a[0] in self.an.loops and self.an.loops[v.a[0]].latch is not None
        i = strip(self.an.loops[v.a[0]].init.env.get(v.a[1], BOT)) if ok else BOT
        grows = ok and self.grows(v, i)
        ok = ok and (i.op == "vrep" and strip(i.a[0]) is I0 or grows)
        if not self.ob("%s start as zeros and are filled by one loop" % n, ok, show(v)[:200]):
            return None
        l = self.an.loops[v.a[0]]
        d = domain(self.an, v.a[0])
        ok = len(d.iters) == 1 and not d.early and d.iters[0][1][0] == "each"
        start = None
        if ok:
            s = d.iters[0][1]
            root = s[1]
            if root.op == "L":
                root = strip(l.init.env.get(root.a, root))
            ok = not s[2] and root in self.srcs and root is self.coll
            start = s[3]
        elif len(d.iters) == 1 and not d.early and d.iters[0][1][0] == "range":
            s = d.iters[0][1]
            ok = s[1].op == "int" and self.norm(strip(s[2])) is LEN
            start = s[1].a[0] if ok else None
        self.ob("%s: every symbol but the null one is looked at" % n, ok and start in (0, 1), str(d.iters)[:300])
        if not ok:
            return None
        new = strip(l.latch.env[v.a[1]])
        if grows:
            ix = d.iters[0][0]
            new = Rebuild(lambda t: mk("eset", v, ix, t.a[1]) if t.op == "vpush" and t.a[0] is v else None)(new)
        return l, v, self.norm(new), sub(LEN, I(start)) if grows else self.norm(i.a[1]), d.iters[0][0], d.rev, start

    def ob(self, key, ok, detail=""):
        return self.rep.ob("%s: %s" % (self.t, key), ok, detail, self.where)

    def index(self, t, which):
        """the index of the symbol whose hash is used"""
        hs = set(x for x in walk(t) if x.op == "H")
        self.ob("the right hash is used", all(h.a[0] == which for h in hs), str([show(h) for h in hs])[:200])
        return hs


LEN = mk("role", "LEN")


def values(t, env):
    return Rebuild(lambda s: env.get(s))(t)


def same(a, b, atoms, pts):
    """two terms agree on all points"""
    for p in pts:
        env = dict(zip(atoms, [I(x) for x in p]))
        x, y = values(a, env), values(b, env)
        if x.op != "int" or x is not y:
            return False
    return True


def untrunc(t):
    while t.op == "trunc" and t.a[0] >= 32:
        t = t.a[2]
    return t


def sizes_agree(s, n, count, size):
    v = s.norm(s.fields.get(count, BOT))
    ok = True
    for k in (1, 2, 3, 7, 8, 9, 100, 1000):
        a, b = values(untrunc(v), {LEN: I(k)}), values(untrunc(size), {LEN: I(k)})
        if a is not b:
            if b.op != "int" and a.op != "int":
                ok = ok and untrunc(a) is untrunc(b)
            else:
                ok = False
    s.ob("%s is the number of %s" % (count, n), ok, "%s against %s" % (show(v)[:100], show(size)[:100]))


def sample(t, k, default=1 << 3):
    """t as a number, for k symbols"""
    v = values(untrunc(t), {LEN: I(k)})
    return v.a[0] if v.op == "int" else None


def element(s, n, hs, ix, start, rev):
    """the index of the symbol at hand"""
    now = [h for h in hs if sub_is(h.a[1], ix)]
    lows = sorted(lin_parts(h.a[1])[0] for h in now)
    if not s.ob("%s: of the symbol at hand" % n, bool(now) and len(now) == len(hs), str([show(h) for h in hs])[:200]):
        return None
    return [h for h in now if lin_parts(h.a[1])[0] == lows[0]][0]


def sub_is(t, ix):
    c, ds = lin_parts(t)
    return len(ds) == 1 and ds[0] == (ix, 1)


HS = [0, 1, 2, 7, 63, 64, 65, 4095, 0x12345678, 0x80000000, 0x9e3779b9, 0xfffffffe, 0xffffffff]


def bucket_ok(s, n, term, h, size):
    """term is H mod the number of buckets"""
    ok = True
    for k in (1, 2, 3, 9, 40, 1000):
        m = sample(size, k)
        if m is None or m < 1:
            ok = False
            continue
        for x in HS:
            v = values(term, {LEN: I(k), h: I(x)})
            ok = ok and v.op == "int" and v.a[0] == x % m
    s.ob("%s: of the hash modulo their number" % n, ok, "%s of %s" % (show(term)[:150], show(size)[:80]))
    return ok


def when(t, sel, zero):
    """leaves of t under the assumption that sel is (not) zero"""
    out = []

    def rec(m):
        if m.op == "md" and m.a[0] is sel:
            for c, x in m.a[1]:
                if (c == 0) == zero:
                    rec(x)
            if len(m.a) > 2 and m.a[2] is not BOT and not (zero and any(c == 0 for c, _ in m.a[1])):
                rec(m.a[2])
            return
        if m.op == "md":
            for c, x in m.a[1]:
                rec(x)
            if len(m.a) > 2 and m.a[2] is not BOT:
                rec(m.a[2])
            return
        out.append(m)
    rec(t)
    return out


def sysv(rep, s):
    B, C = s.filled("buckets"), s.filled("chains")
    if not B or not C:
        return
    if not s.ob("buckets and chains are filled together", B[0] is C[0], ""):
        return
    l, vb, nb, size, ix, rev, start = B
    _, vc, nc, csize, _, _, _ = C
    sizes_agree(s, "buckets", "nbuckets", size)
    sizes_agree(s, "chains", "nchains", csize)
    s.ob("one chain for each symbol", untrunc(csize) is LEN, show(csize))
    h = element(s, "buckets", s.index(nb, "hash"), ix, start, rev)
    if h is None:
        return
    i = h.a[1]
    sets = [x for x in walk(nb) if x.op == "eset"]
    ats = set(x for x in list(walk(nb)) + list(walk(nc)) if x.op == "at" and x.a[0] is vb)
    if not s.ob("one bucket is used", len(ats) <= 1 and len(set(x.a[1] for x in sets)) == 1, str(len(ats))):
        return
    b = sets[0].a[1]
    if not bucket_ok(s, "buckets", b, h, size):
        return
    old = mk("at", vb, b)
    # an empty bucket
    zb, zc = when(nb, old, True), when(nc, old, True)
    s.ob("the first symbol of a bucket is put in it", bool(zb) and all(is_set(x, vb, b, i) for x in zb), shows(zb))
    s.ob("the first symbol of a bucket ends the chain", bool(zc) and all(
        x is vc or is_set(x, vc, i, old) or is_set(x, vc, i, I0) for x in zc), shows(zc))
    # a used bucket
    ub, uc = when(nb, old, False), when(nc, old, False)
    if all(is_set(x, vb, b, i) for x in ub):
        s.ob("a further symbol goes before the others", bool(uc) and all(is_set(x, vc, i, old) for x in uc), shows(uc))
        return
    s.ob("a used bucket stays", bool(ub) and all(x is vb for x in ub), shows(ub))
    ok = bool(uc)
    for x in uc:
        ok = ok and x.op == "eset" and x.a[0] is vc and untrunc(x.a[2]) is i and chain_end(s, vc, old, x.a[1])
    s.ob("a further symbol goes to the end of the chain", ok, shows(uc))


def shows(xs):
    return "; ".join(show(x)[:150] for x in xs[:3])


def is_set(x, v, i, val):
    return x.op == "eset" and x.a[0] is v and x.a[1] is i and untrunc(x.a[2]) is untrunc(val)


def chain_end(s, vc, head, c):
    """c is reached from the head through the chains, and its chain is zero"""
    if c.op != "mu" or c.a[0] not in s.an.loops:
        return False
    l = s.an.loops[c.a[0]]
    if l.latch is None:
        return False
    mus = {}
    for k, v in l.latch.env.items():
        i = l.init.env.get(k)
        if i is not None:
            mus[mk("mu", l.id, k, c.a[2]) if len(c.a) > 2 else mk("mu", l.id, k)] = (s.norm(strip(i)), s.norm(strip(v)))
    if c not in mus:
        return False
    # variables that always hold the chain of c
    init, nxt = mus[c]
    same_ = {}
    for m, (i, n) in mus.items():
        if m is not c and at_of(i, vc, init) and at_of(n, vc, nxt):
            same_[m] = mk("at", vc, c)
    R_ = Rebuild(lambda t: same_.get(t))
    nxt = R_(nxt)
    link = mk("at", vc, c)
    if init is not head or nxt is not link:
        return False
    for x in l.exits:
        pc = R_(s.norm(strip(x[1])))
        if when_true(pc, link) != {True}:
            return False
    return True


def at_of(t, v, i):
    return t.op == "at" and t.a[0] is v and t.a[1] is i


def when_true(pc, link):
    """for which values of the link (zero or not) the condition holds; a link to the first symbol cannot be"""
    r = set()
    for k in (0, 2, 3, 5, 100, M32):
        if Rebuild(lambda t: I(k) if t is link else None)(pc) is not I0:
            r.add(k == 0)
    return r


def gnu(rep, s):
    B, C, F = s.filled("buckets"), s.filled("chains"), s.filled("bloom")
    if B:
        l, vb, nb, size, ix, rev, start = B
        sizes_agree(s, "buckets", "nbuckets", size)
        h = element(s, "buckets", s.index(nb, "gnu_hash"), ix, start, rev)
        if h is not None:
            i = h.a[1]
            first_index(s, "buckets", h, ix, start)
            sets = [x for x in walk(nb) if x.op == "eset"]
            if s.ob("one bucket is used", len(set(x.a[1] for x in sets)) == 1, shows(sets)):
                b = sets[0].a[1]
                bucket_ok(s, "buckets", b, h, size)
                old = mk("at", vb, b)
                zb, ub = when(nb, old, True), when(nb, old, False)
                s.ob("the first symbol of a bucket is put in it", bool(zb) and all(is_set(x, vb, b, i) for x in zb), shows(zb))
                if rev:
                    s.ob("a bucket ends up with its first symbol", bool(ub) and all(is_set(x, vb, b, i) for x in ub), shows(ub))
                else:
                    s.ob("a bucket keeps its first symbol", bool(ub) and all(x is vb for x in ub), shows(ub))
    off = untrunc(s.norm(s.fields.get("sym_offset", BOT)))
    s.ob("the symbols start after the null one", off is I1, show(off))
    if C and B:
        chains(s, C, B[3], off)
    if F:
        bloom(s, F)


def first_index(s, n, h, ix, start):
    if ix.op == "mu":
        first = Rebuild(lambda t: I(start) if t is ix else None)(h.a[1])
    else:
        first = Rebuild(lambda t: I0 if t is ix else None)(h.a[1])
    s.ob("%s: start with the first symbol after the null one" % n, first is I1, show(h.a[1]))


def chains(s, C, nbuckets, off):
    l, vc, nc, size, ix, rev, start = C
    hs = s.index(nc, "gnu_hash")
    h = element(s, "chains", hs, ix, start, rev)
    if h is None or off.op != "int":
        return
    i = h.a[1]
    first_index(s, "chains", h, ix, start)
    s.ob("one chain for each symbol after the null one", untrunc(size) is mkl(LEN, -off.a[0]), show(size))
    nexts = [x for x in hs if x is not h]
    if not s.ob("chains: a symbol is compared with the next one", len(nexts) <= 1 and
                all(sub_(x.a[1], i) is I1 for x in nexts), str([show(x) for x in nexts])[:200]):
        return
    nh = nexts[0] if nexts else mk("H", "none", i)
    bad = None
    for k in (2, 3, 9, 10, 40):
        m = sample(nbuckets, k)
        if not m:
            bad = "number of buckets"
            break
        for e in sorted(set((1, k // 2, k - 2, k - 1))):
            if not 1 <= e < k:
                continue
            at = I(e - lin_parts(i)[0])
            for x in HS:
                for y in HS:
                    env = {LEN: I(k), h: I(x), nh: I(y), ix: at}
                    v = values(nc, env)
                    end = e == k - 1 or x % m != y % m
                    want = x | 1 if end else x & ~1
                    if v.op != "eset" or v.a[0] is not vc or v.a[1] is not I(e - off.a[0]) or v.a[2] is not I(want):
                        bad = "%d symbols, symbol %d, hashes %#x and %#x: %s instead of %#x" % (k, e, x, y, show(v)[:80], want)
                        break
    s.ob("chains: hold the hash, the last bit set exactly at the end of a bucket", bad is None, bad or "")


def sub_(x, y):
    return sub(x, y)


def mkl(x, c):
    return add(x, I(c))


def bloom(s, F):
    l, vf, nf, size, ix, rev, start = F
    sizes_agree(s, "words of the filter", "bloom_size", size)
    h = element(s, "filter", s.index(nf, "gnu_hash"), ix, start, rev)
    if h is None:
        return
    first_index(s, "filter", h, ix, start)
    shift = untrunc(s.norm(s.fields.get("bloom_shift", BOT)))
    u = untrunc(size)
    s.ob("the number of words is a power of two", u.op == "p:npot" or
         u.op == "int" and u.a[0] > 0 and u.a[0] & (u.a[0] - 1) == 0, show(u))
    if not s.ob("the second shift is a constant", shift.op == "int", show(shift)):
        return
    bad = None
    for m in (1, 2, 4, 64, 1 << 10):
        for x in HS:
            env = {h: I(x), u: I(m)}
            r = Rebuild(lambda t: env.get(t))(nf)
            want = {x % 64, (x >> shift.a[0]) % 64}
            got, word, kept = set(), x // 64 % m, True
            seen = 0
            while r.op == "eset" and bad is None:
                if r.a[1] is not I(word):
                    bad = "%d words, hash %#x: word %s instead of %d" % (m, x, show(r.a[1])[:60], word)
                    break
                bits, kept_ = orbits(r.a[2], r.a[0], I(word))
                if bits is None or not kept_:
                    bad = "hash %#x: %s" % (x, show(r.a[2])[:100])
                    break
                got |= bits
                r = r.a[0]
                seen += 1
            if bad is None and (r is not vf or not seen):
                bad = "hash %#x: %s" % (x, show(r)[:100])
            if bad is None and not want <= got:
                bad = "hash %#x: bits %s instead of %s" % (x, sorted(got), sorted(want))
            if bad:
                break
        if bad:
            break
    s.ob("the filter admits the symbol", bad is None, bad or "")


def orbits(v, v0, i):
    """(bits set, the word kept?) of an or of one-bit words and the word itself"""
    if v.op == "or":
        r = [orbits(x, v0, i) for x in v.a]
        if any(b is None for b, k in r):
            return None, False
        return set().union(*[b for b, k in r]), any(k for b, k in r)
    if v.op == "int":
        return {k for k in range(64) if v.a[0] >> k & 1}, False
    if v.op == "at" and v.a[0] is v0 and v.a[1] is i:
        return set(), True
    if v.op == "at" and v.a[0].op == "eset" and v.a[1] is i and v.a[0].a[1] is i:
        return orbits(v.a[0].a[2], v.a[0].a[0], i)
    return None, False


# ---- the order of the symbols

def order(ctx, rep, s):
    em, an = emitted_order(ctx)
    if not rep.need("order in which the symbols are emitted", em):
        return
    own = canon(s.an, s.coll)
    s.ob("the symbols are taken in the order in which they are emitted", own == em, "%s against %s" % (str(own)[:150], str(em)[:150]))
    if s.t != "GnuHashTable" or em[0] != "sorted":
        return
    nb = s.norm(s.fields.get("nbuckets", BOT))
    ST, G = ("sym", "st_info"), ("gnu_hash",)
    role_len = lambda t: t.op == "len" and t.a[0].op == "role"
    bad = None
    for k in (1, 2, 9, 40, 100):
        m = sample(nb, k)
        if not m:
            bad = "number of buckets"
            break
        cmp_ = Rebuild(lambda t: I(k) if role_len(t) else None)(em[1])
        for x in HS:
            for y in HS:
                o = outcome(cmp_, {ST: 0x12, G: x}, {ST: 0x22, G: y})
                want = {"Less"} if x % m < y % m else {"Greater"} if x % m > y % m else None
                if want and o != want:
                    bad = "%d symbols, hashes %#x and %#x: %s" % (k, x, y, sorted(map(str, o)))
    s.ob("the order groups the symbols by bucket", bad is None, bad or "")


def later(rep, an, first):
    n = 0
    for e in an.events:
        if e.seq <= first or e.kind not in ("store", "minsert", "mremove", "push", "retain", "vremove", "clear", "mclear", "insert", "pop"):
            continue
        p = writer_path(*e.d[:2])
        if not p or "dyn_sym_section" not in p or "SymbolTable" not in p:
            continue
        n += 1
        leaf = p[-1]
        if e.kind == "store" and leaf not in ("hash", "gnu_hash", "st_info", "st_name", "sym", "symbols", "local_syms", "[]"):
            continue
        if e.kind != "store" and not ("symbols" in p or "local_syms" in p):
            continue
        rep.ob("the symbols stay as they are once the tables are made", False, "%s of %s" % (e.kind, ".".join(map(str, p[-3:]))), e.where())
    rep.ob("the symbols stay as they are once the tables are made", True, "%d later changes looked at" % n, "")
