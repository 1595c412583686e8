"""One round of the loop that gives sections their offsets and addresses, by cases: the state it starts in (nothing
loaded yet, a segment open or not, and whether the open one has a section without data), the flags, the type and the
alignment of the section. States are explored from the one before the first section; what is a number in them is replaced by
the invariant of the state, so that an address or an offset stands for every one it may be."""
from terms import *
from query import *

ALLOC, WRITE, EXEC = 2, 1, 4
NOBITS, PROGBITS = 8, 1
PAGE = 4096
FLAGS = (2, 6, 3, 7, 0x12, 0x32, 0x13, 0x403, 0x42, 0, 0x30, 0x20)
TYPES = (PROGBITS, NOBITS, 7)
PH_FIELDS = ("p_type", "p_flags", "p_offset", "p_vaddr", "p_paddr", "p_filesz", "p_memsz", "p_align")


def sym(n):
    return mk("sym", n)


BEFORE = {"sh_addr": sym("sh_addr before"), "sh_offset": sym("sh_offset before")}
F, V, SIZE, START, H = sym("F"), sym("V"), sym("size"), sym("start"), sym("h")
O, Q, FS, N = sym("p_offset"), sym("q"), sym("p_filesz"), sym("n")


class Facts(object):
    """congruences X = 0 (mod 2^k) that hold on a path"""

    def __init__(self):
        self.zero = []

    def reduce(self, t, k):
        """t modulo 2^k, as coefficients of what is left"""
        m = 1 << k
        todo, r = [(t, 1)], {}
        c = 0
        while todo:
            x, n = todo.pop()
            c0, ds = lin_parts(x)
            c += c0 * n
            for s, d in ds:
                if s.op == "trunc" and s.a[0] >= k:
                    todo.append((s.a[2], n * d))
                elif s.op == "shr" and s.a[1].op == "int" and not (n * d) % (1 << s.a[1].a[0]):
                    b = s.a[1].a[0]
                    q = n * d >> b
                    todo += [(s.a[0], q), (mk("trunc", b, False, s.a[0]), -q)]
                elif s.op == "div" and s.a[1].op == "int" and pow2(s.a[1].a[0]) and not (n * d) % s.a[1].a[0]:
                    b = s.a[1].a[0].bit_length() - 1
                    todo += [(s.a[0], n * d >> b), (mk("trunc", b, False, s.a[0]), -(n * d >> b))]
                else:
                    r[s] = r.get(s, 0) + n * d
        return c % m, {s: n % m for s, n in r.items() if n % m}

    def congruent(self, t, k):
        """t = 0 (mod 2^k) follows"""
        if k == 0:
            return True
        m = 1 << k
        c, r = self.reduce(t, k)
        rows = []
        for x, j in self.zero:
            if j < k:
                continue
            cx, rx = self.reduce(x, k)
            for p, pc, pr in rows:
                if p in rx:
                    cx, rx = self.minus(cx, rx, pc, pr, rx[p], m)
            p = next((s for s, n in rx.items() if n in (1, m - 1)), None)
            if p is None:
                continue
            if rx[p] != 1:
                cx, rx = -cx % m, {s: -n % m for s, n in rx.items()}
            rows.append((p, cx, rx))
        for p, pc, pr in rows:
            if p in r:
                c, r = self.minus(c, r, pc, pr, r[p], m)
        return c == 0 and not r

    def minus(self, c, r, pc, pr, n, m):
        out = dict(r)
        for s, x in pr.items():
            out[s] = (out.get(s, 0) - n * x) % m
        return (c - n * pc) % m, {s: x for s, x in out.items() if x}

    def positive(self, t, below=()):
        """t >= 0 follows, with everything but differences at least 0; below: [(x, y)] with x <= y known"""
        t = floor(t)
        c, ds = lin_parts(t)
        lo = c
        for s, n in ds:
            if n < 0:
                r = rng(s) if s.op in ("trunc", "rem") else None
                if not r:
                    return False
                lo += n * r[1]
        return lo >= 0


def floor(t):
    """products of quotients by powers of two as differences"""
    c, ds = lin_parts(t)
    r = I(c)
    for s, n in ds:
        b = None
        if s.op in ("shr", "div") and s.a[1].op == "int":
            b = s.a[1].a[0] if s.op == "shr" else s.a[1].a[0].bit_length() - 1 if pow2(s.a[1].a[0]) else None
        if b is not None and not n % (1 << b):
            q = n >> b
            r = add(r, scale(sub(s.a[0], mk("trunc", b, False, s.a[0])), q))
        elif s.op == "trunc" and lin_parts(s.a[2])[1] and s.a[2].op == "lin":
            r = add(r, scale(s, n))
        else:
            r = add(r, scale(s, n))
    return r


def pow2(n):
    return n > 0 and not n & (n - 1)


class Eval(Rebuild):
    def __init__(self, rep):
        Rebuild.__init__(self, rep)

    def build(self, t):
        o, a = t.op, t.a
        if o == "upd":
            return withpath(self(a[0]), a[1], self(a[2]))
        if o == "mu" and len(a) > 2 and a[2]:
            b = mk("mu", a[0], a[1], ())
            v = self(b)
            if v is not b:
                return proj(v, a[2])
            return t
        if o == "call" and a and "integer_max" in str(a[0]):
            xs = [self(x) for x in a[1:] if isinstance(x, T)]
            xs = [x for x in xs if x.op != "str"]
            if len(xs) == 2 and all(x.op == "int" for x in xs):
                return I(max(x.a[0] for x in xs))
        if o == "call" and a and "integer_min" in str(a[0]):
            xs = [self(x) for x in a[1:] if isinstance(x, T)]
            if len(xs) == 2 and all(x.op == "int" for x in xs):
                return I(min(x.a[0] for x in xs))
        if o in ("rem", "and"):
            x, y = self(a[0]), self(a[1])
            for x, y in ((x, y), (y, x))[:1 if o == "rem" else 2]:
                if y is I1 and o == "rem":
                    return I0
                if y.op == "int" and o == "rem" and pow2(y.a[0]):
                    return trunc(y.a[0].bit_length() - 1, False, x)
                if y.op == "int" and o == "and" and pow2(y.a[0] + 1):
                    return trunc(y.a[0].bit_length(), False, x)
                if y.op == "int" and o == "and":
                    m = (~y.a[0]) & ((1 << 64) - 1)
                    if m == 0:
                        return x
                    if pow2(m + 1):
                        return sub(x, trunc(m.bit_length(), False, x))
        return Rebuild.build(self, t)


class Without(Rebuild):
    """a subject is none of the constants it is compared with"""

    def __init__(self, s):
        Rebuild.__init__(self)
        self.s = s

    def build(self, t):
        if t.op == "md" and t.a[0] is self.s:
            return self(t.a[2])
        return Rebuild.build(self, t)


def choice(ts):
    """the first diagram in the terms or in the fields of their aggregates"""
    for t in ts:
        todo = [t]
        while todo:
            x = todo.pop()
            if x.op == "md":
                return x.a[0]
            if x.op == "agg":
                todo += x.a[3]
    return None


def cases_of(ts, s):
    out = []
    for t in ts:
        for x in walk(t):
            if x.op == "md" and x.a[0] is s:
                out += [c for c, _ in x.a[1] if c not in out]
    return out


def paths(ts, most=2000):
    """the ways through a tuple of diagrams: (facts, [choices], tuple of leaves)"""
    out = []
    todo = [(tuple(ts), Facts(), [], [])]
    while todo:
        ts, f, no, why = todo.pop()
        s = choice(ts)
        if s is None:
            if any(t is BOT for t in ts) or any(f.congruent(x, k) for x, k in no):
                continue
            out.append((f, why, ts))
            if len(out) > most:
                return None
            continue
        r = lin_rng(s)
        for c in cases_of(ts, s):
            if r and isinstance(c, int) and not r[0] <= c <= r[1]:
                continue
            g = Facts()
            g.zero = list(f.zero)
            if c == 0 and s.op == "trunc" and not s.a[1]:
                g.zero.append((s.a[2], s.a[0]))
            elif c == 0 and s.op in ("cmp", "lin"):
                g.zero.append((s.a[0] if s.op == "cmp" else s, 63))
            u = Eval(lambda t: I(c) if t is s else None)
            todo.append((tuple(u(t) for t in ts), g, no, why + [(s, c)]))
        u = Without(s)
        if s in DOM and set(DOM[s]) <= set(cases_of(ts, s)):
            continue
        n = no + [(s.a[2], s.a[0])] if s.op == "trunc" and not s.a[1] and 0 in cases_of(ts, s) else no
        todo.append((tuple(u(t) for t in ts), f, n, why + [(s, None)]))
    return out


class Case(object):
    """one way through a round"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Layout(object):
    def __init__(self, ctx):
        self.ctx = ctx
        an = self.an = ctx.compute()
        self.why = ""
        self.cases = []
        self.stores = [e for e in an.events if e.kind == "store" and e.d[1][-1:] in (("sh_addr",), ("sh_offset",)) and
                       "sections" in base_of(e.d[0])[1]]
        ls = {e.loops for e in self.stores}
        self.ok = False
        if len(ls) != 1 or len(next(iter(ls))) != 1:
            self.why = "addresses are given in %d loops" % len(ls)
            return
        self.lid = next(iter(ls))[0]
        self.loop = an.loops[self.lid]
        roots = {e.d[0] for e in self.stores}
        if len(roots) != 1:
            self.why = "more than one section of a round: %s" % [show(r)[:80] for r in roots]
            return
        self.root = next(iter(roots))
        self.domain = domain(an, self.lid)
        self.events = [e for e in an.events if self.lid in e.loops]
        self.outside = [e for e in an.events if e.kind == "store" and e.d[1][-1:] in (("sh_addr",), ("sh_offset",)) and
                        self.lid not in e.loops and "sections" in base_of(mk("ptr", e.d[0], tuple(e.d[1])))[1]]
        self.cells = {}
        for n in ("file_offset", "p_vaddr", "start_p_vaddr"):
            if not any(e.kind == "store" and tuple(e.d[1]) == (n,) for e in self.events):
                self.why = "%s isn't counted in the loop" % n
                return
        self.writer = next(e.d[0] for e in self.events if e.kind == "store" and tuple(e.d[1]) == ("file_offset",))
        h = self.loop.latch.heap
        self.out = {n: an.hload(h, self.writer, (n,)) for n in ("file_offset", "p_vaddr", "start_p_vaddr")}
        self.fields = ("sh_addr", "sh_offset")
        self.mods = sorted(k for k in self.loop.mods if self.loop.latch.env.get(k) is not None)
        self.init = {}
        for k in self.mods:
            v = self.loop.init.env.get(k, BOT)
            self.init[k] = v
        self.changed = [e for e in self.events if e.kind == "store" and e.d[0] is self.root and
                        e.d[1][-1:] in (("sh_size",), ("sh_type",), ("sh_flags",), ("sh_addralign",))]
        self.pushes = [e for e in self.events if e.kind in ("push", "insert") and e.d[1] == ("program_headers",)]
        self.header = None
        self.ok = True

    def where(self):
        return self.stores[0].where()

    # ---- states
    def start(self):
        """the state before the first section: values of the loop's variables; what takes up the room of the headers is H"""
        room = {}
        st = {}
        for k, v in self.init.items():
            v = strip(v)
            for y in walk(v):
                if y.op == "lin" and mentions(y, lambda x: x.op == "mu"):
                    room[y] = H
            st[k] = v
        self.room = list(room)
        u = Rebuild(lambda t: room.get(t))
        return {k: u(v) for k, v in st.items()}

    def rep(self, st, cells, flags, ty, align):
        own = {"sh_flags": I(flags), "sh_type": I(ty), "sh_addralign": I(align), "sh_size": SIZE}
        guards = {strip(g): v for g, v in self.domain.guards.items()}
        root, writer = strip(self.root), strip(self.writer)

        def f(t):
            if t.op == "ld":
                p = path_names(t.a[1])
                if p[-1:] and p[-1] in own and strip(t.a[0]) is root:
                    return own[p[-1]]
                if len(t.a[1]) == 1 and t.a[1][0] in cells and strip(t.a[0]) is writer:
                    return cells[t.a[1][0]]
                if p[-1:] and p[-1] in self.fields and strip(t.a[0]) is root:
                    return BEFORE[p[-1]]
            if t.op == "mu" and t.a[0] == self.lid and not t.a[2] and t.a[1] in st:
                return st[t.a[1]]
            if t.op == "more" and strip(t) in guards:
                return guards[strip(t)]
            return None
        return f

    def stored(self, u, field, before=None):
        """the value a field of the section has after its stores, of those that come before an event"""
        v = BEFORE[field]
        for e in sorted(self.stores, key=lambda e: e.seq):
            if e.d[1][-1:] == (field,) and (before is None or e.seq < before):
                c = u(e.cond())
                v = select(c, u(e.d[2]), bnot(c), v)
        return v

    def round(self, st, cells, flags, ty, align, headers=False):
        """the ways through a round: [(facts, choices, {name: value})], or None if there are too many"""
        u = Eval(self.rep(st, cells, flags, ty, align))
        names, ts = [], []
        for n, v in self.out.items():
            names.append(n)
            ts.append(u(v))
        for n in self.fields:
            names.append(n)
            ts.append(self.stored(u, n))
        for k in self.mods:
            names.append(k)
            ts.append(u(self.loop.latch.env[k]))
        for e in self.pushes if headers else ():
            c = u(e.cond())
            v = u(e.d[4] if e.kind == "insert" else e.d[2])
            now = {BEFORE[n]: self.stored(u, n, e.seq) for n in self.fields}
            v = Eval(lambda t: now.get(t))(v)
            names += [("when", e.seq), ("what", e.seq)]
            # what it is when it isn't done doesn't matter
            ts += [c, select(c, v, bnot(c), I0)]
        ps = paths(ts)
        if ps is None:
            return None
        return [(f, why, dict(zip(names, leaf))) for f, why, leaf in ps]

    def segment(self, values):
        """the key of the variable that holds the open segment, from its value in a round"""
        for k in self.mods:
            v = values[k]
            if v.op == "agg" and v.a[1] == "Some" and v.a[3][0].op == "agg" and "p_filesz" in v.a[3][0].a[2]:
                return k
        return None


class State(object):
    """before a round: .flags of the section before, .loaded (some section was), .open (a segment), .bss (its last section has
    no data on disk); .st the loop's variables, .cells the writer's"""

    def __init__(self, st, cells, flags, loaded, open_, bss, other=None):
        self.st, self.cells, self.flags, self.loaded, self.open, self.bss = st, cells, flags, loaded, open_, bss
        self.other = other
        self.key = (flags, loaded, open_, bss, tuple(sorted((str(k), v.id) for k, v in st.items())),
                    other and tuple(sorted((str(k), v.id) for k, v in other.items())))

    def __repr__(self):
        return "%s%s" % ("behind flags %#x" % self.flags if self.loaded or self.flags else "first section",
                         ", without data" if self.bss else "")


def explore(l, init, visit, flags=FLAGS, types=TYPES, aligns=(8,), headers=False, most=400, along=None):
    """calls visit(state, (flags, type, align), ways) for every state that can come up; how often, or a reason why not;
    along: another loop over the same sections that is followed along"""
    first = State(l.start(), dict(init, start_p_vaddr=START), 0, False, False, False, along and along.start())
    todo, seen = [first], {first.key}
    n = 0
    while todo:
        s = todo.pop()
        for fl in flags:
            if (not s.loaded and not fl & ALLOC) or (s.loaded and s.flags & ALLOC == 0 and fl & ALLOC):
                continue  # the order of the sections
            for ty in types:
                if s.bss and fl == s.flags and ty != NOBITS:
                    continue
                for al in aligns:
                    r = l.round(s.st, s.cells, fl, ty, al, headers)
                    if r is None or not r:
                        return n, "too many ways through a round, %r, flags %#x" % (s, fl)
                    n += 1
                    other = None
                    if along:
                        other, more = along.round(s.other, fl, ty, al)
                        if other is None:
                            return n, "the other loop depends on more than the section"
                        visit(s, (fl, ty, al), r, more)
                    else:
                        visit(s, (fl, ty, al), r)
                    for f, why, v in r:
                        t = after(l, s, v, fl, ty, other)
                        if t.key not in seen:
                            seen.add(t.key)
                            todo.append(t)
                            if len(seen) > most:
                                return n, "too many states"
    return n, None


def after(l, s, v, fl, ty, other=None):
    """the state after a round, its numbers replaced by what the invariants say about them"""
    k = l.segment(v)
    cells = {"file_offset": F, "p_vaddr": V, "start_p_vaddr": START}
    st, bss = {}, False
    for m in l.mods:
        x = v[m]
        if m == k:
            bss = ty == NOBITS
            p_vaddr = add(O, scale(Q, PAGE))
            memsz = add(FS, N) if bss else FS
            now = {"p_offset": O, "p_vaddr": p_vaddr, "p_paddr": p_vaddr, "p_filesz": FS, "p_memsz": memsz}
            h = x.a[3][0]
            h = mk("agg", h.a[0], h.a[1], h.a[2], tuple(now.get(n, y) for n, y in zip(h.a[2], h.a[3])))
            st[m] = mk("agg", x.a[0], x.a[1], x.a[2], (h,))
            cells["file_offset"] = add(add(O, FS), sym("padding") if bss else I0)
            cells["p_vaddr"] = add(p_vaddr, memsz)
        elif any(y.op in ("sym", "trunc", "shr", "rem") and y is not H for y in walk(x)):
            st[m] = sym("before %s" % (m,))
        else:
            st[m] = x
    return State(st, cells, fl, s.loaded or bool(fl & ALLOC), k is not None, bss, other)


class Count(object):
    """the loop which counts the headers beforehand: the room is .head + e_phentsize * (count + .more)"""

    def __init__(self, l):
        an = self.an = l.an
        self.ok, self.why = False, ""
        l.start()
        rooms = list({strip(r) for r in l.room})
        if len(rooms) != 1:
            self.why = "%d values depend on another loop" % len(rooms)
            return
        self.room = rooms[0]
        self.head, ds = lin_parts(self.room)
        size = [(t, n) for t, n in ds if t.op == "ld" and path_names(t.a[1])[-2:] == ("eh", "e_phentsize")]
        mus = [(t, n) for t, n in ds if t.op == "mul" or t.op == "mu"]
        if len(size) + len(mus) != len(ds) or len(mus) != 1 or mus[0][1] not in (1, 56):
            self.why = show(self.room)
            return
        t, n = mus[0]
        if t.op == "mul":
            mu = [x for x in t.a if x.op == "mu"]
            rest = [x for x in t.a if x.op != "mu"]
            if len(mu) != 1 or len(rest) != 1 or not (rest[0].op == "ld" and path_names(rest[0].a[1])[-2:] == ("eh", "e_phentsize")) or \
                    n != 1:
                self.why = show(self.room)
                return
            self.mu, self.more = mu[0], sum(n for t, n in size)
        else:
            self.mu, self.more = t, None
            if n != 56 or size:
                self.why = show(self.room)
                return
        self.loop = an.loops[self.mu.a[0]]
        self.domain = domain(an, self.loop.id)
        self.mods = sorted(k for k in self.loop.mods if self.loop.latch.env.get(k) is not None and k != self.mu.a[1])
        self.first = self.loop.init.env.get(self.mu.a[1])
        if self.first is None or self.first.op != "int":
            self.why = "count starts at %s" % self.first
            return
        if self.more is None:
            # constants have been folded: head + 56 * more
            self.head, self.more = 64, (self.head - 64) // 56 if (self.head - 64) % 56 == 0 else -1
        self.more += self.first.a[0]
        self.ok = True

    def start(self):
        return {k: strip(self.loop.init.env.get(k, BOT)) for k in self.mods}

    def round(self, st, fl, ty, al):
        own = {"sh_flags": I(fl), "sh_type": I(ty), "sh_addralign": I(al), "sh_size": SIZE}
        guards = {strip(g): v for g, v in self.domain.guards.items()}

        def f(t):
            if t.op == "ld":
                p = path_names(t.a[1])
                if p[-1:] and p[-1] in own and base_of(t)[1][:2] == ("sections", "[]"):
                    return own[p[-1]]
            if t.op == "mu" and t.a[0] == self.loop.id and not t.a[2] and t.a[1] in st:
                return st[t.a[1]]
            if t.op == "more" and strip(t) in guards:
                return guards[strip(t)]
            return None
        u = Eval(f)
        out = {k: u(self.loop.latch.env[k]) for k in self.mods}
        n = u(sub(self.loop.latch.env[self.mu.a[1]], self.mu))
        if n.op != "int" or any(v.op not in ("int", "agg") for v in out.values()):
            return None, None
        return out, n.a[0]


class Order(object):
    """the order of the sections when they are laid out: .ok, .why; .events after it which change the list"""

    def __init__(self, l):
        an = l.an
        first = min(e.seq for e in l.events)
        self.ok, self.why = False, ""
        sorts = [e for e in an.events if e.kind == "sort" and e.d[0].op == "slice" and tuple(e.d[0].a[1])[-1:] == ("sections",) and
                 e.seq < first]
        if not sorts:
            self.why = "the sections aren't sorted"
            return
        e = self.event = sorts[-1]
        if e.loops or strip(e.cond()) is not I1 or e.d[0].a[2:] != (I0, None) and [str(x) for x in e.d[0].a[2:]] != ["0", "None"]:
            self.why = "not all sections are sorted, or not always"
            return
        self.cmp = strip(e.d[1])
        self.ok = True

    def compare(self, a, b):
        """-1, 0, 1 for profiles (flags, type, align), or None"""
        def f(t):
            if t.op == "ld":
                p = path_names(t.a[1])
                x = [y for y in walk(t) if y.op == "sortarg"]
                if len(x) == 1 and p[-1:] and p[-1] in ("sh_flags", "sh_type", "sh_addralign"):
                    return I((a if str(x[0].a[0]) == "a" else b)[("sh_flags", "sh_type", "sh_addralign").index(p[-1])])
            return None
        r = Eval(f)(self.cmp)
        return {"Less": -1, "Equal": 0, "Greater": 1}.get(r.a[1]) if r.op == "agg" else None
