"""The entries that are added to the dynamic section and the size that was reserved for them are compared in every case
the two distinguish (name, type and flags of a section); what the entries hold is compared with the tags' meaning."""
TECHNIQUE = "case analysis over the decision diagrams of MIR dataflow: entries added against size reserved, by name, type and flags of a section"
NOTE = "Which libraries are needed: C25. Encoding of an entry: C01. Names at their offsets: C13. DT_PREINIT_ARRAY isn't supported by the linker."

from terms import *
from query import *
from image import list_changes
from slots import ivs
from relocs import going, untrunc
import made

RELA, RELCOUNT = 7, 0x6ffffff9
OTHER = "\x00other"
# what describes a section: tag -> what it holds
NAMED = {".init": {12: "sh_addr"}, ".fini": {13: "sh_addr"}, ".got.plt": {3: "sh_addr"},
         ".rela.dyn": {7: "sh_addr", 8: "sh_size", 9: "sh_entsize", RELCOUNT: I0},
         ".rela.plt": {23: "sh_addr", 2: "sh_size", 20: I(RELA)}}
KINDS = {11: {6: "sh_addr", 11: "sh_entsize"}, 3: {5: "sh_addr", 10: "sh_size"}, 14: {25: "sh_addr", 27: "sh_size"},
         15: {26: "sh_addr", 28: "sh_size"}, 5: {4: "sh_addr"}, 0x6ffffff6: {0x6ffffef5: "sh_addr"}}
OPTIONAL = (RELCOUNT,)


def run(ctx, rep):
    rep.rule("for every name, type and flags of a section, as many entries are added as were counted for the size")
    rep.rule("each entry holds the address, size or entry size of the section it is added for, once these are final")
    rep.rule("what a section needs is added for it, no other section of the image adds the same tag, and a null entry comes last")
    rep.rule("nothing else is added, and no section appears, disappears or changes its kind, between the two")
    an = ctx.compute()
    rep.an(an)
    d = Dyn(an)
    if not rep.need("the list of entries and the size reserved for it", d.ok):
        return
    reserved(ctx, rep, d)
    cases(ctx, rep, d)
    order(ctx, rep, d)
    unique(ctx, rep, d)


def sums(an, v):
    """lin_parts of v, with what a counter starts from, unless it is a number, counted on its own"""
    c0, ds = lin_parts(strip(v))
    out = list(ds)
    for t, n in ds:
        if t.op == "mu" and not t.a[2] and t.a[0] in an.loops:
            init = an.loops[t.a[0]].init.env.get(t.a[1])
            if init is not None and init.op != "int" and lin_parts(init)[1] and \
                    any(x.op == "len" for x, _ in lin_parts(strip(init))[1]):
                c, more = lin_parts(strip(init))
                c0 += n * c
                out += [(x, n * m) for x, m in more]
    return c0, out


class Dyn(object):
    def __init__(self, an):
        self.an = an
        self.ok = False
        # the entries: a tag and a value of 8 bytes each, in a loop over a list
        self.list = self.emitted = None
        for e in an.events:
            if e.kind == "emit" and not e.io and e.loops and mentions(e.d[4], lambda t: t.op == "discr"):
                dm = domain(an, e.loops[-1])
                w = dm.whole()
                if not w or w[0] != "each":
                    continue
                es = [x for x in an.events if x.kind == "emit" and x.loops[-1:] == e.loops[-1:]]
                v = strip(e.d[4])
                if v.op == "discr" and len(es) == 2 and base_of(v.a[0])[1][-1:] == ("0",) and base_of(es[1].d[4])[1][-1:] == ("1",):
                    names = base_of(strip(mk("ptr", w[1], tuple(w[2]))))[1]
                    if names and any(x.d[1][-1:] == names[-1:] for x in an.events if x.kind == "push" and isinstance(x.d[1], tuple)):
                        self.list, self.emitted, self.whole = names[-1], e, not dm.early and not dm.rev and w[3] == 0
        if not self.list:
            return
        self.pushes = [e for e in an.events if e.kind == "push" and isinstance(e.d[1], tuple) and e.d[1][-1:] == (self.list,)]
        self.size = None
        for e in an.events:
            if e.kind == "store" and e.d[1][-1:] == ("sh_size",) and \
                    any(t.op == "len" and base_of(t.a[0])[1][-1:] == (self.list,) for x, n in sums(an, e.d[2])[1] for t in walk(x)):
                self.size = e
        if self.size is None or not self.pushes:
            return
        # the loop over sections: of the counter, and of the entries
        outer = set(e.loops[0] for e in self.pushes if e.loops)
        c0, ds = self.parts = sums(an, self.size.d[2])
        # the counter, or the number of elements of a list
        mus = [t for t, n in ds if t.op == "mu" or t.op == "len" and t.a[0].op == "mu" and not t.a[0].a[2]]
        self.ok = len(outer) == 1 and len(mus) == 1
        if self.ok:
            self.loop, self.counter = outer.pop(), mus[0]
            self.mu = self.counter if self.counter.op == "mu" else self.counter.a[0]

    def items(self):
        """the entries added for a section: (condition within the loop over sections, tag term, value term, event)"""
        out = []
        for e in self.pushes:
            if self.loop not in e.loops:
                continue
            c = e.cond(within=self.loop)
            for v, ok in self.values(e):
                out.append((c, proj1(v, "0"), proj1(v, "1"), e, ok))
        return out

    def values(self, e):
        v = e.d[2]
        if e.loops[-1] == self.loop:
            return [(v, True)]
        dm = domain(self.an, e.loops[-1])
        w = dm.whole()
        if e.loops[-2:-1] != (self.loop,) and tuple(e.loops) != (self.loop, e.loops[-1]):
            return [(v, False)]
        l = self.an.loops[e.loops[-1]]
        if not w or w[0] != "each" or w[3] != 0 or dm.early:
            return [(v, False)]
        root = w[1]
        arr = l.init.env.get(root.a) if root.op == "L" and not w[2] else root if root.op == "arr" else None
        if arr is None or arr.op != "arr":
            return [(v, False)]
        # the element itself, unchanged
        same = mentions(v, lambda t: t.op == "iv") and base_of(v)[0] is root
        return [(x, same) for x in arr.a]

    def tag(self, t):
        if t.op == "agg":
            t = self.an.discr(t, t.a[0])
        return t.a[0] if t.op == "int" else None


def section_of(t):
    """the section a value is a field of (what is before the header), as a term"""
    return base_of(strip(t))


class Case(object):
    """evaluates terms of a loop over sections for a section of some name, type and flags"""

    def __init__(self, an, loop, name, typ, flags):
        self.an, self.loop = an, loop
        self.ix = [i for i, s in domain(an, loop).iters]
        self.name, self.typ, self.flags = name, typ, flags
        self.guards = under({k: v for l in [loop] + inner(an, loop) for k, v in domain(an, l).guards.items()})
        self.unnamed = []
        self.both = [Rebuild(lambda t, k=k: self.rep(t, k)) for k in (0, 1)]

    def field(self, t, f):
        return t.op == "ld" and path_names(t.a[1])[-1:] == (f,) and any(mentions(t, lambda x, i=i: x is i) for i in self.ix)

    def rep(self, t, k):
        if self.field(t, "sh_type"):
            return I(self.typ)
        if self.field(t, "sh_flags"):
            return I(self.flags)
        # the two ways in which a name is kept
        if t.op == "discr" and self.name_of(t.a[0]):
            return I(k)
        if t.op in ("ld", "fld") and self.name_of(base_of(t)[0]) and t is not base_of(t)[0]:
            return S(self.name)
        return None

    def name_of(self, key):
        if key.op != "key" or key.a[1].op != "iv":
            return False
        if looked_up(self.an, key.a[1], lambda t: self.field(t, "sh_name")):
            return True
        self.unnamed.append(key)
        return False

    def __call__(self, t):
        t = self.guards(strip(t))
        a, b = self.both[0](t), self.both[1](t)
        return a if a is b else BOT


def looked_up(an, iv, own):
    """the key of the loop is the one whose offset is the name offset of the section"""
    for l in an.loops.values():
        if any(s == iv.a[0] for s, it in l.iters):
            for x in l.exits:
                for s in subjects(x[1]):
                    if s.op == "cmp":
                        c0, ds = lin_parts(strip(s.a[0]))
                        ds = [(untrunc(t), n) for t, n in ds]
                        mine = [t for t, n in ds if own(t)]
                        off = [t for t, n in ds if mentions(t, lambda y: y.op == "key") and base_of(t)[1][-1:] == ("1",)]
                        if len(ds) == 2 and c0 == 0 and len(mine) == 1 and len(off) == 1 and \
                                cond_eq(s, 0) is not I0 and implies(x[1], cond_eq(s, 0)):
                            return True
    return False


def inner(an, loop):
    return [i for i, l in an.loops.items() if any(f[0] == "loop" and f[1] == loop for f in l.frames)]


def consts(an, loop, terms, f):
    """the constants a field of the section (or, with None, its name) is compared with"""
    c = Case(an, loop, "", 0, 0)
    out = set()
    for t in terms:
        for m in walk(strip(t)):
            if m.op == "md":
                s = m.a[0]
                mine = c.field(s, f) if f else s.op in ("ld", "fld") and c.name_of(base_of(s)[0])
                if mine:
                    out |= {k for k, _ in m.a[1]}
    return out


def counted(d):
    l = d.an.loops[d.mu.a[0]]
    if l.latch is None or d.mu.a[1] not in l.latch.env:
        return BOT
    return sub(amount(d, l.latch.env[d.mu.a[1]]), d.counter)


def amount(d, v):
    """what the counter is when its variable is v"""
    if d.counter.op == "len":
        v = apply(lambda x: Lens(d.an)(mk("len", x)) if x.op != "arr" else I(len(x.a)), v)
    return Lens(d.an)(v)


class Lens(object):
    """lengths of lists to which an array of known size was added, one element in each round of a loop"""

    def __init__(self, an):
        self.an = an
        self.reb = Rebuild(self.rep)

    def __call__(self, t):
        return self.reb(t)

    def rep(self, t):
        if t.op != "len":
            return None
        v = t.a[0]
        if v.op == "md":
            return apply(lambda x: self.reb(mk("len", x)), v)
        if v.op == "arr":
            return I(len(v.a))
        if v.op == "vpush":
            return add(self.reb(mk("len", v.a[0])), I1)
        if v.op == "mu" and not v.a[2]:
            l = self.an.loops[v.a[0]]
            dm = domain(self.an, v.a[0])
            w = dm.whole()
            nxt = l.latch.env.get(v.a[1]) if l.latch is not None else None
            if not w or w[0] != "each" or dm.early or nxt is None or nxt.op != "vpush" or nxt.a[0] is not v:
                return None
            arr = l.init.env.get(w[1].a) if w[1].op == "L" and not w[2] else w[1]
            if arr is None or arr.op != "arr":
                return None
            return add(self.reb(mk("len", l.init.env[v.a[1]])), I(len(arr.a) - w[3]))
        return None


def reserved(ctx, rep, d):
    an = d.an
    c0, ds = d.parts
    w = d.size.where()
    k = {("mu" if t is d.counter else "len" if t.op == "len" else show(t)): n for t, n in ds}
    l = an.loops[d.mu.a[0]]
    init = l.init.env.get(d.mu.a[1])
    init = amount(d, init) if init is not None else BOT
    # a number, or something d.sums has counted
    start = init.a[0] if init.op == "int" else 0 if len(d.parts[1]) > len(lin_parts(strip(d.size.d[2]))[1]) else -1
    nulls = [e for e in d.pushes if d.loop not in e.loops]
    rep.ob("size: 16 bytes for each entry there is, each that was counted, and each of the end", k == {"len": 16, "mu": 16} and
           c0 + 16 * start == 16 * len(nulls) and start >= 0, "%s, counted from %s" % (show(strip(d.size.d[2]))[:200], show(init)), w)
    secs = []
    for n, lid in (("counted", d.mu.a[0]), ("added", d.loop)):
        dm = domain(an, lid)
        wh = dm.whole()
        # the first section is the null section (C30)
        ok = bool(wh) and wh[0] == "each" and wh[3] <= 1 and not dm.early and not dm.rev
        rep.ob("%s: for every section" % n, ok, str(dm.iters)[:160], w if n == "counted" else d.pushes[0].where())
        secs.append(base_of(strip(mk("ptr", wh[1], tuple(wh[2]))))[1][-1:] if ok else None)
    rep.ob("counted and added for the same sections", secs[0] is not None and secs[0] == secs[1], str(secs), w)
    d.sections = secs[0][0] if secs[0] else None
    d.flat = flat_loops(an, d)
    rep.ob("entries are added in every image", implies(d.size.full(), d.flat), show(d.flat)[:160], d.pushes[0].where())
    rep.ob("every entry is emitted", d.whole and all(d.emitted.seq > e.seq for e in d.pushes), "", d.emitted.where())
    for e in nulls:
        v = e.d[2]
        ok = d.tag(proj1(v, "0")) == 0 and not e.loops and implies(d.size.full(), e.full()) and e is max(d.pushes, key=lambda x: x.seq)
        rep.ob("the end: a null entry, last", ok, show(v)[:120], e.where())
    rep.ob("the end: there is one", len(nulls) == 1, "%d entries outside the loop" % len(nulls), d.pushes[0].where())


def flat_loops(an, d):
    return entry_cond(an, an.loops[d.loop], None)


def cases(ctx, rep, d):
    an = d.an
    items = d.items()
    n = counted(d)
    for c, t, v, e, ok in items:
        if not ok or d.tag(t) is None:
            rep.ob("entries: a tag and a value", False, "%s, %s" % (show(t)[:80], show(v)[:80]), e.where())
    terms = [c for c, t, v, e, ok in items]
    names = consts(an, d.loop, terms, None) | consts(an, d.mu.a[0], [n], None) | set(NAMED)
    types = consts(an, d.loop, terms, "sh_type") | consts(an, d.mu.a[0], [n], "sh_type") | set(KINDS)
    rep.need("names and types that have entries", len(consts(an, d.loop, terms, None)) + len(consts(an, d.loop, terms, "sh_type")) >= 8)
    done = 0
    wrong, bad = {}, {}
    d.tags = {}
    for name in sorted(names) + [OTHER]:
        for typ in sorted(types | {1, 2, 4, 6, 8}):
            for flags in (0, 2, 3, 6, 7):
                a = Case(an, d.loop, name, typ, flags)
                b = Case(an, d.mu.a[0], name, typ, flags)
                num = b(n)
                got = {}
                amount = 0
                for c, t, v, e, ok in items:
                    x = a(c)
                    if x is I0:
                        continue
                    if x is not I1:
                        wrong.setdefault("entries depend on the name, type and flags", (show(x)[:160], e))
                        continue
                    amount += 1
                    if d.tag(t) in got:
                        wrong.setdefault("two entries of tag %s for a section" % d.tag(t), ("%s, type %d" % (name, typ), e))
                    got[d.tag(t)] = (a(v), e)
                done += 1
                if num.op != "int" or num.a[0] != amount:
                    wrong.setdefault("size: %s, type %d%s" % (nice(name), typ, ", allocated" if flags & 2 else ""),
                                     ("%s reserved, %d added" % (show(num)[:80], amount), d.size))
                d.tags[(name, typ, flags)] = got
    for k in sorted(wrong):
        rep.ob(k, False, wrong[k][0], wrong[k][1].where())
    rep.ob("size: as many entries as are added", not wrong, "%d cases, %d names, %d types" % (done, len(names), len(types)), d.size.where())
    # what a section needs, with its own values
    flags = {".init": 6, ".fini": 6, ".got.plt": 3, ".rela.dyn": 2, ".rela.plt": 2}
    for name in sorted(NAMED):
        typ = 4 if name.startswith(".rela") else 1
        entries(rep, d, name, d.tags[(name, typ, flags[name])], NAMED[name], Case(an, d.loop, name, typ, flags[name]))
    for typ in sorted(KINDS):
        fl = 3 if typ in (14, 15) else 2
        entries(rep, d, "type %#x" % typ, d.tags[(OTHER, typ, fl)], KINDS[typ], Case(an, d.loop, OTHER, typ, fl))
    none = d.tags[(OTHER, 1, 3)]
    rep.ob("other sections: nothing", not none and not d.tags[(OTHER, 3, 0)], str(sorted(none)), d.size.where())
    # sections which are made under other names than their kind's
    a2, ws = made.writers(ctx)
    if rep.need("sections the linker makes", bool(ws)):
        for k in ws:
            seen = {}
            for m in ws[k][2]:
                nm, ty, fl = (m.name if isinstance(m.name, str) else None), m.type, m.flags
                if ty is None or fl is None or ty.op != "int" or fl.op != "int":
                    rep.ob("sections: known when made, in style %d" % k, False, str(m), w_of(m))
                    continue
                nm = nm if nm in names else OTHER
                ty = ty.a[0]
                got = d.tags.get((nm, ty if (nm, ty, 2) in d.tags else 1, fl.a[0] if fl.a[0] in (0, 2, 3, 6, 7) else 2), {})
                want = KINDS.get(ty, {}) if (ty != 3 or fl.a[0] & 2) else {}
                want = NAMED.get(nm, want)
                miss = [t for t in want if t not in got and t not in OPTIONAL]
                extra = [t for t in got if t not in want]
                rep.ob("made: %s has its entries, in style %d" % (m.name, k), not miss and not extra,
                       "missing %s, not its own %s" % (miss, extra), w_of(m))
                for t in got:
                    if t in seen:
                        rep.ob("made: one entry of tag %s, in style %d" % (t, k), False, "%s and %s" % (seen[t], m.name), w_of(m))
                    seen[t] = m.name
            need = {5, 10, 6, 11, 7, 8, 9, 23, 2, 20, 3}
            rep.ob("made: what the loader needs, in style %d" % k, need <= set(seen), "missing " + str(sorted(need - set(seen))), "Writer::new")
            d.made = getattr(d, "made", set()) | set(seen)


def w_of(m):
    return m.event.where() if m.event is not None else str(m)


def nice(name):
    return "any other name" if name == OTHER else "'%s'" % name


def entries(rep, d, what, got, want, case):
    for t in sorted(want):
        if t not in got:
            if t not in OPTIONAL:
                rep.ob("%s: has tag %#x" % (what, t), False, "entries: %s" % sorted(got), d.pushes[0].where())
            continue
        v, e = got[t]
        if isinstance(want[t], T):
            ok = v is want[t]
        else:
            ok = case.field(v, want[t])
        rep.ob("%s: tag %#x is %s" % (what, t, want[t] if isinstance(want[t], str) else show(want[t])), ok, show(v)[:120], e.where())
    for t in sorted(got):
        if t not in want:
            rep.ob("%s: tag %s" % (what, t), False, "not one of its own: %s" % sorted(want), got[t][1].where())


def order(ctx, rep, d):
    """nothing changes between the count and the additions, nor afterwards what was copied into the entries"""
    an = d.an
    first = min(e.seq for e in d.pushes if d.loop in e.loops)
    for e in list_changes(an, d.sections) if d.sections else []:
        if e.kind not in ("sort", "sorted", "insert", "vremove", "swap", "reverse") and e.seq > d.size.seq:
            rep.ob("sections: none appears after the count", False, e.kind, e.where())
    changes = [e for e in list_changes(an, d.list) if e not in d.pushes]
    rep.ob("entries: only added", not changes, ", ".join("%s at %s" % (e.kind, e.where()) for e in changes[:3]), d.size.where())
    early = [e for e in d.pushes if e.seq < d.size.seq]
    rep.ob("entries: counted before they are added", not early, ", ".join(e.where() for e in early[:3]), d.size.where())
    last = {}
    for e in an.events:
        if e.kind in ("store", "lstore") and isinstance(e.d[1], tuple):
            f = e.d[1][-1:]
            if f in (("sh_type",), ("sh_name",), ("sh_flags",)) and e.seq > d.size.seq:
                rep.ob("sections: keep %s after the count" % f[0], False, show(e.d[2])[:100], e.where())
            if f in (("sh_addr",), ("sh_size",), ("sh_entsize",)):
                last[f[0]] = e
                if e.seq > first:
                    rep.ob("entries: %s is final when it is copied" % f[0], False, show(e.d[2])[:100], e.where())
    rep.ob("entries: addresses are given before they are copied", "sh_addr" in last and last["sh_addr"].seq < first,
           last["sh_addr"].where() if "sh_addr" in last else "none", d.pushes[0].where())
    # the link adds nothing of its own once sizes are reserved
    ln = ctx.link()
    rep.an(ln)
    size = [e for e in ln.events if e.kind == "store" and e.d[1][-1:] == ("sh_size",) and e.where() == d.size.where() and
            any(t.op == "len" and base_of(t.a[0])[1][-1:] == (d.list,) for x, n in sums(ln, e.d[2])[1] for t in walk(x))]
    if rep.need("the size reserved, in the link", len(size) == 1):
        mine = {e.where() for e in d.pushes}
        late = [e for e in list_changes(ln, d.list) if e.seq > size[0].seq and not (e.kind == "push" and e.where() in mine)]
        rep.ob("entries: none is added by the link once the size is reserved", not late, ", ".join(e.where() for e in late[:3]), size[0].where())
        d.ln = ln


def unique(ctx, rep, d):
    """no input section is of a kind that the linker makes, or that can be there under several names"""
    ln = getattr(d, "ln", None)
    if ln is None or not d.sections:
        return
    adds = [e for e in list_changes(ln, d.sections) if e.kind in ("push", "insert", "extend") and
            isinstance(e.d[2 if e.kind == "push" else -1], T)]
    ins = []
    for e in adds:
        if e.loops and any(m.op in ("ld", "at", "fld") and path_names((m.a[1],) if m.op == "fld" else m.a[1] if m.op == "ld" else ())[-1:] == ("sh_type",)
                           for m in walk(strip(e.cond()))):
            ins.append(e)
    new = [e for e in adds if e.loops and e.kind == "push"]
    if not rep.need("where input sections become sections", len(new) >= 1):
        return
    by_type = sorted({t for (n, ty, fl), got in d.tags.items() if n == OTHER for t in got})
    for e in new:
        g = strip(going(ln, e))
        for ty in sorted({ty for (n, ty, fl), got in d.tags.items() if n == OTHER and got}):
            r = typed(ty)(g)
            tags = sorted({t for (n, y, fl), got in d.tags.items() if n == OTHER and y == ty for t in got})
            if r is not I0:
                rep.ob("input sections: one of type %#x" % ty, False,
                       "an object may have such a section under any name, each adds tags %s" % tags, e.where())


def typed(ty):
    def rep(t):
        if t.op == "contains":
            xs = t.a[0]
            while xs.op == "sub":
                xs = xs.a[0]
            v = t.a[1]
            if v.op == "ld" and path_names(v.a[1])[-1:] == ("sh_type",) or v.op == "fld" and v.a[1] == "sh_type":
                if xs.op == "arr" and all(x.op == "int" for x in xs.a):
                    return I1 if any(x.a[0] == ty for x in xs.a) else I0
        if t.op == "ld" and path_names(t.a[1])[-1:] == ("sh_type",) or t.op == "fld" and t.a[1] == "sh_type":
            return I(ty)
        return None
    return Rebuild(rep)
