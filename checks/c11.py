"""One round of the pass over the sections of an object is evaluated for every kind of section that comes and of section of that
name there already is: what is appended to the output section, with which contents, size and padding, what becomes of its header,
and which place is noted for the section's symbols and relocations. These are followed there, and each piece to its address."""
TECHNIQUE = "exhaustive evaluation of the paths of one round of section merging, in MIR, for every pair of section kinds; dataflow of the place noted for each section"
NOTE = "Where output sections are and that their contents are written: C10. Values of relocated fields: C02. Which symbol is kept: C06. COMDAT groups and merging of equal strings are not supported by the linker."

from terms import *
from query import *
from relocs import untrunc
from layout import Eval, paths, floor
import made
import patch

PROGBITS, NOBITS, NOTE_, INIT, FINI, UNWIND = 1, 8, 7, 14, 15, 0x70000001
NEEDED = (PROGBITS, NOBITS, NOTE_, INIT, FINI, UNWIND)
WRITE, ALLOC, EXEC = 1, 2, 4
SIZE, OFF, OLD = (mk("sym", n) for n in ("size of the section", "offset of the section", "size so far"))
EARLIER = mk("len", mk("sym", "pieces but one"))
INDEX = mk("sym", "index of the name")
RANGE[EARLIER] = RANGE[SIZE] = RANGE[OLD] = RANGE[OFF] = "u64"
DATA, SIZES = "data", "size"


def run(ctx, rep):
    rep.rule("a section that is needed is appended to the section of its name: whole, at its alignment, behind everything there")
    rep.rule("the section allows what its pieces need, is aligned as they are and is in the file if one of them is")
    rep.rule("symbols and relocations go to the piece that was made for their section; a piece's address is the end of the one before")
    fs = ctx.find("lib", r"ElfObject(::<.*>|<.*>)?::process_sections$")
    if not rep.need("ElfObject::process_sections", len(fs) == 1):
        return
    an = ctx.run("lib", fs[0])
    rep.an(an)
    r = Round(an)
    if not rep.need("the pass over the sections of an object: %s" % r.why, r.ok):
        return
    w = all_of(an, r.lid)
    rep.ob("all sections are looked at", bool(w) and w[1] is r.obj and w[2] == ("elf", "section_headers") and w[3] == 0,
           str(r.domain.iters)[:200], r.note.where())
    rep.ob("the pass over the sections is made for every object", strip(entry_cond(an, an.loops[r.lid], None)) is I1, "", r.note.where())
    Rules(rep, r).run()
    table(ctx, rep, r)
    symbols(ctx, rep)
    relocations(ctx, rep)
    linked(ctx, rep)
    addresses(ctx, rep)


class Round(object):
    """one round of process_sections"""

    def __init__(self, an):
        self.an = an
        self.ok, self.why = False, "no place of a section is noted"
        self.obj, self.writer = (base_of(a)[0] for a in an.args[:2])
        ms = [e for e in an.events if e.kind == "minsert" and self.path(e) == (self.obj, ("section_relocations",))]
        if len(ms) != 1 or not ms[0].loops:
            return
        self.note = ms[0]
        self.lid = self.note.loops[-1]
        self.domain = domain(an, self.lid)
        self.ix = [strip(ix) for ix, s in self.domain.iters]
        self.guards = {strip(g): v for g, v in self.domain.guards.items()}
        self.list = [e for e in an.events if self.path(e) == (self.writer, ("sections",)) and e.kind not in ("lock", "unlock")]
        self.news = [e for e in an.events if e.kind == "new" and self.lid in e.loops and e.d[1].op == "agg" and "chunks" in e.d[1].a[2]]
        self.names = [e for e in an.events if e.kind == "minsert" and self.path(e)[1][-1:] == ("names",)]
        self.old = [e for e in an.events if self.path(e)[1][:2] == ("sections", "[]") and self.path(e)[0] is self.writer and
                    len(self.path(e)[1]) > 2 and e.kind in WRITES]
        self.first = {}
        for e in self.old:
            f = self.path(e)[1][-1]
            self.first.setdefault(f, ancestors(e.heap))
        self.pieces = [e for e in self.old if self.path(e)[1] == ("sections", "[]", "chunks")]
        self.ok = True

    def path(self, e):
        if not e.d or not isinstance(e.d[0], T) or len(e.d) < 2 or not isinstance(e.d[1], tuple):
            return None, ()
        b, p = base_of(strip(mk("ptr", e.d[0], tuple(e.d[1]))))
        return b, p

    def own(self, t):
        """the field of the section's header a load reads"""
        b, p = base_of(t)
        if b is self.obj and p[:3] == ("elf", "section_headers", "[]") and len(p) == 4 and all(mentions(t, lambda x, i=i: x is i) for i in self.ix):
            return p[3]
        return None

    def name(self, t):
        """t is the name of the section, in the table of names of the object"""
        gets = {x for x in walk(t) if x.op == "call" and x.a[0].endswith("Strtab::<'a>::get_at")}
        if len(gets) != 1:
            return False
        g = list(gets)[0]
        args = [strip(x) for x in g.a[1:] if isinstance(x, T)]
        return any(base_of(x) == (self.obj, ("elf", "shdr_strtab")) for x in args) and any(
            x.op == "ld" and self.own(x) == "sh_name" for x in args)

    def rep(self, known, own, old, notes):
        own = dict(own, sh_size=SIZE, sh_offset=OFF)

        def f(t):
            if t.op == "call" and "saturating_add" in str(t.a[0]):
                xs = [x for x in t.a[1:] if isinstance(x, T)]
                return add(self.u(xs[0]), self.u(xs[1])) if len(xs) == 2 else None
            if t.op == "sat" and "add" in str(t.a[0]):
                xs = [x for x in t.a[1:] if isinstance(x, T)]
                return add(self.u(xs[0]), self.u(xs[1])) if len(xs) == 2 else None
            if t.op == "ld":
                n = self.own(strip(t))
                if n in own:
                    return own[n]
                b, p = base_of(strip(t))
                if b is self.writer and p[:3] == ("sections", "[]", "sh") and len(p) == 4 and p[3] in old:
                    if self.early(t, p[3]):
                        return old[p[3]]
                    notes.append("%s is read after it may have changed" % p[3])
            if t.op == "len":
                b, p = base_of(strip(t.a[0]))
                if b is self.writer and p == ("sections", "[]", "chunks"):
                    return self.count(t.a[0])
            if t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0].endswith("Strtab::<'a>::get_at"):
                return I1
            if t.op == "has" and base_of(strip(t.a[0]))[1][-1:] == ("names",):
                if not self.name(strip(t.a[1])):
                    notes.append("looked up by %s" % show(t.a[1])[:100])
                return I(known)
            if t.op == "contains":
                xs, x = [self.u(y) for y in t.a[:2]]
                xs = elements(xs)
                if xs is not None and x.op == "int":
                    return I(int(x in xs))
            if t.op == "more" and strip(t) in self.guards:
                return self.guards[strip(t)]
            return None
        return f

    def early(self, t, field):
        anc = self.first.get(field)
        return anc is None or t.a[2] in anc

    def count(self, t):
        """how many pieces a load of the list sees"""
        n = add(EARLIER, I1)
        if t.op != "ld":
            return None
        h = self.heaps.get(t.a[2])
        if h is None:
            return None
        seen = chain(h)
        for e in self.pieces:
            if e.kind == "push" and any(x.prev is e.heap or x.prev is not None and x.prev.id == e.heap.id for x in seen if x.kind not in ("init",) and
                                        getattr(x, "path", None) == e.d[1]):
                c = self.u(e.cond())
                n = add(n, select(c, I1, bnot(c), I0))
        return n

    def run(self, known, own, old):
        notes = []
        self.u = Eval(self.rep(known, own, old, notes))
        if not hasattr(self, "heaps"):
            self.heaps = {}
            for e in self.an.events:
                for h in chain(e.heap):
                    self.heaps[h.id] = h
            for h in chain(self.an.loops[self.lid].latch.heap):
                self.heaps[h.id] = h
        names, ts = [], []

        def put(n, c, *vs):
            c = self.u(c)
            names.append((n, "when"))
            ts.append(c)
            for i, v in enumerate(vs):
                names.append((n, i))
                ts.append(select(c, self.u(v), bnot(c), I0))
        put("note", self.note.cond(), *self.note.d[2:4])
        for e in self.news + self.list + self.names + self.old:
            put(e.seq, e.cond() if e.loops[-1] == self.lid else I1, *[x for x in e.d[2:4] if isinstance(x, T)])
        ps = paths(ts)
        if ps is None:
            return None, notes
        return [(f, why, dict(zip(names, v))) for f, why, v in ps], notes


class Rules(object):
    def __init__(self, rep, r):
        self.rep, self.r, self.n, self.bad = rep, r, {}, {}

    def run(self):
        r = self.r
        cases = []
        for ty in NEEDED:
            cases += [(0, ty, ALLOC, 8, None, 0, 0)] + [(1, ty, ALLOC | WRITE, 8, o, ALLOC, 4) for o in (PROGBITS, NOBITS, INIT, NOTE_)]
        for fl in (0, ALLOC, ALLOC | WRITE, ALLOC | EXEC, ALLOC | WRITE | EXEC, ALLOC | 0x30):
            cases.append((0, PROGBITS, fl, 1, None, 0, 0))
            cases += [(1, ty, fl, 16, ty, o, 8) for ty in (PROGBITS, NOBITS) for o in (0, ALLOC, ALLOC | WRITE, ALLOC | EXEC)]
        for al in (0, 1, 2, 8, 64, 4096, 1 << 16, 1 << 21):
            cases += [(0, ty, ALLOC, al, None, 0, 0) for ty in (PROGBITS, NOBITS)]
            cases += [(1, t, ALLOC | WRITE, al, o, ALLOC | WRITE, b) for t in (PROGBITS, NOBITS) for o in (PROGBITS, NOBITS) for b in (0, 1, 16, 1 << 16)]
        n = 0
        for c in cases:
            known, ty, fl, al, oty, ofl, oal = c
            self.case = "type %#x, flags %#x, alignment %d" % (ty, fl, al) + (
                " to type %#x, flags %#x, alignment %d" % (oty, ofl, oal) if known else ", first of its name")
            old = {"sh_type": I(oty), "sh_flags": I(ofl), "sh_addralign": I(oal), "sh_size": OLD} if known else {}
            ps, notes = r.run(known, {"sh_type": I(ty), "sh_flags": I(fl), "sh_addralign": I(al)}, old)
            self.ok("round: every way through it is followed", ps is not None and not notes, notes[:1])
            for f, why, v in ps or ():
                n += 1
                (self.later if known else self.first)(c, f, v)
        for what in sorted(self.n):
            self.rep.ob(what, what not in self.bad, self.bad.get(what, "") or "%d ways" % self.n[what], self.r.note.where())
        self.rep.ob("round: every kind of section is covered", n >= len(cases), "%d ways" % n, r.note.where())

    def ok(self, what, c, *ts):
        self.n[what] = self.n.get(what, 0) + 1
        if not c and what not in self.bad:
            self.bad[what] = "%s: %s" % (self.case, "; ".join(show(t)[:150] if isinstance(t, T) else str(t) for t in ts))

    def is_file(self, t):
        """exactly the contents of the section in the file"""
        t = strip(t)
        if t.op != "sub" or t.a[1] is not OFF or not sub(t.a[2], add(OFF, SIZE)) is I0:
            return False
        b, p = base_of(t.a[0])
        return b is self.r.obj and p == ("input", "data")

    def place(self, v):
        """(section, number of the piece) that is noted, None if none is"""
        self.ok("kept: the place of a needed section is noted", v["note", "when"] is I1, v["note", "when"])
        if v["note", "when"] is not I1:
            return None, None
        self.ok("noted: under the number of the section", strip(v["note", 0]) in self.r.ix, v["note", 0])
        x = v["note", 1]
        ok = x.op == "agg" and set(x.a[2]) == {"section", "chunk"}
        self.ok("noted: a section and a piece of it", ok, x)
        if not ok:
            return None, None
        x = dict(zip(x.a[2], x.a[3]))
        return strip(x["section"]), x["chunk"]

    def done(self, v, es):
        """those of the events that happen"""
        for e in es:
            self.ok("round: what happens is known", v[e.seq, "when"] in (I0, I1), v[e.seq, "when"])
        return [e for e in es if v[e.seq, "when"] is not I0]

    def first(self, c, f, v):
        known, ty, fl, al, _, _, _ = c
        r = self.r
        sec, piece = self.place(v)
        if sec is None:
            return
        new = [e for e in self.done(v, r.news) if strip(mk("ptr", e.d[0], ())) is sec]
        self.ok("new: a section is made", len(new) == 1, sec)
        self.ok("new: nothing else is changed", not [e for e in self.done(v, r.old) if e.loops[-1] == r.lid], "")
        l = self.done(v, r.list)
        self.ok("new: it is appended to the list, once", len(l) == 1 and l[0].kind == "push" and strip(v[l[0].seq, 0]) is sec,
                [e.kind for e in l])
        ns = self.done(v, r.names)
        good = len(ns) == 1 and r.name(strip(v[ns[0].seq, 0])) and v[ns[0].seq, 1].op == "agg"
        self.ok("new: its name is entered, once", good, len(ns))
        if len(new) != 1 or not good:
            return
        at = v[ns[0].seq, 1].a[3]
        self.ok("new: under the number it has in the list", at[0].op == "len" and base_of(strip(at[0].a[0]))[1][-1:] == ("names",), at[0])
        s = fields(self.r.u(new[0].d[1]))
        h, ps = fields(s["sh"]), s["chunks"]
        name = untrunc(h["sh_name"])
        self.ok("new: it has its name", name is strip(at[1]) or untrunc(strip(name)) is strip(at[1]), name, at[1])
        self.ok("new: type", h["sh_type"] is I(ty), h["sh_type"])
        self.ok("new: permissions", h["sh_flags"].op == "int" and h["sh_flags"].a[0] & 7 == fl & 7, h["sh_flags"])
        self.ok("new: size", h["sh_size"] is SIZE, h["sh_size"])
        self.ok("new: alignment", h["sh_addralign"] is I(al) or al == 0 and h["sh_addralign"] is I1, h["sh_addralign"])
        self.ok("new: no generated contents", strip(s["synthetic"]).op == "agg" and strip(s["synthetic"]).a[1] == "None", s["synthetic"])
        good = ps.op == "arr" and len(ps.a) == 1 and ps.a[0].op == "agg"
        self.ok("new: it has one piece, which is noted", good and piece is I0, ps)
        if good:
            self.piece("new", fields(ps.a[0]), ty, ty)

    def piece(self, n, c, ty, final):
        self.ok("%s: the piece has the size of the section" % n, c[SIZES] is SIZE, c[SIZES])
        d = c[DATA]
        if ty != NOBITS:
            self.ok("%s: the piece is the contents of the section" % n, self.is_file(d), d)
        elif final == NOBITS:
            self.ok("%s: nothing is in the file" % n, empty(d), d)
        else:
            self.ok("%s: zeros stand for what isn't in the file" % n, d.op == "vrep" and d.a[0] is I0 and d.a[1] is SIZE, d)
        self.ok("%s: the piece has no symbols or relocations yet" % n, empty(c["symbols"]) and empty(c["relocations"]), c["symbols"])

    def later(self, c, f, v):
        known, ty, fl, al, oty, ofl, oal = c
        r = self.r
        sec, piece = self.place(v)
        if sec is None:
            return
        b, p = base_of(sec)
        ix = index_of(sec)
        good = b is r.writer and p[:2] == ("sections", "[]") and len(p) == 2 and ix is not None
        self.ok("known: the section is one of the list", good, sec)
        if good:
            ks = [x for x in walk(ix) if x.op in ("ld", "fld") and base_of(x)[1][-3:-1] == ("names", "[]")]
            self.ok("known: it is the one of its name", any(strip(x) is strip(ix) and base_of(x)[1][-1] == "0" and r.name(x) for x in ks), ix)
        self.ok("known: no section or name is added", not self.done(v, r.list) and not self.done(v, r.names), "")
        es = [e for e in r.old if e.loops[-1] == r.lid]
        es = self.done(v, es)
        for e in es:
            self.ok("known: what is changed is that section", same_section(r, e, sec), e.d[0])
        final = {"sh_type": I(oty), "sh_flags": I(ofl), "sh_addralign": I(oal), "sh_size": OLD}
        pieces = []
        for e in es:
            p = r.path(e)[1]
            if e.kind == "store" and p[2:3] == ("sh",) and len(p) == 4:
                final[p[3]] = v[e.seq, 0]
            elif p == ("sections", "[]", "chunks"):
                x = v[e.seq, 0] if e.kind == "push" else I0
                self.ok("known: pieces are only appended", e.kind == "push" and x.op == "agg", e.kind)
                if x.op == "agg":
                    pieces.append(fields(x))
            else:
                self.ok("known: pieces stay as they are", False, "%s %s" % (e.kind, p))
        t = final["sh_type"]
        both = ty == NOBITS and oty == NOBITS
        self.ok("known: it is in the file if a piece is", t.op == "int" and t.a[0] in (ty, oty) and (t.a[0] == NOBITS) == both, t)
        self.ok("known: permissions of both", final["sh_flags"].op == "int" and final["sh_flags"].a[0] & 7 == (fl | ofl) & 7, final["sh_flags"])
        a = final["sh_addralign"]
        self.ok("known: aligned for both", a.op == "int" and a.a[0] >= max(al, oal) and not (al and a.a[0] % al) and not (oal and a.a[0] % oal), a)
        self.ok("known: a piece is appended", bool(pieces))
        if not pieces:
            return
        self.ok("known: the last piece appended is noted", strip(sub(piece, EARLIER)) is I(len(pieces)), piece)
        end = OLD
        for x in pieces[:-1]:
            end = add(end, x[SIZES])
            self.ok("known: padding is in the file if the section is", empty(x[DATA]) if both or x[SIZES] is I0 else x[DATA].op == "vrep" and x[DATA].a[1] is x[SIZES],
                    x[DATA])
            self.ok("known: padding isn't negative", f.positive(x[SIZES]), x[SIZES])
        self.ok("known: the piece is aligned", not al or f.congruent(end, al.bit_length() - 1), end)
        self.piece("known", pieces[-1], ty, NOBITS if both else PROGBITS)
        self.ok("known: the size is that of its pieces", zero(sub(final["sh_size"], add(end, pieces[-1][SIZES]))), final["sh_size"])
        if oty == NOBITS and not both:
            self.ok("known: what was not in the file is zero there", self.filled(), "")
        if both:
            inner = [e for e in r.old if e.loops[-1] != r.lid and not self.never(outer(r, e))]
            self.ok("known: what isn't in the file stays out of it", not inner, [e.where() for e in inner])

    def always(self, c):
        ps = paths([self.r.u(c)])
        return bool(ps) and all(v[0] is I1 for _, _, v in ps)

    def never(self, c):
        ps = paths([self.r.u(c)])
        return ps is not None and all(v[0] is I0 for _, _, v in ps)

    def filled(self):
        """every piece there was gets contents of its size"""
        r = self.r
        for e in r.old:
            if e.loops[-1] == r.lid or len(e.loops) < 2 or e.loops[-2] != r.lid:
                continue
            p = r.path(e)[1]
            d = domain(r.an, e.loops[-1])
            w = d.whole()
            if p != ("sections", "[]", "chunks", "[]", DATA) or not w or w[2] != ("sections", "[]", "chunks") or w[3]:
                continue
            if e.kind == "resize":
                size, fill = strip(e.d[3]), e.d[4]
            elif e.kind == "store" and e.d[2].op == "vrep":
                size, fill = strip(e.d[2].a[1]), e.d[2].a[0]
            else:
                continue
            c = strip(under(d.guards)(e.cond(within=e.loops[-1])))
            if fill is I0 and c is I1 and self.always(outer(r, e)) and base_of(size)[1] == ("sections", "[]", "chunks", "[]", SIZES) and \
                    all(mentions(size, lambda x, i=strip(i): x is i) for i, _ in d.iters):
                return True
        return False


def outer(r, e):
    """when a round gets to the loop an event is in"""
    return under(r.domain.guards)(entry_cond(r.an, r.an.loops[e.loops[-1]], r.lid))


def zero(t):
    return floor(t) is I0


def fields(x):
    return dict(zip(x.a[2], x.a[3]))


def empty(d):
    return d.op in ("arr", "mnew") and not d.a


def index_of(t):
    """the index into the list, of a handle loaded from it"""
    while t.op in ("ptr", "ld", "elem"):
        if t.op == "elem":
            return strip(t.a[2])
        if t.op == "ld" and t.a[1]:
            for x in reversed(t.a[1]):
                if isinstance(x, tuple) and isinstance(x[-1], T):
                    return strip(x[-1])
        t = t.a[0]
    return None


def same_section(r, e, sec):
    ix = index_of(strip(e.d[0]))
    return ix is not None and ix is index_of(sec)


WRITES = ("push", "store", "resize", "insert", "remove", "minsert", "mremove", "clear", "truncate", "extend", "sort", "havoc")


def elements(t):
    """the numbers in a list that is written out"""
    if t.op == "sub" and all(x.op == "int" for x in t.a[1:3]):
        xs = elements(t.a[0])
        return xs[t.a[1].a[0]:t.a[2].a[0]] if xs is not None else None
    return list(t.a) if t.op == "arr" and all(x.op == "int" for x in t.a) else None


def chain(h):
    out, todo = {}, [h]
    while todo:
        x = todo.pop()
        if x is None or x.id in out:
            continue
        out[x.id] = x
        todo += [x.prev, getattr(x, "b", None)]
    return list(out.values())


def ancestors(h):
    return {x.id for x in chain(h)}


def table(ctx, rep, r):
    """the number of a name in the table of names is that of the section in the list, to begin with"""
    an, ws = made.writers(ctx)
    if not rep.need("Writer::new: the sections made", bool(ws)):
        return
    rep.an(an)
    for k, (w, fs, order) in ws.items():
        m = fs.get("shstr_section")
        kind, t = m.kind() if m else (None, None)
        if not rep.need("style %d: the table of names of sections" % k, kind == "StringTable" and t.op == "agg"):
            return
        x = m.u(strip(fields(t)["names"]))
        index = {}
        while x.op == "mins":
            lit, v = m.u(x.a[1]), m.u(x.a[2])
            n = lit.a[3][0] if lit.op == "agg" else lit
            index.setdefault(n.a[0] if n.op == "str" else show(n).strip("'"), m.u(v.a[3][0]) if v.op == "agg" else v)
            x = m.u(x.a[0])
        ok = x.op == "mnew" and len(index) == len(order) and all(index.get(s.name) is I(s.position) for s in order)
        rep.ob("style %d: names have the numbers of their sections" % k, ok, "%s; %s" % (
            sorted((show(v), n) for n, v in index.items()), [(s.position, s.name) for s in order]), r.note.where())


def places(t, obj):
    """what sections a place is looked up by, in a path through section_relocations"""
    out = set()
    for x in walk(t):
        if x.op == "elem" and base_of(mk("ptr", x.a[0], tuple(x.a[1]))) == (obj, ("section_relocations",)):
            out.add(strip(x.a[2]))
    return out


def at_place(an, e, obj, field):
    """the event changes `field` of the piece noted for a section: the sections it is looked up by, else None"""
    b, p = base_of(strip(mk("ptr", e.d[0], tuple(e.d[1]))))
    if b is not obj or p != ("section_relocations", "[]", "section", "chunks", "[]", field):
        return None
    root = strip(e.d[0])
    if root.op != "elem" or base_of(root.a[2]) != (obj, ("section_relocations", "[]", "chunk")):
        return None
    return places(root, obj)


def scenario(values, guards, obj, section):
    """what is asked about a symbol or relocation, given fields of it; its section is kept"""
    def f(t):
        if t.op in ("fld", "ld", "at"):
            n = path_names((t.a[1],))[-1:] if t.op == "fld" else path_names(t.a[1])[-1:] if t.op == "ld" else ()
            if n and n[0] in values and mentions(t, lambda x: x.op in ("call", "at", "elem") and x is not t and section(x)):
                return I(values[n[0]])
        if t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0].endswith(("::get_at", "::get")):
            return I1
        if t.op == "has":
            b, p = base_of(strip(t.a[0]))
            return I(int(b is obj and p in (("section_relocations",), ("symbols",))))
        if t.op == "more" and strip(t) in guards:
            return guards[strip(t)]
        return None
    return Eval(f)


def symbols(ctx, rep):
    fs = ctx.find("lib", r"ElfObject(::<.*>|<.*>)?::process_symbols$")
    if not rep.need("ElfObject::process_symbols", len(fs) == 1):
        return
    an = ctx.run("lib", fs[0])
    rep.an(an)
    obj = base_of(an.args[0])[0]
    es = [e for e in an.events if e.kind == "minsert" and e.loops and base_of(strip(mk("ptr", e.d[0], tuple(e.d[1]))))[1][-3:] == ("chunks", "[]", "symbols")]
    if not rep.need("symbols are given to a piece", es):
        return
    lid = es[0].loops[-1]
    d = domain(an, lid)
    w = all_of(an, lid)
    rep.ob("symbols: all of an object", bool(w) and w[1] is obj and w[2] == ("elf", "syms") and w[3] == 0 and
           strip(entry_cond(an, an.loops[lid], None)) is I1, str(d.iters)[:200], es[0].where())
    ix = [strip(i) for i, s in d.iters]

    def this(x):
        return x.op == "at" and base_of(x) == (obj, ("elf", "syms", "[]")) and all(mentions(x, lambda y, i=i: y is i) for i in ix)

    def number(t):
        t = untrunc(t, 16)
        return t.op == "fld" and path_names((t.a[1],)) == ("st_shndx",) and this(strip(t.a[0]))
    for e in es:
        ks = at_place(an, e, obj, "symbols")
        rep.ob("symbols: given to the piece of the section they name: %s" % variant(e.d[2]), bool(ks) and all(number(k) for k in ks) and e.loops == es[0].loops,
               show(e.d[0])[:160], e.where())
    guards = {strip(g): v for g, v in d.guards.items()}
    for bind, b in (("local", 0), ("global", 1), ("weak", 2)):
        for typ, y in (("untyped", 0), ("object", 1), ("function", 2), ("section", 3)) if b == 0 else (("untyped", 0), ("object", 1), ("function", 2)):
            val = {"st_info": b << 4 | y, "st_shndx": 5, "st_other": 0}
            u = scenario(val, guards, obj, this)
            conds = [u(strip(under(d.guards)(e.cond()))) for e in es]
            ps = paths(conds)
            ok = ps is not None and bool(ps)
            bad = ""
            for f, why, cs in ps or ():
                if sum(c is I1 for c in cs) != 1 or any(c not in (I0, I1) for c in cs):
                    ok, bad = False, "%s when %s" % ([show(c)[:60] for c in cs], [(show(a)[:80], c) for a, c in why][:4])
            rep.ob("symbols: a %s %s symbol is given to one piece" % (bind, typ), ok, bad, es[0].where())


def variant(t):
    t = strip(t)
    return t.a[1] if t.op == "agg" else t.op


def relocations(ctx, rep):
    fs = ctx.find("lib", r"ElfObject(::<.*>|<.*>)?::process_relocations$")
    if not rep.need("ElfObject::process_relocations", len(fs) == 1):
        return
    an = ctx.run("lib", fs[0])
    rep.an(an)
    obj = base_of(an.args[0])[0]
    es = [e for e in an.events if e.kind in ("push", "insert", "extend") and e.loops and
          base_of(strip(mk("ptr", e.d[0], tuple(e.d[1]))))[1][-1:] == ("relocations",)]
    if not rep.need("relocations are given to a piece", es):
        return
    rep.ob("relocations: given to a piece once", len(es) == 1 and es[0].kind == "push" and len(es[0].loops) == 2, "%d" % len(es), es[0].where())
    e = es[0]
    if len(e.loops) != 2 or e.kind != "push":
        return
    d0, d1 = (domain(an, l) for l in e.loops)
    w = all_of(an, e.loops[0])
    rep.ob("relocations: all tables of an object", bool(w) and w[1] is obj and w[2] == ("elf", "shdr_relocs") and w[3] == 0 and
           strip(entry_cond(an, an.loops[e.loops[0]], None)) is I1, str(d0.iters)[:200], e.where())
    i0 = [strip(i) for i, s in d0.iters]
    w = all_of(an, e.loops[1])
    it = d1.iters[0][0] if len(d1.iters) == 1 else I0
    ok = bool(w) and w[3] == 0 and w[1] is obj and w[2] == ("elf", "shdr_relocs", "[]", "1") and \
        all(mentions(strip(it), lambda x, i=i: x is i) for i in i0)
    inner = scenario({}, {strip(g): v for g, v in d0.guards.items()}, obj, lambda x: False)(
        strip(under(d0.guards)(entry_cond(an, an.loops[e.loops[1]], e.loops[0]))))
    rep.ob("relocations: all of a table", ok and inner is I1, str(d1.iters)[:200] + show(inner)[:200], e.where())
    i1 = [strip(i) for i, s in d1.iters]

    def this(x):
        return x.op == "at" and all(mentions(x, lambda y, i=i: y is i) for i in i1)

    def number(t):
        t = untrunc(t)
        b, p = base_of(t)
        if b is not obj or p != ("elf", "section_headers", "[]", "sh_info"):
            return False
        return any(base_of(x) == (obj, ("elf", "shdr_relocs", "[]", "0")) and all(mentions(x, lambda y, i=i: y is i) for i in i0)
                   for x in walk(t) if x.op in ("ld", "fld"))
    ks = at_place(an, e, obj, "relocations")
    rep.ob("relocations: given to the piece of the section their table is for", bool(ks) and all(number(k) for k in ks), show(e.d[0])[:200], e.where())
    guards = {strip(g): v for d in (d0, d1) for g, v in d.guards.items()}
    for n in (1, 2, 4, 9, 10, 11, 24, 41, 42):
        c = scenario({"r_type": n}, guards, obj, this)(strip(under(d1.guards)(e.cond())))
        rep.ob("relocations: type %d is kept" % n, c is I1, show(c)[:160], e.where())
    v = strip(e.d[2])
    x = v.a[3][0] if v.op == "agg" and v.a[3] else None
    if not rep.need("a relocation with its symbol", x is not None and x.op == "agg" and "r_offset" in x.a[2] and len(v.a[3]) == 2):
        return
    o = untrunc(fields(x)["r_offset"], 64)
    rep.ob("relocations: the place is that in the section", o.op == "fld" and path_names((o.a[1],)) == ("r_offset",) and this(o.a[0]), show(o)[:120], e.where())
    y = v.a[3][1]
    b, p = base_of(y)
    gets = [g for g in walk(y) if g.op in ("fld", "at") and mentions(g, this)]
    cut = [g for g in walk(y) if g.op == "trunc" and g.a[0] < 32 and mentions(g, this)]
    rep.ob("relocations: the symbol is the one noted for it", b is obj and p == ("symbols", "[]") and not cut and any(
        g.op == "fld" and path_names((g.a[1],)) == ("r_sym",) and this(g.a[0]) for g in gets) and mentions(
            y, lambda g: g.op in ("ptr", "ld") and base_of(g) == (obj, ("elf", "syms"))), show(y)[:160], e.where())


def going_on(an, u, c):
    """c in a round of the innermost loop"""
    for g, v in domain(an, u[-1]).guards.items() if u else ():
        c = band(c, cond_eq(g, v.a[0]))
    return c


def linked(ctx, rep):
    """the passes are made for each object that is linked"""
    an = ctx.link()
    if not rep.need("Linker::link", an):
        return
    rep.an(an)
    loops = {"sections": [], "symbols": [], "relocations": []}
    for e in an.events:
        if e.kind in ("minsert", "push") and len(e.loops) >= 2:
            b, p = base_of(strip(mk("ptr", e.d[0], tuple(e.d[1]))))
            n, lid = None, None
            if e.kind == "minsert" and p[-1:] == ("section_relocations",):
                n, lid = "sections", e.loops[-1]
            elif e.kind == "minsert" and p[-6:] == ("section_relocations", "[]", "section", "chunks", "[]", "symbols"):
                n, lid = "symbols", e.loops[-1]
            elif e.kind == "push" and p[-6:] == ("section_relocations", "[]", "section", "chunks", "[]", "relocations"):
                n, lid = "relocations", e.loops[-2]
            if n and lid not in [x for x, _ in loops[n]]:
                loops[n].append((lid, e))
    if not rep.need("the passes over objects", all(loops.values())):
        return

    def up(lid, e):
        return e.loops[:e.loops.index(lid)]
    for lid, e in loops["sections"]:
        u = up(lid, e)
        miss = bnot(entry_cond(an, an.loops[lid], u[-1] if u else None))
        same = [x for x, y in loops["symbols"] if up(x, y) == u]
        for x in same:
            miss = band(miss, entry_cond(an, an.loops[x], u[-1]))
        miss = going_on(an, u, miss)
        rep.ob("link: the sections of an object are placed before anything else of it (%d)" % len(u),
               miss is I0 or event_cond_fails(an, u, miss), show(miss)[:160], e.where())
    for lid, e in loops["symbols"]:
        u = up(lid, e)
        rs = [x for x, y in loops["relocations"] if up(x, y) == u]
        miss = going_on(an, u, entry_cond(an, an.loops[lid], u[-1] if u else None))
        for x in rs:
            miss = band(miss, bnot(entry_cond(an, an.loops[x], u[-1] if u else None)))
        rep.ob("link: the relocations of an object follow its symbols (%d)" % len(u), bool(rs) and (miss is I0 or event_cond_fails(an, u, miss)),
               show(miss)[:160], e.where())


def addresses(ctx, rep):
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    stores = [e for e in an.events if e.kind == "store" and e.loops and base_of(strip(mk("ptr", e.d[0], tuple(e.d[1]))))[1][-3:] in (
        ("chunks", "[]", "address"),)]
    heads = [e for e in an.events if e.kind == "store" and e.loops and base_of(strip(mk("ptr", e.d[0], tuple(e.d[1]))))[1] == ("sections", "[]", "sh", "sh_addr")]
    if not rep.need("addresses of pieces", stores) or not rep.need("addresses of sections", heads):
        return
    done = []
    for e in stores:
        key = "addresses: %s" % ("of the pieces of a section, one after the other")
        if not rep.ob("addresses: of all pieces of a section", len(e.loops) >= 2, "", e.where()):
            continue
        outer_, lid = e.loops[-2:]
        d = domain(an, lid)
        w = d.whole()
        six = [strip(i) for i, _ in domain(an, outer_).iters]
        c = strip(under(d.guards)(e.cond(within=lid)))
        rep.ob("addresses: of all pieces of a section", bool(w) and not d.rev and w[2] == ("sections", "[]", "chunks") and w[3] == 0 and c is I1 and
               all(mentions(strip(e.d[0]), lambda x, i=i: x is i) for i in six), str(d.iters)[:160], e.where())
        v = e.d[2]
        v = v.a[3][0] if v.op == "agg" and v.a[1] == "Some" else v
        hs = [h for h in heads if h.loops == e.loops[:-1] and h.seq < e.seq]
        ok, text = False, show(v)[:160]
        mus = {x for x in walk(v) if x.op == "mu" and x.a[0] == lid}
        if len(mus) == 1:
            l = an.loops[lid]
            mu = list(mus)[0]
            init, nxt = l.init.env.get(mu.a[1]), l.latch.env.get(mu.a[1])
            if init is not None and nxt is not None:
                step = strip(sub(Rebuild(lambda x: nxt if x is mu else None)(v), v))
                init = Rebuild(lambda x: init if x is mu else None)(v)
                pix = [strip(i) for i, _ in d.iters]
                ok = step.op == "ld" and base_of(step)[1] == ("sections", "[]", "chunks", "[]", "size") and \
                    all(mentions(step, lambda x, i=i: x is i) for i in pix + six)
                text = "by %s" % show(step)[:120]
                start = strip(init)
                from_ = [h for h in hs if strip(h.d[2]) is start or start.op == "ld" and base_of(start)[1] == ("sections", "[]", "sh", "sh_addr")]
                if ok and not rep.ob("addresses: the first piece is at the address of the section", bool(from_), show(start)[:160], e.where()):
                    continue
                if from_:
                    done.append((from_[-1], entry_cond(an, an.loops[lid], outer_)))
        rep.ob(key, ok, text, e.where())
    for h in heads:
        miss = h.cond(within=h.loops[-1])
        for g, c in done:
            if g.loops == h.loops and g.seq >= h.seq:
                miss = band(miss, bnot(c))
        miss = strip(under(domain(an, h.loops[-1]).guards)(miss))
        rep.ob("addresses: pieces follow their section", miss is I0, show(miss)[:160], h.where())
    p = patch.Patch(an)
    if rep.need("the pass that turns values into addresses", p.ok):
        patch.run(an, rep, p)
