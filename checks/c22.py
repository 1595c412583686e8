"""The search is read off its loops: what a name can be resolved to, under which tests, in which order of directories and
kinds, that the first match is kept, and what becomes of names that nothing matches."""
TECHNIQUE = "dataflow over MIR: reaching definitions of the file a name is resolved to, loop domains and exits of the search, partial evaluation for names of libraries and of files"
NOTE = "A library is a name given by -l; the directories are those of -L. That options are stored as given: C21; whether a library is recorded as needed: C25."

from terms import *
from query import *
import cli
import unroll

KINDS = ["so", "a"]
TESTS = ("Path::exists", "Path::is_file", "Path::is_dir")


def run(ctx, rep):
    rep.rule("the name of a library stands for the first file called lib<name>.so in the directories given, in their order, and if there is none, for the first called lib<name>.a")
    rep.rule("what was found is kept, and linked; a name that nothing matches fails the link")
    rep.rule("all inputs are searched for, in their order, and what scripts name as well, before the link starts")
    an = ctx.main()
    rep.an(an)
    ps = cli.loops(an)
    if not rep.need("the loops that handle arguments", bool(ps)):
        return
    links = [e for e in an.events if e.kind == "call" and e.d[0].endswith("::link") and "Linker" in e.d[0]]
    if not rep.need("the start of the link", len(links) == 1):
        return
    found = []
    for p in ps:
        parse(an, rep, p, links[0], found)
    lists = {e.d[1][-1] for s in found for e in s.pushes}
    directories(an, rep, ps)
    scripts(an, rep, links[0], found)


def shape_list(p):
    """(names of the list of inputs, of that of directories, the inputs -l and plain arguments add)"""
    plain = p.pushed(p.given("some.o"))
    lib = p.pushed(p.given("-l"))
    joined = p.pushed(p.given("-lsome"))
    dirs = p.pushed(p.given("-L"))
    if any(len(x) != 1 for x in (plain, lib, joined, dirs)):
        return None
    return plain[0], lib[0], joined[0], dirs[0]


class Search(object):
    pass


def parse(an, rep, p, link, found):
    tag = "" if any("env" in show(a) for a in p.args) else " (script)"
    x = shape_list(p)
    if not rep.need("what arguments add" + tag, x is not None):
        return
    plain, lib, joined, dirs = x
    inputs, dlist = plain[1], dirs[1]
    where = p.head[0].where()
    rep.ob("a library is an input like others" + tag, lib[1] == inputs and joined[1] == inputs, str(lib[1]), where)
    # what tells a library from a file
    n, flag = None, []
    same = plain[2].op == "agg" and all(v[2].op == "agg" and v[2].a[:3] == plain[2].a[:3] for v in (lib, joined))
    if same:
        for i, f in enumerate(plain[2].a[2]):
            a, b, c = plain[2].a[3][i], lib[2].a[3][i], joined[2].a[3][i]
            if a is S("some.o"):
                n = f
                rep.ob("the name of the library" + tag, b is cli.OPERAND and c is S("some"), show(b), where)
            elif a is not b:
                rep.ob("both spellings are the same" + tag, b is c, "%s, %s" % (show(b), show(c)), where)
                flag.append((f, a, b))
    if not rep.need("the names of inputs" + tag, n is not None):
        return
    rep.ob("a library is told from a file" + tag, bool(flag), "the search cannot tell -l from a file", where)
    # the loop over them
    loops = []
    for lid, l in an.loops.items():
        if parent(l) != parent(p.l) or lid <= p.lid:
            continue
        d = domain(an, lid)
        for iv, s in d.iters[:1]:
            if s[0] == "each" and s[2][-len(inputs):] == inputs and mentions_loop(l, p):
                loops.append((lid, d, s))
    if not rep.need("the loop over the inputs" + tag, len(loops) == 1):
        return
    lid, d, s = loops[0]
    l = an.loops[lid]
    where = next((e.where() for e in an.steps if e.loops and e.loops[-1] == lid), where)
    rep.ob("inputs: from the first to the last" + tag, s[3] == 0 and not d.rev, str(s), where)
    reached = band(entry_cond(an, p.l, parent(p.l)), cond_eq(mk("exit", p.lid), ok_exit(an, p)))
    rep.ob("inputs: all are searched for" + tag, implies(reached, entry_cond(an, l, parent(l))), show(entry_cond(an, l, parent(l)))[:200], where)
    sr = Search()
    sr.lid, sr.inputs, sr.dlist, sr.p, sr.l = lid, inputs, dlist, p, l
    sr.elem = None
    for e in an.events:
        if lid in e.loops:
            for v in [y for y in e.d if isinstance(y, T)] + [e.pc]:
                for t in walk(v):
                    if t.op == "at" and base_of(t)[1][-len(inputs) - 1:] == inputs + ("[]",) and any(y.op == "iv" and y.a[0] == d.iters[0][0].a[0] for y in walk(t.a[1])):
                        sr.elem = t
    sr.pushes = [e for e in an.events if e.kind in ("push", "insert", "minsert") and e.loops and e.loops[-1] == lid and
                 isinstance(e.d[1], tuple) and e.d[1] != inputs]
    if not rep.need("what becomes of what is found" + tag, sr.elem is not None and len(sr.pushes) >= 3):
        return
    found.append(sr)
    name = proj1(sr.elem, n)
    is_lib = {proj1(sr.elem, f): b for f, a, b in flag}
    is_plain = {proj1(sr.elem, f): a for f, a, b in flag}
    for n, x in enumerate(l.exits):
        sg = under({strip(g): v for g, v in domain(an, lid).guards.items()})
        if sg(strip(x[1])) is not I0:
            rep.ob("nothing else ends the search, but failures" + tag, exit_k_fails(an, lid, n), show(x[1])[:150], where)
    sites = {site for site, it in l.iters}
    one = Rebuild(lambda t: I0 if t.op == "iv" and t.a[0] in sites else None)
    v = Found(an, rep, sr, one(strip(name)), tag, where)
    v.library({one(strip(k)): x for k, x in is_lib.items()})
    v.plain({one(strip(k)): x for k, x in is_plain.items()})


def ok_exit(an, p):
    ks = [n for n, x in enumerate(p.l.exits) if not exit_k_fails(an, p.lid, n)]
    return ks[0] if len(ks) == 1 else -1


def mentions_loop(l, p):
    return any(t.op == "mu" and t.a[0] == p.lid for s, it in l.iters for t in walk(it)) or \
        any(t.op == "ld" for s, it in l.iters for t in walk(it))


def parts(t):
    """the pieces of a formatted text: literals and values"""
    if t.op == "str":
        return [t.a[0]]
    if t.op != "fmt" or len(t.a) != 2 or t.a[0].op != "arr" or t.a[1].op != "arr":
        return None
    b = [x.a[0] if x.op == "int" else None for x in t.a[0].a]
    if None in b:
        return None
    out, i, k = [], 0, 0
    while i < len(b) and b[i]:
        if b[i] == 192:
            if k >= len(t.a[1].a):
                return None
            x = t.a[1].a[k]
            k += 1
            out.append(x.a[-1] if x.op == "fmtarg" else x)
            i += 1
        elif b[i] < 128:
            out.append(bytes(b[i + 1:i + 1 + b[i]]).decode("utf-8", "replace"))
            i += 1 + b[i]
        else:
            return None
    res = []
    for x in out:
        if isinstance(x, T) and x.op == "str":
            x = x.a[0]
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        else:
            res.append(x)
    return res


STATES = {"file": {"Path::exists": 1, "Path::is_file": 1, "Path::is_dir": 0},
          "directory": {"Path::exists": 1, "Path::is_file": 0, "Path::is_dir": 1},
          "nothing": {"Path::exists": 0, "Path::is_file": 0, "Path::is_dir": 0}}


class Found(object):
    """the search for one input, for given directories and files"""

    def __init__(self, an, rep, sr, name, tag, where):
        self.an, self.rep, self.sr, self.name, self.tag, self.where = an, rep, sr, name, tag, where
        self.seen = set()

    def ob(self, key, ok, detail=""):
        self.rep.ob(key + self.tag, ok, detail, self.where)

    def place(self, t):
        """what a path is: ('name',), ('in', directory, ending) or None"""
        if t is self.name:
            return ("name",)
        if t.op == "p:join" and t.a[0].op == "at" and base_of(t.a[0])[1][-len(self.sr.dlist) - 1:] == self.sr.dlist + ("[]",) \
                and t.a[0].a[1].op == "int":
            if t.a[1] is self.name:
                return ("in", t.a[0].a[1].a[0], None)
            f = parts(t.a[1])
            if f and len(f) == 3 and f[0] == "lib" and isinstance(f[1], T) and strip(f[1]) is self.name and isinstance(f[2], str):
                return ("in", t.a[0].a[1].a[0], f[2])
        return None

    def places(self, t, out):
        if isinstance(t, tuple):
            for x in t:
                self.places(x, out)
        elif isinstance(t, T):
            p = self.place(t)
            if p:
                out.add(p)
            else:
                self.places(t.a, out)
        return out

    def unroll(self, u, ndirs, files):
        """files: {place: what is there}"""
        def fix(t):
            if t.op.startswith("p:") and t.op[2:] in TESTS:
                p = self.place(t.a[-1])
                if p is None:
                    for x in t.a:
                        p = p or (isinstance(x, T) and self.place(x)) or None
                if p is None:
                    raise unroll.Unknown("a test of " + show(t)[:150])
                self.asked.add(p)
                self.seen.add(p)
                return I(STATES[files.get(p, "nothing")][t.op[2:]])
            if t.op in ("fld", "at") and t in u:
                return u[t]
            return None

        def count(it, ev):
            while it.op == "it" and it.a[0] in ("copied", "enumerate", "map", "rev") and isinstance(it.a[1], T):
                it = it.a[1]
            if it.op == "it" and it.a[0] == "range" and it.a[1] is I0:
                c0, ds = lin_parts(strip(it.a[2]))
                n = c0
                for t, f in ds:
                    x = lenof(t)
                    if x is None or x[1][-len(self.sr.dlist):] != self.sr.dlist:
                        return None
                    n += f * ndirs
                return max(n, 0)
            if it.op == "it":
                s = shape_of(self.an, it)
                if s[0] == "each" and s[2][-len(self.sr.dlist):] == self.sr.dlist:
                    return ndirs - s[3]
                if it.a[0] in ("val", "seq", "ref"):
                    v = ev(strip(it.a[1]))
                    v = v.a[0] if v.op == "const" else v
                    if v.op == "arr":
                        return len(v.a)
            if it.op == "const":
                it = it.a[0]
            return len(it.a) if it.op == "arr" else None
        return unroll.Unroll(self.an, count, fix, self.sr.lid)

    def outcome(self, u, ndirs, files):
        """(what is linked, [place]; goes on: condition; fails: condition)"""
        self.asked = set()
        w = self.unroll(u, ndirs, files)
        ev0 = w.at(((self.sr.lid, 0),))
        sg = under({strip(g): v for g, v in domain(self.an, self.sr.lid).guards.items()})

        def ev(t):
            return ev0(sg(strip(t)))
        took = []
        for e in self.sr.pushes:
            c = ev(e.cond(within=self.sr.lid))
            if c is not I0:
                v = ev(e.d[2])
                took.append((e, c, self.places(v, set())))
        went = ev(self.sr.l.latch.pc)
        fails = I0
        for n, x in enumerate(self.sr.l.exits):
            c = ev(x[1])
            if c is not I0 and exit_k_fails(self.an, self.sr.lid, n):
                fails = bor(fails, c)
        return took, went, fails

    def check(self, key, u, ndirs, files, want):
        try:
            took, went, fails = self.outcome(u, ndirs, files)
        except unroll.Unknown as e:
            self.ob(key, False, "not decided: %s" % e)
            return
        said = "; ".join("%s: %s" % (desc(k), v) for k, v in sorted(files.items(), key=str)) or "no file"
        if want is None:
            self.ob(key, went is I0 and not took and fails is I1,
                    "with %s: %s" % (said, "goes on if " + show(went)[:100] if went is not I0 else "no error"))
            return
        got = set()
        for e, c, ps in took:
            got |= ps or {("?",)}
        self.ob(key, got == {want}, "with %s: %s instead of %s" % (said, ", ".join(desc(g) for g in sorted(got, key=str)) or "nothing", desc(want)))
        if got == {want}:
            self.kept(took, went)

    def kept(self, took, went):
        done = I0
        for n, (e, c, ps) in enumerate(took):
            self.ob("what is found is linked: %s" % e.d[1][-1], e.kind == "push", show(e.d[2])[:100])
            for f, d, _ in took[:n]:
                self.ob("it is linked once", band(d, c) is I0, "%s and %s" % (e.d[1][-1], f.d[1][-1]))
            done = bor(done, c)
        for t in {t for t in walk(went) if t.op == "contains"} | {t for _, c, _ in took for t in walk(c) if t.op == "contains"}:
            if any(isinstance(y, T) and any(self.place(z) for z in walk(y)) for y in t.a):
                done = bor(done, cond_eq(t, 1))
        self.ob("what is found is linked", implies(went, done) and went is not I0, "not if " + show(band(went, bnot(done)))[:200])

    def library(self, u):
        places = [("in", d, "." + k) for k in KINDS for d in range(2)]

        def best(files, n):
            for k in KINDS:
                for d in range(n):
                    if files.get(("in", d, "." + k)) == "file":
                        return ("in", d, "." + k)
            return None
        import itertools
        everywhere = {("name",): "file", ("in", 0, None): "file", ("in", 1, None): "file", ("in", 0, ""): "file"}
        for w in itertools.product(("nothing", "directory", "file"), repeat=4):
            files = {p: x for p, x in zip(places, w) if x != "nothing"}
            b = best(files, 2)
            self.check("a library: the first lib<name>.so in the directories, else the first .a" if b else
                       "a library: not found, an error", u, 2, files, b)
            if len(files) < 2:
                self.check("a library: no file of another name" if b else "a library: not found, an error", u, 2, {**everywhere, **files}, b)
        for k in KINDS:
            for d in range(4):
                files = {("in", d, "." + k): "file"}
                self.check("a library: looked for in every directory", u, 4, files, best(files, 4))
        self.check("a library: not found, an error", u, 0, {}, None)
        for p in sorted(self.seen - set(everywhere) - {("in", d, "." + k) for k in KINDS for d in range(4)}, key=str):
            self.check("a library: no file of another name", u, 2, {p: "file"}, None)
            self.check("a library: no file of another name", u, 2, {p: "file", places[3]: "file"}, places[3])

    def plain(self, u):
        for n in (0, 2):
            self.check("a file: taken if it is there", u, n, {("name",): "file"}, ("name",))
            self.check("a file: taken if it is there", u, n, {("name",): "file", ("in", 0, ".so"): "file", ("in", 1, None): "file"}, ("name",))
            self.check("a file: what is nowhere is an error", u, n, {}, None)
            self.check("a file: a directory isn't taken", u, n, {("name",): "directory"}, None)


def desc(p):
    if p[0] == "name":
        return "<name>"
    if p[0] == "in":
        return "%s in directory %d" % ("<name>" if p[2] is None else "lib<name>" + p[2], p[1] + 1)
    return "another file"


def directories(an, rep, ps):
    """the list of directories stays as the options made it"""
    names = set()
    for p in ps:
        x = shape_list(p)
        if x:
            names.add(x[3][1])
    for e in an.events:
        if len(e.d) < 2 or not isinstance(e.d[1], tuple):
            continue
        if e.kind in ("sort", "sorted", "insert", "vremove", "retain", "truncate", "clear", "drain", "pop", "dedup", "swap", "reverse", "keep", "extend") \
                and any(e.d[1][-len(n):] == n for n in names if n):
            rep.ob("the list of directories stays as given", False, e.kind, e.where())
        if e.kind == "push" and any(e.d[1][-len(n):] == n for n in names if n):
            rep.ob("directories come from options", any(p.lid in e.loops for p in ps), show(e.d[2])[:100], e.where())


def scripts(an, rep, link, found):
    """the link starts when nothing is left to be searched for"""
    full = link.full()
    for s in found:
        up = parent(s.l)
        if up is None:
            ok = False
            for n, x in enumerate(s.l.exits):
                if not exit_k_fails(an, s.lid, n):
                    rest = under({mk("exit", s.lid): I(n)})(full)
                    ok = ok or rest is not I0
                elif len(s.l.exits) > 1:
                    rest = under({mk("exit", s.lid): I(n)})(full)
                    rep.ob("no link after a failed search", rest is I0, show(rest)[:100], link.where())
            rep.ob("a link after the search", ok, "", link.where())
        else:
            l = an.loops[up]
            for n, x in enumerate(l.exits):
                if exit_k_fails(an, up, n):
                    continue
                pops = [e for e in an.events if e.kind == "pop" and up in e.loops and e.loops[-1] == up]
                pops = [e for e in pops if any(q.d[1][-1:] == e.d[1][-1:] for q in s.pushes)]
                if not rep.need("the list of scripts", bool(pops)):
                    return
                empty = set()
                for t in subjects(x[1]):
                    if t.op == "len" and base_of(t.a[0])[1][-1:] == pops[0].d[1][-1:]:
                        empty.add(t)
                ok = bool(empty) and all(under({t: I1})(x[1]) is I0 for t in empty)
                rep.ob("scripts are followed until none is left", ok, show(x[1])[:150], pops[0].where())
