"""Every loop over a hashed collection on the way from the inputs to the image is found, and shown to give the same
result in whichever order the elements come: what it collects is sorted by something no two elements share, what it
finds is the only match, and what it changes is the element's own place, from values the loop itself does not change."""
TECHNIQUE = "order-taint analysis over MIR: hash-ordered loops, what leaves them, and what they write"
NOTE = "Places reached through an element (its slot, its entry of the dynamic table) are its own: C05, C18, C27. Clocks, random numbers, threads, directory listings and addresses are not used."

import re
from terms import *
from query import *
from order import follow

HASHED = r"collections::(hash_map::|hash_set::)?Hash(Map|Set)\b|\bhash_(map|set)::"
FREE = {"get", "get_mut", "get_key_value", "contains", "contains_key", "insert", "remove", "remove_entry", "take", "len",
        "is_empty", "entry", "clear", "new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "default",
        "reserve", "shrink_to_fit", "capacity", "index", "or_insert", "or_insert_with", "or_insert_with_key", "or_default",
        "and_modify", "key", "into_mut", "insert_entry", "replace", "get_or_insert_with", "drop", "drop_in_place", "hash", "deref",
        "collect", "from_iter", "extend", "from", "eq", "ne", "is_subset", "is_superset", "is_disjoint", "as_ref", "as_mut",
        "fmt", "borrow", "take", "mem", "swap", "replace", "unwrap", "expect", "as_deref", "is_some", "is_none", "new_debug"}
CHANCE = r"::time::(SystemTime|Instant)|\b(rand|getrandom|fastrand|uuid|tempfile)::|thread::(spawn|scope|current|Builder)|" \
    r"process::id\b|fs::read_dir|fs::ReadDir|RandomState::new|RandomState as .*BuildHasher>|BuildHasher::(hash_one|build_hasher)|" \
    r"Metadata::(modified|accessed|created|len_hint)|MetadataExt::(mtime|atime|ctime|ino|dev)|ptr::(addr_of_val)|" \
    r"::addr\b|expose_provenance|expose_addr|fmt::Pointer|new_pointer|type_id\b|TypeId|available_parallelism|JoinHandle|mpsc::|atomic::Atomic"


def run(ctx, rep):
    rep.rule("elements of a hashed collection change only places of their own, from values the loop does not change")
    rep.rule("what is collected from a hashed collection is sorted, before use, by a key no two elements share")
    rep.rule("an element found in a hashed collection is the only one that matches")
    rep.rule("nothing else that differs from run to run is read")
    ans = []
    for n, g in (("link", ctx.link), ("main", ctx.main)):
        a = g()
        rep.an(a)
        ans.append((n, a))
    seen = set()
    loops = 0
    for n, a in ans:
        for lid, l in a.loops.items():
            hs = [(s, it) for s, it in l.iters if hashed(it)]
            if hs:
                loops += 1
                Loop(ctx, rep, n, a, l, hs).check()
        escape(rep, n, a)
        seen |= set(a.analysed)
    rep.ob("loops over hashed collections: analysed", True, "%d" % loops, "link")
    walked(ctx, rep, seen, ans)
    chance(ctx, rep)


def hashed(it):
    return any(x.op == "it" and x.a and x.a[-1] == "hash" for x in walk(it))


def mapname(it):
    for x in walk(it):
        if x.op == "it" and x.a[-1] == "hash":
            if x.a[0] == "map":
                p = tuple(y for y in x.a[2] if isinstance(y, str) and not y.isdigit() and y[0] != "<")
                return p or base_of(strip(mk("ptr", x.a[1], ())))[1][-1:]
            return ("a local collection",)
    return ()


def walked(ctx, rep, seen, ans):
    """the places where a hashed collection is walked, by the types of the callees, are all among the loops analysed"""
    n = 0
    for cr in ("lib", "bin"):
        p = ctx.prog(cr)
        per = {}
        for f, c, line in p.calls(HASHED):
            m = re.search(r"::(\w+)(<[^{}]*>)?$", strip_generics(c))
            name = m.group(1) if m else "?"
            if name in FREE and not re.search(r"^std::(iter::Iterator|iter::IntoIterator)::", c) or name in FREE and into_hash(c):
                continue
            if re.search(HASHED, first_generic(c)) is None and re.match(HASHED_OWN, c) is None:
                continue  # the hashed collection is not what is walked
            per.setdefault(f.name, []).append(name)
        for f, names in sorted(per.items()):
            n += 1
            k = "%s: %s" % (short(f), ", ".join(sorted(set(names))))
            if f not in seen:
                # not on the way from the inputs to the image, or the analysis did not get there
                used = reaches(ctx, cr, f)
                rep.ob("%s: analysed, or not part of a link" % k, not used, "reached from the linker, but not analysed", f)
                continue
            rep.ob("%s: a loop over it is analysed" % k, any(hashed(it) for _, a in ans for l in a.loops.values()
                                                           for s, it in l.iters if inside(a, l, f)), "", f)
    rep.ob("hashed collections are found", n >= 1, str(n), "types of the callees")


HASHED_OWN = r"^std::collections::(hash_map::|hash_set::)?(Hash(Map|Set)|\w+)::<"


def inside(a, l, f):
    """the loop belongs to the function, or to one it is inlined in"""
    return any(f == x[3] for x in getattr(l, "frames", ()) if len(x) > 3) or not getattr(l, "frames", None)


def strip_generics(c):
    """the callee without its generic arguments"""
    out, d = [], 0
    for ch in c:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).rstrip(":")


def first_generic(c):
    m = re.search(r"<(.*)>$", c)
    if not m:
        return ""
    d = 0
    s = m.group(1)
    for i, ch in enumerate(s):
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        elif ch == "," and d == 0:
            return s[:i]
    return s


def into_hash(c):
    """collecting INTO a hashed collection"""
    return "::collect<" in c and re.search(HASHED, first_generic(c)) is None


def short(f):
    return re.sub(r"<[^<>]*>", "", f).replace("::::", "::")


def reaches(ctx, cr, f):
    p = ctx.prog(cr)
    work, seen = [f], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if re.search(r"^dld::Linker.*::link(::<.*>)?$|::main$|^main$", x):
            return True
        for g, n_, l in p.calls(re.escape(re.sub(r"::<[^{}]*>$", "", x))):
            work.append(g.name)
    return False


class Loop(object):
    def __init__(self, ctx, rep, n, a, l, hs):
        self.ctx, self.rep, self.an, self.l = ctx, rep, a, l
        self.name = ".".join(mapname(hs[0][1])[-1:]) or "a collection"
        self.sites = {s for s, _ in hs}
        self.its = [it for _, it in hs]
        self.where = str(next((x[3] for x in reversed(getattr(l, "frames", ())) if len(x) > 3), n))
        w = [e for e in a.events if l.id in e.loops]
        if w:
            self.where = w[0].where()
        self.k = "loop over %s" % self.name
        self.inside = w

    def elem(self, t):
        """mentions this loop's element"""
        return mentions(t, lambda x: x.op == "iv" and x.a[0] in self.sites and x.a[1] in self.its)

    def mus(self, t):
        return mentions(t, lambda x: x.op == "mu" and x.a[0] == self.l.id)

    def check(self):
        self.collected()
        self.found()
        self.effects()

    # what is unique to an element -------------------------------------------------

    def unique(self, t):
        """no two elements have the same t"""
        t = strip(t)
        while t.op == "ptr" and not t.a[1] or t.op in ("const", "ref"):
            t = strip(t.a[0])
        if t.op in ("key",) and t.a[1].op == "iv" and t.a[1].a[0] in self.sites:
            return True
        if t.op in ("ld", "fld"):
            b, p = base_of(t)
            if b.op == "key" and self.elem(b):
                return not p
            # the value kept for the key: a number handed out when it was put in
            names = [x for x in p if not x.startswith("<")]
            if self.elem(t) and names and any(x == "[]" for x in names):
                i = len(names) - 1 - names[::-1].index("[]")
                return handed_out(self.ctx, names[i - 1] if i else "", names[i + 1:])
        if t.op == "md":  # which of several collections it is does not depend on the element
            return all(self.unique(x) for x in leaves(t) if x is not BOT) and not any(self.elem(x) for x in subjects(t))
        if t.op == "agg" and len(t.a) > 3:
            return any(self.unique(x) for x in t.a[3])
        return False

    # what is collected ----------------------------------------------------------

    def collected(self):
        rep, l = self.rep, self.l
        for key in sorted(l.mods, key=str):
            if l.latch is None:
                continue
            nxt = l.latch.env.get(key)
            if nxt is None:
                continue
            ms = [x for x in walk(nxt) if x.op == "mu" and x.a[0] == l.id and x.a[1] == key]
            uses = self.uses(key)
            if not uses:
                continue
            if ms and self.commutes(nxt, ms[0]):
                continue
            rep.ob("%s: what it collects is sorted by something no two elements share" % self.k, False,
                   "%s in %s" % (show(nxt)[:160], uses[0]), self.where)
        # sorted: said so
        for src, cmp_ in self.sorts():
            ok = self.total(src, cmp_)
            rep.ob("%s: what it collects is sorted by something no two elements share" % self.k, ok, show(cmp_)[:200], self.where)

    def sorts(self):
        out = {}
        for e in self.an.events:
            for d in list(e.d) + [e.full()]:
                if isinstance(d, T):
                    for x in walk(d):
                        if x.op == "vsorted" and x.a[0].op == "mu" and x.a[0].a[0] == self.l.id:
                            out[(x.a[0], x.a[1])] = True
        for ll in self.an.loops.values():
            for s, it in ll.iters:
                for x in walk(it):
                    if x.op == "vsorted" and x.a[0].op == "mu" and x.a[0].a[0] == self.l.id:
                        out[(x.a[0], x.a[1])] = True
            for env in (ll.init.env,):
                for v in env.values():
                    if isinstance(v, T):
                        for x in walk(v):
                            if x.op == "vsorted" and x.a[0].op == "mu" and x.a[0].a[0] == self.l.id:
                                out[(x.a[0], x.a[1])] = True
        return sorted(out, key=lambda p: show(p[1]))

    def uses(self, key):
        """where what the loop collects is used, other than to sort it"""
        l = self.l
        seen = set()

        def bad(t):
            work = [t]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "vsorted" and x.a[0].op == "mu" and x.a[0].a[0] == l.id:
                    work += [y for y in kids(x.a[1])]
                    continue
                if x.op == "len" and x.a[0].op == "mu" and x.a[0].a[0] == l.id:
                    continue
                if x.op == "mu" and x.a[0] == l.id and x.a[1] == key:
                    return True
                work += kids(x)
            return False
        out = []
        for e in self.an.events:
            if e.kind in ("sort", "sorted", "assert") or l.id in e.loops:
                continue
            for d in list(e.d) + [e.cond()]:
                if isinstance(d, T) and bad(d):
                    out.append("%s at %s" % (e.kind, e.where()))
        for ll in self.an.loops.values():
            for s, it in ll.iters:
                if ll.id != l.id and bad(it):
                    out.append("a loop")
            for x in ll.exits:
                if ll.id != l.id and bad(x[1]):
                    out.append("the end of a loop")
        if isinstance(self.an.ret, T) and bad(self.an.ret):
            out.append("the result")
        return out

    def commutes(self, nxt, m):
        """the order does not matter to what is accumulated: a sum, or the same value whenever it changes"""
        for v in vals(nxt):
            if v is m:
                continue
            if not self.elem(v) and not self.mus(v):
                continue
            c0, ds = lin_parts(v) if v.op == "lin" else (0, [])
            if v.op == "lin" and any(d is m and n == 1 for d, n in ds) and not any(self.mus(d) for d, n in ds if d is not m):
                continue
            return False
        subj = [x for x in subjects(nxt)] if nxt.op == "md" else []
        return not any(self.mus(s) for s in subj)

    def total(self, src, cmp_):
        """the comparator tells any two elements apart"""
        nxt, init = self.l.latch.env.get(src.a[1]), self.l.init.env.get(src.a[1])
        if nxt is None or nxt.op != "vpush" or nxt.a[0] is not src or init is None or init.op != "arr" or init.a:
            return False
        for el in (nxt.a[1],):
            if cmp_.op == "natural":
                return self.unique(el)
            fields = set()
            for x in walk(cmp_):
                if x.op in ("ld", "fld", "ptr") or x.op == "sortarg":
                    b, p = base_of(x)
                    if b.op == "sortarg":
                        fields.add(p)
            good = [p for p in fields if self.unique(follow(el, p))]
            if not any(tells_apart(cmp_, p) for p in good):
                return False
        return True

    # what is found ---------------------------------------------------------------

    def found(self):
        """uses of an element after the loop: the loop stopped there, and could stop nowhere else"""
        rep, l = self.rep, self.l
        leak = False
        for e in self.an.events:
            if l.id in e.loops or leak:
                continue
            for d in list(e.d) + [e.cond()]:
                if isinstance(d, T) and self.leaks(d):
                    leak = True
                    where = e.where()
                    break
        for ll in self.an.loops.values():
            if ll.id == l.id or leak:
                continue
            if any(self.leaks(it) for s, it in ll.iters if not (set((s,)) & self.sites)):
                leak, where = True, self.where
        stops = [x for x in l.exits if not self.runs_out(x[1])]
        if leak:
            ok = bool(stops) and all(self.only(x[1]) for x in stops)
            rep.ob("%s: the element used after it is the only one to match" % self.k, ok,
                   "; ".join(show(x[1])[:160] for x in stops), where)
        elif stops and [e for e in self.inside if e.kind not in ("assert", "panic", "lock", "unlock")]:
            for i, x in enumerate(l.exits):
                if x in stops and not self.only(x[1]) and not exit_k_fails(self.an, l.id, i):
                    rep.ob("%s: it is not left before the end" % self.k, False, show(x[1])[:160], self.where)

    def leaks(self, t):
        return mentions(t, lambda x: x.op == "iv" and x.a[0] in self.sites and x.a[1] in self.its)

    def guard_true(self, t):
        return I1 if t.op == "more" and t.a[0] in self.sites else None

    def runs_out(self, c):
        return Rebuild(self.guard_true)(c) is I0

    def only(self, c):
        """the condition holds for at most one element: it makes something unique equal to something the loop keeps"""
        c = Rebuild(self.guard_true)(c)
        for s in {x for x in subjects(c)}:
            if s.op == "cmp":
                c0, ds = lin_parts(s.a[0])
                mine = [d for d, n in ds if self.elem(d)]
                if len(mine) == 1 and self.unique(mine[0]) and not any(self.mus(d) for d, n in ds):
                    if all(under({s: I(v)})(c) is I0 for v in (-1, 1)):
                        return True
            else:
                kids_ = [x for x in s.a if isinstance(x, T)]
                mine = [x for x in kids_ if self.elem(x)]
                if s.op in ("eq", "seq", "teq", "streq") and len(mine) == 1 and self.unique(mine[0]):
                    if under({s: I0})(c) is I0:
                        return True
                if len(mine) == 1 and lin_one(s) is not None and self.unique(lin_one(s)):
                    if cond_is_one_value(c, s):
                        return True
        return False

    # what is changed ------------------------------------------------------------------

    def effects(self):
        rep = self.rep
        written = set()
        for e in self.inside:
            if e.kind in ("store", "minsert", "mremove", "vremove", "insert"):
                written.add(tail2(e.d[1]))
        n = 0
        for e in self.inside:
            if e.kind in ("assert", "panic", "lock", "unlock", "downgrade", "sorted", "flush"):
                continue
            if e.full() is I0:
                continue
            n += 1
            where = e.where()
            if e.kind in ("store", "patch", "minsert", "mremove"):
                addr = [mk("ptr", e.d[0], tuple(e.d[1]))] + ([e.d[2]] if e.kind != "store" else [])
                val = {"store": e.d[2:3], "patch": e.d[-1:], "minsert": e.d[3:4], "mremove": ()}[e.kind]
                k = "%s: %s of %s" % (self.k, "store" if e.kind == "store" else e.kind, "/".join(tail2(e.d[1])))
                own = any(self.elem(x) for x in addr)
                same = not any(self.elem(v) or self.mus(v) for v in val if isinstance(v, T))
                if not own and not same:
                    rep.ob("%s: is to the element's own place" % k, False, "%s%s" % (show(e.d[0])[:120], e.d[1]), where)
                    continue
                bad = None
                for t in [x for x in list(val) + addr + [e.cond()] if isinstance(x, T)]:
                    for x in walk(t):
                        if x.op == "mu" and x.a[0] == self.l.id and own:
                            bad = x
                        if x.op == "ld":
                            b, p = base_of(x)
                            if tail2(p) in written and not self.elem(x):
                                bad = x
                rep.ob("%s: depends on nothing the loop changes elsewhere" % k, bad is None, show(bad)[:160] if bad else "", where)
            elif e.kind in ("lstore",):
                continue  # locals are followed through the loop (collected)
            elif e.kind == "call" and re.search(r"\blog::|^(std|core|alloc)::(hint|convert|cmp|ops|clone|mem|iter|slice|str|string|num|option|result|borrow|fmt|hash)::|drop", str(e.d[0])):
                continue
            elif e.kind == "push" and e.d[0].op == "L" and (e.d[0].a in self.l.mods or self.sorted_later(e)):
                continue
            else:
                rep.ob("%s: nothing depends on its order" % self.k, False,
                       "%s %s" % (e.kind, [show(x)[:60] if isinstance(x, T) else str(x)[:60] for x in e.d[:2]]), where)
        rep.ob("%s: every effect was looked at" % self.k, True, "%d" % n, self.where)

    def sorted_later(self, e):
        for s in self.an.events:
            if s.seq > e.seq and s.kind == "sort":
                b, p = base_of(strip(s.d[0])) if s.d[0].op != "slice" else (s.d[0].a[0], tuple(s.d[0].a[1]))
                if b is e.d[0] and tuple(p)[:len(e.d[1])] == tuple(e.d[1]):
                    fields = {base_of(x)[1] for x in walk(s.d[1]) if x.op in ("ld", "fld") and base_of(x)[0].op == "sortarg"}
                    return any(self.unique(follow(e.d[2], p)) and tells_apart(s.d[1], p) for p in fields)
        return False


def kids(x):
    out = []

    def rec(y):
        if isinstance(y, T):
            out.append(y)
        elif isinstance(y, tuple):
            for z in y:
                rec(z)
    for y in x.a:
        rec(y)
    return out


def lin_one(s):
    c0, ds = lin_parts(s)
    return ds[0][0] if len(ds) == 1 else None


def cond_is_one_value(c, s):
    """the diagram c, on s, is zero but for one value"""
    if c.op != "md" or c.a[0] is not s:
        return False
    n = sum(1 for k, v in c.a[1] if v is not I0)
    dd = c.a[2] if len(c.a) > 2 else None
    return n <= 1 and (dd is None or dd is I0)


def tail2(p):
    p = [x for x in p if isinstance(x, str) and not x.startswith("<")]
    return tuple(p[-2:])


def tells_apart(cmp_, path):
    """whatever else the elements have in common, they are not equal if they differ at the path"""
    for d in (-1, 1):
        def rep(t):
            if t.op == "cmp":
                c0, ds = lin_parts(t.a[0])
                ps = {}
                for x, n in ds:
                    b, p = base_of(x)
                    if b.op == "sortarg" and tuple(p) == tuple(path):
                        ps[b.a[0]] = n
                if len(ds) == 2 and len(ps) == 2 and c0 == 0 and ps["a"] == -ps["b"]:
                    return I(d * (1 if ps["a"] > 0 else -1))
            elif t.op not in ("ld", "fld", "sortarg", "md", "lin", "int", "str", "agg", "ptr"):
                ks = [x for x in t.a if isinstance(x, T)]
                bs = [base_of(strip(x)) for x in ks]
                if len(ks) == 2 and all(b.op == "sortarg" and tuple(p) == tuple(path) for b, p in bs) and \
                        {b.a[0] for b, p in bs} == {"a", "b"}:
                    return I(d)
            return None
        out = set()
        for x in vals(Rebuild(rep)(strip(cmp_))):
            out.add(x.a[1] if x.op == "agg" else None)
        if None in out or "Equal" in out or not out:
            return False
    return True


def handed_out(ctx, field, comp):
    """the values kept in the map `field` are numbers handed out one after the other: at every insertion the component is the
    number of elements so far, or a running total which grows with every insertion"""
    comp = tuple(comp)
    n = 0
    for f in inserters(ctx):
        an = ctx.run("lib", f)
        for e in an.events:
            if e.kind != "minsert" or tail2(e.d[1])[-1:] != (field,):
                continue
            n += 1
            v = strip(e.d[3])
            try:
                for c in comp:
                    v = proj1(v, c)
            except Exception:
                return False
            for x in leaves(strip(v)):
                c0, ds = lin_parts(x)
                if not ds and not (e.full() is I1 and e.d[0].op in ("L", "new", "alloc")):
                    return False  # a number of its own, for the first element of a new map
                if ds and not any(k > 0 and (count_of(d, e) or total_of(an, d, e)) for d, k in ds):
                    return False
    return n > 0


def inserters(ctx):
    c = ctx.__dict__.setdefault("hash_inserters", [])
    if not c:
        names = set()
        for f, n_, l in ctx.prog("lib").calls(HASHED):
            if re.search(r"::(insert|entry|extend|collect)\b", n_) and f.name not in names:
                names.add(f.name)
                c.append(f)
    return c


def count_of(d, e):
    return d.op == "len" and base_of(d.a[0]) == base_of(mk("ptr", e.d[0], tuple(e.d[1])))


def total_of(an, d, e):
    """a field kept beside the map, which is increased on each insertion"""
    if d.op != "ld":
        return False
    for s in an.events:
        if s.kind == "store" and s.d[1] and base_of(mk("ptr", s.d[0], tuple(s.d[1]))) == base_of(d):
            v = strip(s.d[2])
            here = strip(e.full())
            if implies(here, strip(s.full())) is not True:
                continue
            vs = [lin_parts(x) for x in leaves(v) if x is not BOT and
                  band(here, apply(lambda y, x=x: I1 if y is x else I0, v)) is not I0]
            if vs and all(c0 > 0 and all(k > 0 for y, k in ds) and (d, 1) in ds for c0, ds in vs):
                return True
    return False


def escape(rep, n, a):
    """a walk of a hashed collection that goes somewhere the analysis does not follow"""
    for e in a.events:
        for d in e.d:
            if isinstance(d, T) and d.op == "it" and hashed(d):
                rep.ob("%s: a walk of %s is not handed on" % (n, ".".join(mapname(d))), False, "%s %s" % (e.kind, show(e.d[0])[:80] if isinstance(e.d[0], T) else e.d[0]), e.where())


def chance(ctx, rep):
    n = 0
    for cr in ("lib", "bin"):
        p = ctx.prog(cr)
        n += len(p.fns)
        for f, c, line in p.calls(CHANCE):
            if f.name.startswith(("std::", "core::", "alloc::", "<std::", "<core::", "<alloc::")):
                continue
            if re.search(r"RandomState", c) and "Default::default" in c:
                continue
            rep.ob("%s: %s is not used" % (short(f.name), strip_generics(c)), False, c[:160], "%s:%s" % (f.name, line))
    rep.ob("clocks, random numbers, threads, listings and addresses are not used", True, "%d functions" % n, "types of the callees")
