"""Interprocedural gated value-flow analysis over dumped MIR.

Every function reachable from an entry point is evaluated once per calling context over terms
(see terms.py): states are merged where control flow merges, loops are evaluated once with their
modified locations replaced by loop variables (after a fixpoint that finds which locations those
are), and stores, writes, locks, panics and unknown calls are recorded as events together with the
condition under which they happen.  Nothing is executed and no path is enumerated.
"""
import json
import re
from terms import *


class Give(Exception):
    """the analysis cannot represent something"""


def strip_ty(t):
    t = t.strip()
    while t.startswith("&") or t.startswith("*"):
        for p in ("&mut ", "&", "*const ", "*mut "):
            if t.startswith(p):
                t = t[len(p):]
                break
        else:
            break
    return t


def split_args(t):
    """the type arguments of X<A, B>"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    return split_list(t[i + 1:-1])


def split_list(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Fn(object):
    def __init__(self, d):
        self.__dict__.update(d)
        self.has = "blocks" in d
        self.prep = False

    def prepare(self):
        if self.prep:
            return
        self.prep = True
        n = len(self.blocks)
        self.succ = [self._succ(b["t"]) for b in self.blocks]
        # order
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                preds[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpo[x] > self.rpo[y]:
                                    x = idom[x]
                                while self.rpo[y] > self.rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
            return a == b
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])
                elif self.rpo[s] <= self.rpo[b]:
                    raise Give("irreducible loop in %s" % self.name)
        ok = set()
        w = [b for b in order if self.blocks[b]["t"][0] == "return"]
        while w:
            x = w.pop()
            if x not in ok:
                ok.add(x)
                w.extend(preds[x])
        self.doomed = set(order) - ok
        # locals assigned in each loop
        self.assigned = {}
        for h, body in self.loops.items():
            a = set()
            for b in body:
                for s in self.blocks[b]["s"]:
                    if s[1] in ("=", "setdiscr") and not any(e[0] == "*" for e in s[2][1:]):
                        a.add(s[2][0])
                t = self.blocks[b]["t"]
                if t[0] == "call" and not any(e[0] == "*" for e in t[3][1:]):
                    a.add(t[3][0])
            self.assigned[h] = a

    def _succ(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            out = []
            for _, b in t[2]:
                if b not in out:
                    out.append(b)
            if t[3] not in out:
                out.append(t[3])
            return out
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []


def fn_consts(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get("k") == "fn" and "def" in y:
                yield y
            else:
                st.extend(y.values())
        elif isinstance(y, (list, tuple)):
            st.extend(y)


class Prog(object):
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {f["id"]: Fn(f) for f in d["fns"]}
        self.adts = dict((a[0], a[1]) for a in d["adts"])
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.name, []).append(f)

    def find(self, pat, has=True):
        return [f for f in self.fns.values()
                if (not has or f.has) and re.search(pat, f.name)]

    def calls(self, pat):
        """(function, name of the callee, line) for the call sites, and uses as a value, of what matches"""
        out = []
        r = re.compile(pat)
        for f in self.fns.values():
            if not f.has:
                continue
            for b in f.blocks:
                for c in fn_consts([b["t"], b["s"]]):
                    for n in (c.get("def"), c.get("name")):
                        if n and r.search(n):
                            out.append((f, n, b["line"]))
                            break
        return out

    def variants(self, adt):
        a = self.adts.get(adt)
        return a["variants"] if a and a["kind"] == "enum" else None


# ---------------------------------------------------------------- heap
class H(object):
    __slots__ = ("kind", "prev", "root", "path", "val", "id", "pa", "pb", "b", "pats", "lid",
                 "memo", "pos")
    ids = {}

    def __init__(self, kind, prev, **kw):
        self.kind = kind
        self.prev = prev
        # the same history has the same number, in every round of a fixpoint
        k = (kind, prev.id if prev is not None else 0, kw.get("root"), kw.get("path"), kw.get("val"),
             kw["b"].id if "b" in kw else 0, kw.get("pa"), kw.get("pb"), kw.get("lid"))
        self.id = H.ids.setdefault(k, len(H.ids) + 1)
        self.memo = {}
        for k, v in kw.items():
            setattr(self, k, v)


class St(object):
    __slots__ = ("env", "heap", "pc", "held")

    def __init__(self, env, heap, pc, held):
        self.env, self.heap, self.pc, self.held = env, heap, pc, held

    def copy(self):
        return St(dict(self.env), self.heap, self.pc, self.held)


class Ev(object):
    __slots__ = ("kind", "d", "frames", "pc", "pos", "heap", "held", "seq", "ret", "io")

    def cond(self, within=None):
        """the condition, up to the entry of loop `within` (or of everything)"""
        c = self.pc
        for f in reversed(self.frames):
            if f[0] == "loop":
                if within is not None and f[1] == within:
                    return c
                if within is None:
                    return c
            c = band(c, f[2])
        return c

    def full(self):
        c = self.pc
        for f in self.frames:
            c = band(c, f[2])
        return c

    @property
    def loops(self):
        return tuple(f[1] for f in self.frames if f[0] == "loop")

    def where(self):
        return "%s:%s" % self.pos[:2]

    def __repr__(self):
        return "%s %s [%s] if %s" % (self.kind, " ".join(show(x) if isinstance(x, T) else str(x) for x in self.d),
                                     self.where(), show(self.pc))


class Loop(object):
    def __init__(self, lid, pos):
        self.id = lid
        self.pos = pos
        self.iters = []     # (site, descriptor)
        self.exits = []     # (k, condition, target)
        self.init = None
        self.latch = None
        self.head = None
        self.collect = None
        self.kind = "mir"


class Call(object):
    __slots__ = ("an", "st", "args", "tys", "gen", "ret", "site", "name", "fn", "inst", "pos", "defn", "n")

    def a(self, i):
        return self.args[i]


class An(object):
    """one analysis from an entry point"""
    checked = ()
    MAXDEPTH = 60

    def __init__(self, prog, opaque=None, stop=None):
        self.prog = prog
        self.events = []
        self.steps = []     # advances of iterators
        self.results = []   # what calls that can fail return to functions of the crate
        self.loops = {}
        self.stack = []
        self.ctxs = {}
        self.nodes = {}
        self.uid = 0
        self.loopmemo = {}
        self.rules = {}     # what functions make of what parsers give
        self.analysed = set()
        self.calls = 0
        self.opaque = opaque or (lambda f: False)
        self.heap0 = H("init", None)
        self.assign_ty = {}
        self.unknown = {}
        self.depth = 0

    # -------- contexts
    def ctx(self, parent, tag):
        k = (parent, tag)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
        return c

    def event(self, kind, st, *d, **kw):
        e = Ev()
        e.kind = kind
        e.d = d
        e.frames = tuple(self.stack)
        e.pc = st.pc
        e.pos = kw.get("pos") or self.pos
        e.heap = st.heap
        e.held = st.held
        e.ret = kw.get("ret")
        e.io = kw.get("io")
        e.seq = len(self.events)
        (self.steps if kind == "step" else self.results if kind == "result" else self.events).append(e)
        return e

    # -------- memory
    def rty(self, root, ty):
        if root.rty is None and ty:
            root.rty = strip_ty(ty)
        return root

    def through(self, root, path, h):
        """the value of root.path if it is an element of the container written by h; None otherwise"""
        if root.op != "elem" or root is h.root:
            return None
        c, cp, j = root.a
        if c is h.root and cp[:len(h.path)] == h.path:
            e = at(proj(h.val, cp[len(h.path):]), j)
            for x in leaves(e):
                b = x
                while b.op == "fld":
                    b = b.a[0]
                if b.op == "at" and same_container(b.a[0], c, cp):
                    return None     # a change of shape: the elements are where they were
            return proj(e, path)
        if c.op == "elem":
            # an element of an element
            inner = self.through(c, cp, h)
            if inner is not None:
                return proj(at(inner, j), path)
        return None

    def alias(self, r1, p1, r2, p2):
        """must: the second is the first or around it; in: the second is inside the first; may; no"""
        if r1 is r2:
            n = min(len(p1), len(p2))
            for x, y in zip(p1[:n], p2[:n]):
                if x is y or x == y:
                    continue
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "i" and y[0] == "i":
                    d = sub(x[1], y[1])
                    if d.op == "int" and d.a[0] != 0:
                        return "no"
                    return "may"
                return "no"
            return "must" if len(p2) <= len(p1) else "in"
        # what a container owns is apart from the other fields of what the container is a field of
        for x, p, y in ((r1, p1, r2), (r2, p2, r1)):
            if y.op == "elem" and y.a[0] is x and any(u != v and isinstance(u, str) and isinstance(v, str) for u, v in zip(p, y.a[1])):
                return "no"
        rel = self.alias_root(r1, r2)
        if rel == "no":
            return "no"
        # the same kind of object: compare the paths
        for x, y in zip(p1, p2):
            if x != y and not (isinstance(x, tuple) and x[0] == "i"):
                return "no"
        return "may"

    def alias_root(self, r1, r2):
        if r1 is r2:
            return "must"
        t1, t2 = r1.rty, r2.rty
        if t1 and t2 and t1 != t2:
            return "no"
        if r1.op == "new" and r2.op == "new":
            return "no"
        for x, y in ((r1, r2), (r2, r1)):
            if x.op == "new" and (y.op == "sym" or (y.op == "ld" and y.a[2] == 0)):
                return "no"
            if x.op == "sym" and y.op == "sym":
                return "no"
            if x.op == "elem" and x.a[0].op == "L" and y.op != "elem":
                return "no"
        if r1.op == "elem" and r2.op == "elem":
            if self.alias_cont(r1.a[0], r1.a[1], r2.a[0], r2.a[1]) == "no":
                return "no"
            i, j = r1.a[2], r2.a[2]
            if i.op in ("int", "str") and j.op in ("int", "str") and i is not j:
                return "no"
            if r1.a[0] is r2.a[0] and r1.a[1] == r2.a[1]:
                d = sub(i, j) if i.op != "agg" and j.op != "agg" else None
                if d is not None and d.op == "int" and d.a[0] != 0:
                    return "no"
                if i.op == "agg" and j.op == "agg" and i.a[1] != j.a[1]:
                    return "no"
            return "may"
        if r1.op == "ld" and r2.op == "ld" and r1.a[0] is r2.a[0] and r1.a[0].op == "sym":
            return "no" if r1.a[1] != r2.a[1] else "may"
        return "may"

    def alias_cont(self, r1, p1, r2, p2):
        if r1 is r2:
            return "must" if p1 == p2 else "no"
        if "L" in (r1.op, r2.op) and r1.op != r2.op:
            return "no"
        if r1.op == "L":
            return "no"
        rel = self.alias_root(r1, r2)
        if rel == "no":
            return "no"
        return "may" if p1 == p2 else "no"

    def hload(self, h, root, path):
        start = h
        r = start.memo.get((root, path))
        if r is not None:
            return r
        trail = []
        while True:
            r = h.memo.get((root, path))
            if r is not None:
                break
            if h.kind == "init":
                r = self.initial(root, path)
                break
            if h.kind == "st":
                r = self.through(root, path, h)
                if r is not None:
                    break
                rel = self.alias(root, path, h.root, h.path)
                if rel == "must":
                    r = proj(h.val, path[len(h.path):])
                    break
                if rel == "in":
                    r = withpath(self.hload(h.prev, root, path), h.path[len(path):], h.val)
                    break
                if rel == "may":
                    r = mk("ld", root, path, h.id)
                    break
            elif h.kind == "phi":
                if any(self.alias(root, path, pr, pp) != "no" for pr, pp in h.pats):
                    a = self.hload(h.prev, root, path)
                    b = self.hload(h.b, root, path)
                    if a is b:
                        r = a
                    elif any(x.op == "ld" and x.a[0] is root and x.a[1] == path and x.a[2] > h.lid
                             for y in (a, b) for x in leaves(y)):
                        r = mk("ld", root, path, h.id)
                    else:
                        try:
                            r = select(h.pa, a, h.pb, b)
                        except TooBig:
                            r = mk("ld", root, path, h.id)
                    break
            elif h.kind == "mu":
                if any(self.alias(root, path, pr, pp) != "no" for pr, pp in h.pats):
                    r = mk("ld", root, path, h.id)
                    break
            trail.append(h)
            h = h.prev
        start.memo[(root, path)] = r
        return r

    def initial(self, root, path):
        if root.op == "elem":
            r0, p0, i = root.a
            if r0.op == "const":
                return proj(at(proj(r0.a[0], p0), i), path)
        if root.op == "ld" or root.op == "fld":
            pass
        return mk("ld", root, path, 0)

    def load(self, st, p):
        """the value behind pointer p"""
        def f(x):
            if x.op == "ptr":
                root, path = x.a
                if root.op == "L":
                    v = st.env.get(root.a)
                    if v is None:
                        return mk("undef", root.a[0], root.a[1])
                    return proj(v, path)
                if root.op == "const":
                    return proj(root.a[0], path)
                if root.op == "elem" and islocal(root):
                    cv = self.load(st, mk("ptr", root.a[0], root.a[1]))
                    return proj(at(cv, root.a[2]), path)
                return self.hload(st.heap, root, path)
            if x.op == "guard":
                return self.load(st, x.a[2])
            if x.op == "slice":
                v = self.load(st, mk("ptr", x.a[0], x.a[1]))
                return part(v, x.a[2], x.a[3])
            if x.op in ("str", "bytes") or is_text(x):
                return x
            return self.hload(st.heap, x, ())
        return apply(f, p)

    def store(self, st, p, v, quiet=False):
        if p.op == "md":
            ls = [x for x in leaves(p) if x is not BOT]
            for x in ls:
                c = apply(lambda y: I1 if y is x else I0, p)
                old = self.load(st, x)
                self.store(st, x, select(c, v, bnot(c), old), quiet)
            return
        if p.op == "guard":
            return self.store(st, p.a[2], v, quiet)
        if p.op == "bot":
            return
        if p.op != "ptr":
            p = mk("ptr", p, ())
        root, path = p.a
        if root.op == "L":
            k = root.a
            if path:
                old = st.env.get(k)
                if old is None:
                    old = mk("undef", k[0], k[1])
                st.env[k] = withpath(old, path, v)
            else:
                st.env[k] = v
            if root.a[0] in self.watch:
                pass
            return
        if root.op == "elem" and islocal(root):
            c = mk("ptr", root.a[0], root.a[1])
            cv = self.load(st, c)
            j = root.a[2]
            new = withpath(at(cv, j), path, v) if path else v
            if not quiet:
                self.event("lstore", st, root, path, v)
            self.store(st, c, apply(lambda x: eset(x, j, new), cv), True)
            return
        if root.op == "const":
            raise Give("store to a constant")
        st.heap = H("st", st.heap, root=root, path=path, val=v, pos=self.pos)
        self.nodes[st.heap.id] = st.heap
        if not quiet:
            self.event("store", st, root, path, v)

    watch = ()

    def hpats(self, h, stop):
        out = {}
        seen = set()
        w = [h]
        while w:
            x = w.pop()
            while x is not stop and x is not None and x not in seen:
                seen.add(x)
                if x.kind == "st":
                    out[(x.root, x.path)] = 1
                elif x.kind in ("phi", "mu"):
                    for p in x.pats:
                        out[p] = 1
                x = x.prev if x.kind != "phi" else x.pos
        return out

    def merge(self, sts):
        """join states whose conditions are disjoint"""
        sts = [s for s in sts if s.pc is not I0]
        if not sts:
            return None
        a = sts[0]
        for b in sts[1:]:
            a = self.merge2(a, b)
        return a

    def merge2(self, a, b):
        pa, pb = a.pc, b.pc
        env = {}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is v:
                env[k] = v
            elif w is not None:
                try:
                    env[k] = select(pa, v, pb, w)
                except TooBig:
                    env[k] = mk("big", k[0], k[1], self.pos[0], self.pos[1])
        heap = a.heap
        if a.heap is not b.heap:
            # nearest common ancestor
            anc = set()
            x = a.heap
            while x is not None:
                anc.add(x)
                x = x.prev if x.kind != "phi" else x.pos
            y = b.heap
            while y not in anc:
                y = y.prev if y.kind != "phi" else y.pos
            pats = dict(self.hpats(a.heap, y))
            pats.update(self.hpats(b.heap, y))
            heap = H("phi", a.heap, b=b.heap, pa=pa, pb=pb, pats=list(pats), lid=y.id, pos=y)
            # beyond the writes of the branches, look before them
            heap.memo = _PhiMemo()
            self.nodes[heap.id] = heap
        pc = bor(pa, pb)
        return St(env, heap, pc, a.held | b.held)

    # -------- functions
    def run(self, fn, args, st=None):
        fn.prepare()
        st = st or St({}, self.heap0, I1, frozenset())
        self.pos = (fn.file, fn.line, fn.name)
        c = self.ctx(0, ("entry", fn.id))
        return self.eval_fn(fn, args, st, c)

    def eval_fn(self, fn, args, st, ctx):
        """(value, state) or None if it never returns"""
        fn.prepare()
        self.analysed.add(fn.name)
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise Give("depth")
        saved_pos = self.pos
        st = st.copy()
        caller_pc = st.pc
        st.pc = I1
        for k in [k for k in st.env if k[0] == ctx]:
            del st.env[k]
        for i, v in enumerate(args):
            st.env[(ctx, i + 1)] = v
        self.stack.append(("fn", ctx, caller_pc, fn.name))
        try:
            rets, _ = self.region(fn, ctx, None, {0: [st]})
        finally:
            self.stack.pop()
            self.depth -= 1
        r = self.merge(rets)
        self.pos = saved_pos
        if r is None:
            return None
        v = r.env.get((ctx, 0), UNIT)
        for k in [k for k in r.env if k[0] == ctx]:
            del r.env[k]
        r.pc = caller_pc
        return v, r

    def region(self, fn, ctx, header, incoming):
        """evaluate the blocks of a function (header None) or of one iteration of a loop"""
        body = fn.loops[header] if header is not None else None
        rets, exits, latches = [], [], []
        pend = dict(incoming)
        done = set()
        while pend:
            b = min(pend, key=lambda x: fn.rpo[x])
            sts = pend.pop(b)
            st = self.merge(sts)
            if st is None:
                continue
            if b in fn.loops and b != header:
                edges = self.run_loop(fn, ctx, b, st)
            else:
                edges = self.block(fn, ctx, b, st, rets)
            for tgt, s in edges:
                if s.pc is I0:
                    continue
                if tgt == header:
                    latches.append(s)
                elif body is not None and tgt not in body and tgt not in fn.doomed:
                    exits.append((b, tgt, s))
                else:
                    pend.setdefault(tgt, []).append(s)
        if header is None:
            return rets, None
        return latches, exits

    def run_loop(self, fn, ctx, h, st):
        lid = self.ctx(ctx, ("loop", fn.id, h))
        seeds = {(ctx, n) for n in fn.assigned[h]}
        pos = (fn.file, fn.blocks[h]["line"], fn.name)
        box = {}

        def body(hs):
            latches, exits = self.region(fn, ctx, h, {h: [hs]})
            box["exits"] = exits
            return latches

        loop = self.fix_loop(lid, pos, st, seeds, body)
        out = []
        exits = [e for e in box["exits"] if e[2].pc is not I0]
        subj = mk("exit", lid)
        DOM[subj] = tuple(range(len(exits)))
        for k, (b, tgt, s) in enumerate(exits):
            loop.exits.append((k, s.pc, tgt, s))
            s = s.copy()
            s.pc = band(st.pc, cond_eq(subj, k)) if len(exits) > 1 else st.pc
            out.append((tgt, s))
        return out

    def fix_loop(self, lid, pos, st, seeds, body):
        mods = {k for k in seeds if k in st.env}
        pats = {}
        seen = self.loopmemo.get(lid)
        if seen:
            # what an earlier evaluation of the same loop found to change
            mods |= {k for k in seen[0] if k in st.env}
            pats.update(seen[1])
        for rnd in range(12):
            ev0, steps0, res0 = len(self.events), len(self.steps), len(self.results)
            loops0 = dict(self.loops)
            uid0 = self.uid
            loop = Loop(lid, pos)
            self.loops[lid] = loop
            hs = st.copy()
            for k in mods:
                hs.env[k] = mk("mu", lid, k, ())
            mu = H("mu", st.heap, pats=list(pats), lid=lid)
            self.nodes[mu.id] = mu
            hs.heap = mu
            hs.pc = I1
            loop.init, loop.head, loop.mu = st, hs.copy(), mu
            loop.frames = tuple(self.stack)
            self.stack.append(("loop", lid, st.pc, pos))
            try:
                latches = body(hs)
            finally:
                self.stack.pop()
            latch = self.merge(latches)
            loop.latch = latch
            grown = False
            if latch is not None:
                for k, v in latch.env.items():
                    if k in st.env and k not in mods and v is not st.env[k]:
                        mods.add(k)
                        grown = True
                for p in self.hpats(latch.heap, mu):
                    if p not in pats:
                        pats[p] = 1
                        grown = True
            if not grown:
                loop.mods = mods
                self.loopmemo[lid] = (set(mods), dict(pats))
                return loop
            del self.events[ev0:]
            del self.steps[steps0:]
            del self.results[res0:]
            self.loops = loops0
            self.uid = uid0
        raise Give("loop at %s does not stabilise" % (pos,))

    # -------- statements
    def block(self, fn, ctx, b, st, rets):
        blk = fn.blocks[b]
        for s in blk["s"]:
            self.pos = (fn.file, s[0], fn.name)
            if s[1] == "=":
                v = self.rvalue(fn, ctx, st, s[3], s[4])
                self.assign(fn, ctx, st, s[2], v)
            elif s[1] == "setdiscr":
                raise Give("set discriminant")
        self.pos = (fn.file, blk["line"], fn.name)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            rets.append(st)
            return []
        if k == "switch":
            return self.switch(fn, ctx, st, t)
        if k == "drop":
            self.drop(fn, ctx, st, t[1])
            return [(t[2], st)]
        if k == "assert":
            c = self.operand(fn, ctx, st, t[1])
            self.event("assert", st, t[3], c, t[2],
                       *([self.operand(fn, ctx, st, x) for x in t[5]] if t[5] else
                         self.checked if t[3][:8] == "overflow" and t[3][9:] in ("Add", "Sub", "Mul") else []))
            return [(t[4], st)]
        if k == "call":
            return self.call(fn, ctx, b, st, t)
        return []

    def switch(self, fn, ctx, st, t):
        v = self.operand(fn, ctx, st, t[1])
        ty = t[4]
        edges = []
        other = I1
        by = {}
        for c, tgt in t[2]:
            if ty in SIGNED:
                c = wrap(c, BITS[ty], True)
            if ty == "bool":
                boolify(v)
            e = cond_eq(v, c)
            by[tgt] = bor(by.get(tgt, I0), band(e, other)) if False else bor(by.get(tgt, I0), e)
            other = band(other, bnot(e))
        by[t[3]] = bor(by.get(t[3], I0), other)
        asm = [(k, a) for k, a in ASSUME.items() if k[0] in set(subjects(v))] if v.op == "md" else []
        for tgt, c in by.items():
            pc = band(st.pc, c)
            if pc is I0:
                continue
            for (s, k), a in asm:
                if band(c, bnot(cond_eq(s, k))) is I0:
                    pc = band(pc, a)
            if pc is I0:
                continue
            s2 = st.copy()
            s2.pc = pc
            if not fn.local and pc is not st.pc:
                self.settle(s2)
            edges.append((tgt, s2))
        return edges

    def settle(self, st):
        """forget what was the case had a loop ended in another way than it must have"""
        from query import Rebuild
        ends = {}
        for x in subjects(st.pc):
            if x.op == "exit":
                for n in DOM.get(x, ()):
                    if implies(st.pc, cond_eq(x, n)):
                        ends[x] = I(n)
        if not ends:
            return
        while st.heap.kind == "phi":
            if band(st.pc, st.heap.pa) is I0:
                st.heap = st.heap.b
            elif band(st.pc, st.heap.pb) is I0:
                st.heap = st.heap.prev
            else:
                break
        f = Rebuild(lambda y: ends.get(y))
        for k, v in st.env.items():
            st.env[k] = f(v)

    def drop(self, fn, ctx, st, place):
        if not st.held:
            return
        try:
            v = self.load(st, self.addr(fn, ctx, st, place))
        except TooBig:
            return
        self.release(st, v)

    def release(self, st, v):
        gone = set()
        for x in guards(v):
            for g in st.held:
                if g.a[0] == x.a[0]:
                    gone.add(g)
        if gone:
            st.held = st.held - gone
            self.event("unlock", st, *gone)

    def addr(self, fn, ctx, st, place):
        n = place[0]
        cur = mk("ptr", mk("L", ctx, n), ())
        ty = fn.locals[n]
        for e in place[1:]:
            k = e[0]
            if k == "*":
                v = self.load(st, cur)
                cur = self.as_ptr(v)
                t = strip_ty(ty) if ty else None
                if t:
                    for x in leaves(cur):
                        if x.op == "ptr" and x.a[0].op != "L" and x.a[1] == ():
                            self.rty(x.a[0], t)
                ty = t
            elif k == "f":
                cur = apply(lambda x: ext(x, e[1]), cur)
                ty = None
            elif k == "v":
                cur = apply(lambda x: ext(x, ("v", e[1])), cur)
            elif k == "i":
                i = st.env[(ctx, e[1])]
                cur = self.index(st, cur, i)
                ty = None
            elif k == "c":
                i = I(e[1])
                if e[2]:
                    i = sub(self.length(st, cur), i)
                cur = self.index(st, cur, i)
                ty = None
            elif k == "s":
                to = I(e[2])
                if e[3]:
                    to = sub(self.length(st, cur), to)
                cur = apply(lambda x: subslice(x, I(e[1]), to), cur)
                ty = None
            else:
                raise Give("place")
        return cur

    def as_ptr(self, v):
        def f(x):
            if x.op in ("ptr", "slice", "bot"):
                return x
            if x.op == "guard":
                return x.a[2]
            return mk("ptr", x, ())
        return apply(f, v)

    def index(self, st, p, i):
        """pointer to element i of what p points to"""
        def f(x, j):
            if x.op == "guard":
                x = x.a[2]
            if x.op == "slice":
                root, path, frm, _ = x.a
            elif x.op == "ptr":
                root, path = x.a
                frm = I0
            else:
                root, path, frm = x, (), I0
            j = add(frm, j)
            if root.op in ("L", "const"):
                v = self.load(st, mk("ptr", root, path))
                if v.op == "arr" or (v.op == "upd"):
                    return mk("ptr", root, path + (("i", j),))
            return mk("ptr", mk("elem", root, path, j), ())
        return apply(f, p, i)

    def length(self, st, p):
        def f(x):
            if x.op == "guard":
                x = x.a[2]
            if x.op == "slice":
                if x.a[3] is not None:
                    return sub(x.a[3], x.a[2])
                return sub(vlen(self.load(st, mk("ptr", x.a[0], x.a[1]))), x.a[2])
            if x.op == "ptr":
                return vlen(self.load(st, x))
            return vlen(x)
        return apply(f, p)

    def assign(self, fn, ctx, st, place, v):
        if len(place) == 1:
            st.env[(ctx, place[0])] = v
            return
        self.store(st, self.addr(fn, ctx, st, place), v)

    def read(self, fn, ctx, st, place):
        if len(place) == 1:
            v = st.env.get((ctx, place[0]))
            return v if v is not None else mk("undef", ctx, place[0])
        return self.load(st, self.addr(fn, ctx, st, place))

    def operand(self, fn, ctx, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.read(fn, ctx, st, o["p"])
        if k == "const":
            return self.const(o["c"], o.get("ty", ""))
        return I0

    def const(self, c, ty=""):
        k = c["k"]
        if k == "int":
            return I(c["v"])
        if k == "str":
            return S(c["v"])
        if k == "arr":
            return mk("arr", *[self.const(x) for x in c["v"]])
        if k == "tup":
            return tup(*[self.const(x) for x in c["v"]])
        if k == "adt":
            return agg(c["adt"], self.vname(c["adt"], c["variant"]), [f for f, _ in c["v"]],
                       [self.const(x) for _, x in c["v"]])
        if k == "ref":
            v = self.const(c["v"])
            t = ty[1:].strip() if ty.startswith("&") else ""
            if v.op == "arr" and (t.startswith("[") and ";" not in t or not t):
                return mk("slice", mk("const", v), (), I0, I(len(v.a)))
            return mk("ptr", mk("const", v), ())
        if k == "fn":
            return mk("fnv", c.get("inst"), c["name"])
        if k == "closure":
            return mk("agg", "closure", c["inst"], (), ())
        if k == "static":
            return mk("ptr", mk("sym", "static " + c["v"]), ())
        return mk("konst", c.get("ty", ty))

    def vname(self, adt, variant):
        return variant if self.prog.variants(adt) else ""

    def rvalue(self, fn, ctx, st, r, ty):
        k = r[0]
        op = lambda o: self.operand(fn, ctx, st, o)
        if k == "use":
            v = op(r[1])
            self.typed(v, ty)
            return v
        if k in ("ref", "addr"):
            place = r[2] if k == "ref" else r[1]
            if len(place) > 1 and place[-1][0] == "*":
                return self.read(fn, ctx, st, place[:-1])
            p = self.addr(fn, ctx, st, place)
            t = strip_ty(ty)
            return p
        if k in ("bin", "cbin"):
            return self.binary(r[1], op(r[2]), op(r[3]), r[4], k == "cbin")
        if k == "un":
            v = op(r[2])
            if r[1] == "Not":
                if r[3] == "bool":
                    boolify(v)
                    return bnot(v)
                b = BITS.get(r[3], 64)
                return apply(lambda x: trunc(b, r[3] in SIGNED, sub(I(-1), x)) if b < 64 or x.op == "int" else mk("not", x), v)
            if r[1] == "Neg":
                return scale(v, -1)
            if r[1] == "PtrMetadata":
                return self.length(st, v)
            return mk("un" + r[1], v)
        if k == "cast":
            v = op(r[2])
            kind, frm, to = r[1], r[3], r[4]
            if kind == "IntToInt":
                self.typed(v, frm)
                return cast_int(v, frm, to)
            if "Unsize" in kind:
                t = strip_ty(to)
                if t.startswith("[") and ";" not in t:
                    f = strip_ty(frm)
                    m = re.search(r"; (\d+)\]$", f)
                    n = I(int(m.group(1))) if m else None

                    def g(x):
                        if x.op == "ptr":
                            return mk("slice", x.a[0], x.a[1], I0, n)
                        return x
                    return apply(g, v)
                return v
            if kind == "Transmute":
                if frm in BITS and to in BITS:
                    return cast_int(v, frm, to)
                return v
            return v
        if k == "discr":
            v = self.read(fn, ctx, st, r[1])
            return self.discr(v, r[2])
        if k == "len":
            return self.length(st, self.addr(fn, ctx, st, r[1]))
        if k == "repeat":
            v = op(r[1])
            if r[2] is not None and r[2] <= 64:
                return mk("arr", *([v] * r[2]))
            return mk("vrep", v, I(r[2] or 0))
        if k == "array":
            return mk("arr", *[op(x) for x in r[1]])
        if k == "tuple":
            return tup(*[op(x) for x in r[1]])
        if k == "adt":
            return agg(r[1], self.vname(r[1], r[2]), r[3], [op(x) for x in r[4]])
        if k == "closure":
            c = r[1]
            vals = [op(x) for x in c["ops"]]
            return mk("agg", "closure", c["inst"], tuple(str(i) for i in range(len(vals))), tuple(vals))
        if k == "rawptr":
            return op(r[1][0])
        raise Give("rvalue " + k)

    def typed(self, v, ty):
        if ty in BITS and ty != "bool":
            for x in leaves(v):
                if x.op not in ("int", "lin", "bot") and x not in RANGE:
                    RANGE[x] = ty
        elif ty == "bool":
            boolify(v)

    def binary(self, o, x, y, ty, checked=False):
        if o.endswith("Unchecked"):
            o = o[:-9]
        self.typed(x, ty)
        self.typed(y, ty)
        if ty == "bool" and o in ("BitAnd", "BitOr", "Eq", "Ne", "BitXor"):
            boolify(x)
            boolify(y)
            cx, cy = cond_eq(x, 1), cond_eq(y, 1)
            if o == "BitAnd":
                return band(cx, cy)
            if o == "BitOr":
                return bor(cx, cy)
            e = bor(band(cx, cy), band(bnot(cx), bnot(cy)))
            return e if o == "Eq" else bnot(e)
        if o == "Add":
            v = add(x, y)
        elif o == "Sub":
            v = sub(x, y)
        elif o == "Mul":
            v = mul(x, y)
        elif o in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return compare(o, x, y, ty)
        elif o == "Cmp":
            lt, eq = compare("Lt", x, y, ty), compare("Eq", x, y, ty)
            return self.ordering(lt, eq)
        elif o == "Offset":
            return mk("offset", x, y)
        else:
            v = binop(o, x, y, ty)
        if checked:
            self.checked = (S(o), x, y, S(ty))
            return tup(v, I0)
        if o in ("Add", "Sub", "Mul") and BITS.get(ty, 64) < 64:
            v = trunc(BITS[ty], ty in SIGNED, v)  # wraps
        return v

    def ordering(self, lt, eq):
        n = "std::cmp::Ordering"
        L, E, G = (agg(n, v, [], []) for v in ("Less", "Equal", "Greater"))
        return apply(lambda l, e: L if l is I1 else E if e is I1 else G, lt, eq)

    def discr(self, v, ty):
        name = ty.split("<")[0] if not ty.startswith("<") else ty
        vs = self.prog.variants(name)

        def f(x):
            if x.op == "agg":
                if vs:
                    for n, d, _ in vs:
                        if n == x.a[1]:
                            return I(d)
                return I0
            s = mk("discr", x)
            if vs and s not in DOM:
                DOM[s] = tuple(d for _, d, _ in vs)
                VARIANTS[s] = {d: n for n, d, _ in vs}
            return s
        return apply(f, v)

    # -------- calls
    def call(self, fn, ctx, b, st, t):
        f = t[1]
        args = [self.operand(fn, ctx, st, x) for x in t[2]]
        for v, ty in zip(args, t[5]):
            self.typed(v, ty)
        dest, target = t[3], t[4]
        site = self.ctx(ctx, ("call", fn.id, b))
        self.calls += 1
        pos = self.pos
        if f["k"] == "const" and f["c"]["k"] == "fn":
            c = f["c"]
            # what is moved away is no longer here
            for o in t[2]:
                if o["k"] == "move" and len(o["p"]) == 1 and st.held:
                    pass
            r = self.call_fn(c, args, t[5], t[6], st, site)
        else:
            fv = self.operand(fn, ctx, st, f)
            r = self.call_value(fv, args, t[5], t[6], st, site)
        self.pos = pos
        if r is None:
            return []
        v, st2 = r
        if st2.pc is I0:
            return []
        self.typed(v, t[6])
        if fn.local and t[6].startswith(("std::result::Result<", "std::option::Option<")):
            d = f["c"]["def"] if f["k"] == "const" and f["c"]["k"] == "fn" else "value"
            self.event("result", st2, d, t[6], v, fn.name)
        if target is None:
            return []
        self.assign(fn, ctx, st2, dest, v)
        return [(target, st2)]

    def call_fn(self, c, args, tys, ret, st, site):
        from builtins_model import MODELS, model_for
        k = Call()
        k.an, k.st, k.args, k.tys, k.ret, k.site = self, st, args, tys, ret, site
        k.name, k.defn, k.gen, k.inst = c["name"], c["def"], c.get("args", []), c.get("inst")
        k.pos = self.pos
        k.fn = self.prog.fns.get(k.inst)
        if re.match(r"(std|core)::(prelude::\w+|option::Option|result::Result)(::<.*>)?::(Some|Ok|Err)$", k.defn):
            return ctor(k.defn, args), st
        m = model_for(k)
        if m is not None:
            r = m(k)
            if r is NotImplemented:
                pass
            elif r is None:
                return None
            elif isinstance(r, tuple):
                return r
            else:
                return r, k.st
        g = k.fn
        if g is not None and g.has and not self.opaque(g) and not foreign(g):
            for fr in self.stack:
                if fr[0] == "fn" and fr[3] == g.name and sum(1 for x in self.stack if x[0] == "fn" and x[3] == g.name) > 2:
                    return self.unknown_call(k)
            return self.eval_fn(g, args, st, site)
        return self.unknown_call(k)

    def call_value(self, fv, args, tys, ret, st, site):
        """call a function value with already separate arguments"""
        if fv.op == "md":
            outs = []
            for i, x in enumerate(leaves(fv)):
                if x is BOT:
                    continue
                c = apply(lambda y: I1 if y is x else I0, fv)
                s = st.copy()
                s.pc = band(st.pc, c)
                if s.pc is I0:
                    continue
                r = self.call_value(x, args, tys, ret, s, self.ctx(site, i))
                if r:
                    r[1].env[(site, "r")] = r[0]
                    outs.append(r[1])
            m = self.merge(outs)
            if m is None:
                return None
            v = m.env.pop((site, "r"))
            return v, m
        if fv.op in ("ptr",):
            return self.call_value(self.load(st, fv), args, tys, ret, st, site)
        if fv.op == "agg" and fv.a[0] == "closure":
            g = self.prog.fns.get(fv.a[1])
            if g is None or not g.has:
                raise Give("closure")
            self_ty = g.locals[1]
            if self_ty.startswith("&"):
                me = mk("ptr", mk("const", fv), ())
            else:
                me = fv
            return self.eval_fn(g, [me] + list(args), st, self.ctx(site, ("clos", g.id)))
        if fv.op == "fnv":
            g = self.prog.fns.get(fv.a[0])
            v = ctor(fv.a[1], args)
            if v is not None:
                return v, st
            if g is None:
                raise Give("function value %s" % fv.a[1])
            c = {"name": g.name, "def": g.__dict__["def"], "args": g.args, "inst": g.id}
            return self.call_fn(c, list(args), tys, ret, st, self.ctx(site, ("fnv", g.id)))
        k = Call()
        k.an, k.st, k.args, k.tys, k.ret, k.site = self, st, [fv] + list(args), [""] + list(tys), ret, site
        k.name, k.defn, k.gen, k.inst, k.fn = "value", "value", [], None, None
        k.pos = self.pos
        return self.unknown_call(k)

    def branch(self, st, cond, f, g, site):
        """f and g: state -> (value, state) or None"""
        outs = []
        for c, h in ((cond, f), (bnot(cond), g)):
            s = st.copy()
            s.pc = band(st.pc, c)
            if s.pc is I0:
                continue
            r = h(s)
            if r:
                r[1].env[(site, "b")] = r[0]
                outs.append(r[1])
        m = self.merge(outs)
        if m is None:
            return None
        v = m.env.pop((site, "b"))
        return v, m

    def value(self, st, v):
        """an argument with shared references to locals replaced by what they refer to"""
        def f(x):
            if x.op == "ptr" and x.a[0].op in ("L", "const"):
                return self.value(st, self.load(st, x))
            if x.op == "slice" and x.a[0].op in ("L", "const"):
                v = self.load(st, mk("ptr", x.a[0], x.a[1]))
                return part(v, x.a[2], x.a[3])
            if x.op == "agg" and x.a[0] != "closure":
                return mk("agg", x.a[0], x.a[1], x.a[2], tuple(self.value(st, y) for y in x.a[3]))
            if x.op == "arr":
                return mk("arr", *[self.value(st, y) for y in x.a])
            return x
        return apply(f, v)

    def unknown_call(self, k, pure=False):
        st = k.st
        vals = [self.value(st, a) for a in k.args]
        muts = [i for i, t in enumerate(k.tys) if t.startswith("&mut ") or t.startswith("std::pin")]
        name = k.defn if not k.gen or not k.defn.count("::") else k.defn
        if k.ret == "!":
            self.event("panic", st, k.defn, *vals)
            return None
        gen = tuple(k.gen)
        if muts and not pure:
            v = mk("callx", name, gen, k.site, *vals)
            for i in muts:
                a = k.args[i]
                for x in leaves(self.as_ptr(a)):
                    if x.op == "ptr":
                        s = mk("havoc", name, k.site, i, x)
                        c = apply(lambda y: I1 if y is x else I0, self.as_ptr(a))
                        if c is I1:
                            self.store(st, x, s, quiet=True)
                        else:
                            self.store(st, x, select(c, s, bnot(c), self.load(st, x)), quiet=True)
        else:
            v = mk("call", name, gen, *vals)
        self.unknown[k.defn] = self.unknown.get(k.defn, 0) + 1
        if not pure:
            self.event("call", st, name, vals, k.site, gen, ret=v)
        if k.ret == "bool":
            DOM[v] = (0, 1)
        if k.ret.startswith("&"):
            self.rty(v, k.ret)
        return v, st


class _PhiMemo(dict):
    pass


VARIANTS = {}


def ctor(name, args):
    n = re.sub(r"<.*", "", name).split("::")[-1]
    if n == "Some":
        return some(args[0])
    if n == "Ok":
        return ok(args[0])
    if n == "Err":
        return err(args[0])
    return None


INLINE = re.compile(r"goblin::elf.*(st_bind|st_type|r_type|r_sym|r_info|file_range|st_info|is_object_file|st_visibility|is_function|is_import|is_exec|is_write|is_alloc|::new)$|SectionHeader.*as std::default|ProgramHeader.*as std::default|as std::clone::Clone|goblin::elf64::.*default")


def foreign(g):
    if g.local:
        return False
    n = g.name.lstrip("<")
    if n.startswith("goblin::") or n.startswith("scroll::") or n.startswith("combine::"):
        return not INLINE.search(g.name)
    return False


def is_text(x):
    return x.op in ("str", "text")


def boolify(v):
    for x in leaves(v):
        if x.op not in ("int", "bot") and x not in DOM:
            DOM[x] = (0, 1)


def ext(x, e):
    if x.op == "bot":
        return x
    if x.op == "ptr":
        return mk("ptr", x.a[0], x.a[1] + (e,))
    if x.op == "guard":
        return ext(x.a[2], e)
    if x.op == "slice":
        return mk("ptr", x.a[0], x.a[1] + (e,))
    return mk("ptr", x, (e,))


def subslice(x, frm, to):
    if x.op == "guard":
        x = x.a[2]
    if x.op == "slice":
        root, path, f0, t0 = x.a
        return mk("slice", root, path, add(f0, frm), t0 if to is None else add(f0, to))
    if x.op == "ptr":
        return mk("slice", x.a[0], x.a[1], frm, to)
    return mk("slice", x, (), frm, to)


def part(v, frm, to):
    if frm is I0 and (to is None or to is vlen(v)):
        return v
    return mk("sub", v, frm, to)


def islocal(root):
    while root.op == "elem":
        root = root.a[0]
    return root.op in ("L", "const")


SHAPES = ("vpush", "eset", "mins", "mrem", "patched", "vemit", "mretain", "upd")


def same_container(v, root, path):
    while v.op in SHAPES:
        v = v.a[0]
    return v.op == "ld" and v.a[0] is root and v.a[1] == path or v.op == "md" and any(
        same_container(x, root, path) for x in leaves(v))


def eset(v, j, x):
    if v.op == "arr" and j.op == "int" and 0 <= j.a[0] < len(v.a):
        l = list(v.a)
        l[j.a[0]] = x
        return mk("arr", *l)
    if v.op == "eset" and v.a[1] is j:
        v = v.a[0]
    return mk("eset", v, j, x)


def differ(i, j):
    if i.op == "str" or j.op == "str" or i.op == "agg" or j.op == "agg":
        return i.op == j.op == "str" and i is not j
    d = sub(i, j)
    return d.op == "int" and d.a[0] != 0


def at(v, i):
    """element i of a sequence value"""
    def f(x, j):
        while x.op in ("eset", "mins", "mrem") and x.a[1] is not j and differ(x.a[1], j):
            x = x.a[0]
        if x.op == "eset" and x.a[1] is j:
            return x.a[2]
        if x.op == "mins" and x.a[1] is j:
            return x.a[2] if len(x.a) > 2 else mk("at", x.a[0], j)
        if x.op == "patched" and differ(x.a[1], j) and False:
            return at(x.a[0], j)
        if x.op == "arr":
            if j.op == "int":
                return x.a[j.a[0]] if 0 <= j.a[0] < len(x.a) else BOT
            if len(x.a) <= 64 and x.a:
                if j not in DOM:
                    return case(j, list(enumerate(x.a)), BOT)
                return case(j, [(c, x.a[c]) for c in DOM[j] if c < len(x.a)], BOT)
        if x.op == "vrep":
            return x.a[0]
        if x.op == "vpush":
            d = sub(j, vlen(x.a[0]))
            if d is I0:
                return x.a[1]
            if d.op == "int" and d.a[0] < 0:
                return at(x.a[0], j)
        if x.op == "collect":
            pass
        return mk("at", x, j)
    return apply(f, v, i)


def vlen(v):
    def f(x):
        if x.op == "arr":
            return I(len(x.a))
        if x.op == "vrep":
            return x.a[1]
        if x.op == "vpush":
            return add(vlen(x.a[0]), I1)
        if x.op in ("eset", "patched", "vsorted", "vswap", "vrev"):
            return vlen(x.a[0])
        if x.op == "vemit":
            return add(vlen(x.a[0]), x.a[1])
        if x.op in ("vinsert",):
            return add(vlen(x.a[0]), I1)
        if x.op in ("vremove", "vpop"):
            return sub(vlen(x.a[0]), I1)
        if x.op == "vcat":
            return add(vlen(x.a[0]), vlen(x.a[1]))
        if x.op == "vresize":
            return x.a[1]
        if x.op == "after":
            return sub(vlen(x.a[0]), vlen(x.a[1]))
        if x.op == "bytes":
            return I(x.a[0])
        if x.op == "str":
            return I(len(x.a[0].encode()))
        if x.op == "upd":
            return vlen(x.a[0])
        if x.op == "sub":
            return sub(x.a[2] if x.a[2] is not None else vlen(x.a[0]), x.a[1])
        s = mk("len", x)
        RANGE[s] = "usize"
        return s
    return apply(f, v)


def guards(v):
    out = []
    st = [v]
    while st:
        x = st.pop()
        if x.op == "guard":
            out.append(x)
        elif x.op == "md":
            st.append(x.a[2])
            st.extend(k for _, k in x.a[1])
        elif x.op == "agg":
            st.extend(x.a[3])
    return out
