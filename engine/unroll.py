"""What loops come to for a given number of elements: terms of a loop's body are rewritten for one iteration after the
other, loops within it likewise."""
from terms import *
from query import *


class Unknown(Exception):
    pass


class Round(object):
    """the end of a loop: after how many iterations, and by which way out"""

    def __init__(self, ctx, out):
        self.ctx, self.out = ctx, out


class Unroll(object):
    """count(iterator): how many elements it has; fix: rebuilt term -> term or None"""
    LIMIT = 50

    def __init__(self, an, count, fix, within):
        """the loops outside of loop `within` are left alone"""
        self.an, self.count, self.fix = an, count, fix
        self.own = {lid for lid, l in an.loops.items() if lid == within or any(f[0] == "loop" and f[1] == within for f in l.frames)}
        self.sites = {}
        for lid, l in an.loops.items():
            for site, it in l.iters:
                self.sites[site] = lid
        self.ends, self.evs, self.mus = {}, {}, {}

    def at(self, ctx):
        """the specialiser for a context ((loop, iteration), ...)"""
        r = self.evs.get(ctx)
        if r is None:
            r = self.evs[ctx] = Rebuild(lambda t: self.replace(t, ctx), self.fix)
        return r

    def where(self, lid, ctx):
        """the iteration loop lid is in, seen from ctx: that of ctx, or the one it ended with"""
        for n, (l, i) in enumerate(ctx):
            if l == lid:
                return ctx[:n + 1]
        return self.end(lid, ctx).ctx

    def replace(self, t, ctx):
        if t.op == "exit" and t.a[0] in self.own:
            return I(self.end(t.a[0], ctx).out)
        if t.op in ("iv", "more") and self.sites.get(t.a[0]) in self.own:
            c = self.where(self.sites[t.a[0]], ctx)
            return I(c[-1][1]) if t.op == "iv" else I(1 if c[-1][1] < self.size(t.a[1], c[:-1]) else 0)
        if t.op == "mu" and t.a[0] in self.own:
            return self.state(t, self.where(t.a[0], ctx))
        return None

    def size(self, it, ctx):
        n = self.count(it, self.at(ctx))
        if n is None:
            raise Unknown("the number of elements of " + show(it)[:100])
        return n

    def state(self, mu, ctx):
        key = (mu, ctx)
        if key not in self.mus:
            l = self.an.loops[mu.a[0]]
            i = ctx[-1][1]
            st, c = (l.init, ctx[:-1]) if i == 0 else (l.latch, ctx[:-1] + ((mu.a[0], i - 1),))
            v = st.env.get(mu.a[1])
            self.mus[key] = self.at(c)(strip(BOT if v is None else proj(v, mu.a[2])))
        return self.mus[key]

    def end(self, lid, ctx):
        l = self.an.loops[lid]
        ups = [f[1] for f in l.frames if f[0] == "loop" and f[1] in self.own]
        ctx = tuple(x for x in ctx if x[0] in ups)
        r = self.ends.get((lid, ctx))
        if r is None:
            r = self.ends[(lid, ctx)] = self.go(l, ctx)
        return r

    def go(self, l, ctx):
        for i in range(self.LIMIT):
            c = ctx + ((l.id, i),)
            ev = self.at(c)
            for n, x in enumerate(l.exits):
                v = ev(strip(x[1]))
                if v is I1:
                    return Round(c, n)
                if v is not I0:
                    raise Unknown("a way out of a loop: " + show(v)[:150])
            if l.latch is None or ev(strip(l.latch.pc)) is not I1:
                raise Unknown("whether a loop goes on")
        raise Unknown("a loop that doesn't end")
