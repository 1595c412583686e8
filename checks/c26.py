"""The allocation of storage for objects of shared libraries is followed: for each type of symbol the size of the
section grows exactly once, by the size of the symbol, the value of the dynamic symbol and the offset of the COPY
relocation are the size before, and all of them are moved by the address of the section afterwards."""
TECHNIQUE = "path-condition and linear dataflow analysis over MIR of the allocation of copies"
NOTE = "Copies of aliased objects are separate and not aligned beyond the section's start. Order of steps: C17."

from terms import *
from query import *
from roles import *
from relocs import R
from slots import *
from c27 import fld, split_info


def run(ctx, rep):
    rep.rule("the section grows by st_size exactly once per dynamic object and for nothing else")
    rep.rule("offset of the copy = size before = offset of its COPY relocation")
    rep.rule("every dynamic object is moved by the address of the section, and by nothing else")
    an = ctx.compute()
    if not rep.need("Writer::compute_sections", an):
        return
    rep.an(an)
    sl = Slots()
    size = [e for e in an.events if e.kind == "store" and writer_path(*e.d[:2])[:1] == ("copy_rel_section",)
            and writer_path(*e.d[:2])[-1:] == ("size",) and "chunks" not in writer_path(*e.d[:2])]
    rels = [e for e in an.events if e.kind == "push" and writer_path(*e.d[:2])[-1:] == ("dyn_rels",)]
    if not rep.need("size of the copies", size) or not rep.need("relocations", rels):
        return
    values = []
    shndx = []
    for e in an.events:
        if e.kind == "store":
            f = symbol_field(role(mk("ld", e.d[0], e.d[1], 0))) if e.d[1] else None
            if f and f[0] == "dyn_sym_section" and f[1][-1:] == ("st_value",):
                values.append(e)
            if f and f[0] == "dyn_sym_section" and f[1][-1:] == ("st_shndx",):
                shndx.append(e)
            if f and f[0] == "dyn_sym_section" and f[1][-1:] == ("st_size",):
                rep.ob("the size of an object stays what the library says", False, "", e.where())
    if not rep.need("values of dynamic symbols", values):
        return
    loops = set(e.loops for e in size)
    rep.ob("storage is allocated in one loop", len(loops) == 1 and all(len(l) == 1 for l in loops), str(loops), size[0].where())
    d = domain(an, size[0].loops[0]).whole() if size[0].loops else None
    rep.ob("every named symbol is looked at", d is not None and d[3] == 0 and "sym_section" in d[2] and d[2][-1:] == ("symbols",),
           str(d)[:200], size[0].where())
    for dyn, ty in ((1, 1), (1, 2), (1, 0), (0, 1), (0, 2)):
        k = "%s of type %d" % ("dynamic symbol" if dyn else "symbol of the image", ty)
        obj = dyn and ty == 1
        hits = []
        for e in size:
            u = assuming(an, e, assume("sym_section", dynamic=dyn), assume("dyn_sym_section", type=ty), first_copy)
            c = u(e.full())
            if c is not I0:
                hits.append((e, c, u(e.d[2])))
        if not rep.ob("%s: %s" % (k, "storage once, always" if obj else "no storage"),
                      len(hits) == 1 and hits[0][1] is I1 if obj else not hits,
                      ", ".join(show(h[1]) for h in hits) or "none", size[0].where()):
            continue
        sets = []
        for e in values:
            u = assuming(an, e, assume("sym_section", dynamic=dyn), assume("dyn_sym_section", type=ty, in_plt=0), first_copy)
            c = u(e.full())
            old = u(mk("ld", e.d[0], e.d[1], 0))
            new = u(e.d[2])
            if c is not I0 and new is not old:
                sets.append((e, c, new, old))
        if not obj:
            if dyn:
                rep.ob("%s: its value is not that of a copy" % k, not sets, str(len(sets)), sets[0][0].where() if sets else "")
            continue
        # the allocation
        e, c, new = hits[0]
        c0, ds = lin_parts(new)
        old = [x for x, n in ds if base_of(x)[1][-1:] == ("size",) and n == 1]
        sz = [x for x, n in ds if symbol_field(x) and symbol_field(x) == ("dyn_sym_section", ("sym", "st_size")) and n == 1]
        rep.ob("%s: as much as the library says" % k, c0 == 0 and len(ds) == 2 and len(old) == 1 and len(sz) == 1, show(new), e.where())
        inloop = [x for x in sets if x[0].loops == e.loops]
        after = [x for x in sets if x[0].loops != e.loops]
        ok = rep.ob("%s: gets one value in the section" % k, len(inloop) == 1 and inloop[0][1] is I1, str(len(inloop)), e.where())
        ok = rep.ob("%s: is moved to the section's address once" % k, len(after) == 1 and after[0][1] is I1,
                    ", ".join(x[0].where() for x in after), e.where()) and ok
        if not ok:
            continue
        raw_old = [x for x, n in lin_parts(raw(an, e, e.d[2], dyn, ty))[1] if base_of(x)[1][-1:] == ("size",)]
        v = raw(an, inloop[0][0], inloop[0][0].d[2], dyn, ty)
        rep.ob("%s: the value is the size before" % k, len(raw_old) == 1 and v is raw_old[0],
               "%s, not %s" % (show(v), show(raw_old[0]) if raw_old else "?"), inloop[0][0].where())
        cp = []
        for r in rels:
            u = assuming(an, r, assume("sym_section", dynamic=dyn), assume("dyn_sym_section", type=ty))
            if split_info(u(fld(r.d[2], "r_info")))[1] == 5 and u(r.full()) is not I0:
                cp.append(r)
        rep.ob("%s: one COPY relocation" % k, len(cp) == 1 and cp[0].loops == e.loops, str(len(cp)), e.where())
        for r in cp:
            o = raw(an, r, fld(r.d[2], "r_offset"), dyn, ty)
            rep.ob("%s: the COPY relocation is for its storage" % k, raw_old and o is raw_old[0], show(o), r.where())
        # moved to the section
        m, c, new, old = after[0]
        c0, ds = lin_parts(sl(new))
        t = {x: n for x, n in ds}
        rest = [x for x in t if x is not R("COPYREL")]
        rep.ob("%s: is moved by the address of the section" % k, c0 == 0 and t.get(R("COPYREL")) == 1 and len(rest) == 1
               and t[rest[0]] == 1 and rest[0] is sl(old), show(new), m.where())
        dm = domain(an, m.loops[0]).whole() if m.loops else None
        rep.ob("%s: so is every one" % k, len(m.loops) == 1 and dm is not None and dm[3] == 0 and "dyn_sym_section" in dm[2]
               and dm[2][-1:] == ("symbols",), str(dm)[:200], m.where())
        rep.ob("%s: after its place in the section is known" % k, m.seq > inloop[0][0].seq, "", m.where())
        sx = []
        for x in shndx:
            u = assuming(an, x, assume("sym_section", dynamic=dyn), assume("dyn_sym_section", type=ty))
            if u(x.full()) is not I0:
                sx.append((x, u(x.full()), strip(u(x.d[2]))))
        ok = len(sx) == 1 and sx[0][1] is I1 and sx[0][0].loops == m.loops
        if ok:
            v = sx[0][2]
            while v.op == "trunc" and v.a[0] == 16:
                v = v.a[2]
            ok = base_of(v)[1] == ("copy_rel_section", "index")
        rep.ob("%s: belongs to the section" % k, ok, show(sx[0][2]) if sx else "none", m.where())
    # functions keep the address of their PLT entry: nothing else is set for objects
    for e in an.events:
        if e.kind == "store":
            f = symbol_field(role(mk("ld", e.d[0], e.d[1], 0))) if e.d[1] else None
            if f and f[0] == "dyn_sym_section" and f[1][-1:] == ("in_plt",):
                u = assuming(an, e, assume("dyn_sym_section", type=1))
                rep.ob("objects have no PLT entry", u(e.full()) is I0, "", e.where())
    # the size of the section
    last = max(e.seq for e in size)
    sh = []
    for e in an.events:
        if e.kind == "store" and writer_path(*e.d[:2]) == ("copy_rel_section", "sh", "sh_size"):
            v = strip(e.d[2])
            if base_of(v)[1][-1:] == ("size",) and base_of(v)[1][:1] == ("copy_rel_section",) and "CopyRel" in base_of(v)[1]:
                sh.append(e)
    rep.ob("the section is as large as all copies", bool(sh) and max(e.seq for e in sh) > last, "%d" % len(sh),
           sh[-1].where() if sh else size[0].where())
    fs = ctx.find("lib", r"CopyRel as .*Synthesized.*>::fill_header$")
    if rep.need("header of the section", fs):
        a2 = ctx.run("lib", fs[0])
        rep.an(a2)
        hs = {}
        for e in a2.events:
            if e.kind == "store":
                p = writer_path(*e.d[:2])
                if p[-1:] in (("sh_type",), ("sh_flags",)):
                    hs[p[-1]] = strip(e.d[2])
                elif e.d[2].op == "agg":
                    for n in ("sh_type", "sh_flags"):
                        if n in e.d[2].a[2]:
                            hs[n] = strip(fld(e.d[2], n))
        rep.ob("the section takes memory only", hs.get("sh_type") is I(8), show(hs.get("sh_type", BOT)), "")
        rep.ob("the section is writable", hs.get("sh_flags") is I(3), show(hs.get("sh_flags", BOT)), "")


def raw(an, e, v, dyn, ty):
    """v under the assumptions"""
    fs = [assume("sym_section", dynamic=dyn), assume("dyn_sym_section", type=ty), first_copy]
    env = going_env(an, e.loops)

    def g(t):
        if t in env:
            x = env[t]
            return x if isinstance(x, T) else I(x)
        if t.op in ("discr", "trunc", "shr", "has"):
            for f in fs:
                r = f(strip(role(t)))
                if r is not None:
                    return r
        return None
    return strip(Rebuild(g)(v))  # a read behind the store yields what was stored, not a load


