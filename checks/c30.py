"""The headers are followed from the writes of the image back to where their fields are made: the counts and indices
of the file header to the lists whose headers are written, the links of the sections to the sections they were built
for, and the positions to the last change of the order of the sections."""
TECHNIQUE = "backward dataflow analysis over MIR from the writes of the headers, with ordering of list changes"
NOTE = "Names at their offsets: C13. Number of local symbols: C29. Field widths: C01. More than 65535 sections are not considered."

from terms import *
from query import *
from image import Image, list_changes
from relocs import untrunc, going
import made

# what each type of generated section refers to: the type, and the name, of the section it was built for
LINKS = {2: (3, ".strtab"), 11: (3, ".dynstr"), 6: (3, ".dynstr"), 5: (11, None), 0x6ffffff6: (11, None), 4: (11, None)}
NAMES = {2: "symbol table", 11: "dynamic symbol table", 6: "dynamic section", 5: "hash table", 0x6ffffff6: "GNU hash table",
         4: "relocations"}


def run(ctx, rep):
    rep.rule("the header counts the program headers and section headers that are written, and names the table of names at its position")
    rep.rule("positions are given to all sections after their order is final")
    rep.rule("a section's link is the position of the section it was built with, written before its header is")
    rep.rule("generated sections are built with the tables they refer to")
    im = Image(ctx)
    rep.an(im.an)
    if not rep.need("headers and contents that are written", im.ok):
        return
    counts(ctx, rep, im)
    positions(ctx, rep, im)
    links(ctx, rep, im)
    built(ctx, rep, im)


def counts(ctx, rep, im):
    an = im.an
    lists = {}
    for n, (loop, fs), size in (("program headers", im.ph, 56), ("section headers", im.sh, 64)):
        l = im.whole(loop)
        w = next(iter(fs.values()))[1].where()
        rep.ob("%s: one for each of a list" % n, l is not None and len(l) >= 1, str(l), w)
        lists[n] = l
        guards = domain(an, loop).guards
        every = all(under(guards)(e.cond()) is not I0 and only_io(under(guards)(e.cond())) for v, e in fs.values())
        rep.ob("%s: whole, for every element" % n, every, show(fs[min(fs)][1].cond())[:160], w)
    for f, n in (("e_phnum", "program headers"), ("e_shnum", "section headers")):
        v, e = im.header[f]
        u = untrunc(strip(fits(v)), 16)
        ok = u.op == "len" and lists[n] is not None and base_of(strip(u.a[0]))[1] == lists[n]
        rep.ob("%s is the number of %s" % (f, n), ok, show(v)[:160], e.where())
        late = [x for x in changes_after(an, lists[n], v, e)]
        rep.ob("%s: none is added later" % f, not late, ", ".join(x.where() for x in late[:3]), e.where())
    for f, want in (("e_ehsize", 64), ("e_phentsize", 56), ("e_shentsize", 64), ("e_phoff", 64)):
        v, e = im.header[f]
        got = start_value(ctx, im, f)
        rep.ob("%s is %d" % (f, want), got == want, show(v)[:120], e.where())
        ws = [x for x in an.events if x.kind in ("store", "lstore") and isinstance(x.d[1], tuple) and
              base_of(mk("ptr", x.d[0], x.d[1]))[1][-1:] == base_of(v)[1][-1:] and v.op == "ld"]
        rep.ob("%s: is not changed" % f, not ws, ", ".join(x.where() for x in ws[:2]), e.where())
    v, e = im.header["e_shstrndx"]
    u = untrunc(v, 16)
    p = base_of(u)[1] if u.op == "ld" else ()
    rep.ob("e_shstrndx is the position of a section", len(p) >= 2 and u.op == "ld", show(v)[:160], e.where())
    im.names = p[:-1][-1:] if p else ()
    im.posfield = p[-1:]


def small(t):
    """lists have fewer than 65536 elements"""
    if t.op == "ltc" and t.a[0].op == "len" and (t.a[1] if isinstance(t.a[1], int) else t.a[1].a[0]) >= 65535:
        return I1
    return None


fits = Rebuild(small)


def only_io(c):
    """a condition that only asks whether earlier writes succeeded"""
    return all(mentions(s, lambda t: t.op in ("io", "exit", "call", "more")) for s in subjects(c)) if c.op == "md" else c is I1


def start_value(ctx, im, f):
    """the value of a field of the header as the writer is made"""
    v = im.header[f][0]
    if v.op == "int":
        return v.a[0]
    p = base_of(v)[1]
    an, ws = made.writers(ctx)
    if not ws or not p:
        return None
    out = set()
    for k in ws:
        x = None
        w = ws[k][0]
        for i in range(len(p)):
            if p[i] in w:
                x = w[p[i]]
                for n in p[i + 1:]:
                    x = proj1(strip(x), n) if strip(x).op == "agg" and n in strip(x).a[2] else BOT
                break
        if x is None or x.op != "int":
            return None
        out.add(x.a[0])
    return out.pop() if len(out) == 1 else None


def changes_after(an, names, v, e):
    """changes of a list after a quantity of it was taken: its version in the quantity is not the one at the write"""
    if not names:
        return []
    last = [x for x in list_changes(an, names[-1])]
    # the events which define the header's field come after every change of the list, or the value mentions the final list
    out = []
    for x in last:
        if x.seq > e.seq:
            out.append(x)
    us = untrunc(strip(fits(v)), 16)
    if us.op == "len":
        t = us.a[0]
        b, p = base_of(strip(t))
        # the loop that writes the headers starts from the same list
        if t.op not in ("ld", "ptr", "fld"):
            # a list under construction: anything made of it afterwards is a change
            out += [x for x in last if any(isinstance(y, T) and y is t for y in x.d[2:3])]
    return out


def positions(ctx, rep, im):
    an = im.an
    names = im.whole(im.sh[0])
    stores = [e for e in an.events if e.kind == "store" and im.posfield and tuple(e.d[1])[-1:] == im.posfield]
    if not rep.need("where positions are given", bool(stores) and names):
        return
    last = stores[-1]
    rep.ob("positions: given at one place", len(stores) == 1, ", ".join(e.where() for e in stores[:4]), last.where())
    ok = bool(last.loops)
    if ok:
        d = domain(an, last.loops[-1])
        w = d.whole()
        ok = bool(w) and not d.early and not d.rev
        rep.ob("positions: given to every section", ok and implies(after(an, names, last), going(an, last)),
               "%s under %s" % (str(d.iters)[:120], show(last.full())[:80]), last.where())
        if ok:
            ix, s = d.iters[0]
            seq = s[1] if s[0] == "each" else None
            start = s[3] if s[0] == "each" else None
            v = untrunc(strip(last.d[2]), 16)
            c0, ds = lin_parts(v)
            i_ok = len(ds) == 1 and ds[0][0] is ix and ds[0][1] == 1 and c0 == 0
            # the element whose position is set is the one at the counter
            b = strip(last.d[0])
            at = [t for t in walk(b) if t.op in ("at", "elem") and t.a[-1] is ix or t.op == "at" and t.a[1] is ix]
            lin = [lin_parts(t.a[1]) for t in walk(b) if t.op == "at" and mentions(t.a[1], lambda x: x is ix)]
            same = bool(at) and start == 0 or any(c == c0 + 0 for c, _ in lin)
            if lin and not at:
                same = any(c == c0 for c, _ in lin)
                i_ok = len(ds) == 1 and ds[0][0] is ix and ds[0][1] == 1
            elif start is not None and not lin:
                same = mentions(b, lambda x: x is ix)
                i_ok = len(ds) == 1 and ds[0][0] is ix and ds[0][1] == 1 and (c0 == 0 or c0 == start)
            rep.ob("positions: the section's own, counted from the first header", i_ok and same, "%s of %s" % (show(v)[:80], show(b)[-120:]), last.where())
    for x in list_changes(an, names[-1]):
        if x.seq > last.seq:
            rep.ob("positions: the order is final when they are given", False, x.kind, x.where())
    rep.ob("positions: nothing changes the order afterwards", True, "%d changes of the list, all before" %
           len(list_changes(an, names[-1])), last.where())
    # nothing is lost, and the null section stays first
    kinds = {}
    for x in list_changes(an, names[-1]):
        kinds.setdefault(x.kind, []).append(x)
    bad = [k for k in kinds if k in ("retain", "keep", "drain", "pop", "truncate", "clear", "dedup", "resize", "extend", "store", "lstore", "swap", "reverse")]
    rep.ob("sections: only added and reordered", not bad, ", ".join(bad), last.where())
    order = final_order(an, last, names)
    rep.ob("sections: the first stays the first", order is not None and order[0] == "kept", str(order)[:160], last.where())
    a2, ws = made.writers(ctx)
    if ws:
        for k, (w_, fields, l) in ws.items():
            z = l[0]
            ok = all(z.get("sh", f) is I0 for f in ("sh_name", "sh_type", "sh_flags", "sh_addr", "sh_offset", "sh_size", "sh_info", "sh_link")) \
                and z.empty and z.link is not None and show(z.link) == "None" and z.field is None
            rep.ob("sections: the first is null, in style %d" % k, ok, str(z), a2.root if isinstance(getattr(a2, "root", None), str) else "Writer::new")


def after(an, names, e):
    """the condition under which the last change of the list before an event happens"""
    xs = [x for x in list_changes(an, names[-1]) if x.seq < e.seq]
    return xs[-1].full() if xs else I1


def final_order(an, last, names):
    """('kept', source) if the list that gets positions is its former first element followed by the others in some order"""
    seq = None
    for t in walk(last.d[0]):
        if t.op == "vinsert" or t.op == "vsorted":
            seq = t
            break
    for l in [an.loops[x] for x in last.loops]:
        for s, it in l.iters:
            for t in walk(it):
                if t.op == "vinsert" and seq is None:
                    seq = t
    if seq is None:
        return None
    if seq.op == "vsorted":  # all but the first are sorted, in place
        ss = [x for x in list_changes(an, names[-1]) if x.kind == "sort" and x.seq < last.seq]
        if ss and all(x.d[0].op == "slice" and x.d[0].a[2] is I1 for x in ss) and seq.a[0].op != "vsorted":
            return ("kept", seq.a[0])
    if seq.op == "vinsert":
        base, ix, v = seq.a[0], seq.a[1], strip(seq.a[2])
        if ix is not I0 or base.op != "vsorted":
            return ("?", show(seq)[:100])
        src = base.a[0]
        if src.op == "vremove" and src.a[1] is I0 and v.op == "at" and v.a[0] is src.a[0] and v.a[1] is I0:
            return ("kept", src.a[0])
    return ("?", show(seq)[:100])


def links(ctx, rep, im):
    an = im.an
    v, e = im.sh[1]["sh_link"]
    field = base_of(v)[1][-1:] if v.op == "ld" else ()
    ws = [x for x in an.events if x.kind == "store" and isinstance(x.d[1], tuple) and tuple(x.d[1])[-1:] == field and field]
    if not rep.need("where the link of a section is written", ws):
        return
    first = im.sh[1]["sh_name"][1]
    for x in ws:
        rep.ob("links: written before the section headers are", x.seq < first.seq and not (set(x.loops) & {im.sh[0]}), "", x.where())
        # by the loop over all sections
        ok = False
        for lid in x.loops:
            l = im.whole(lid)
            if l and l == im.whole(im.sh[0]):
                c = x.cond(within=lid)
                c = under(domain(an, lid).guards)(c)
                c = Rebuild(lambda t: I1 if t.op == "discr" and base_of(strip(t.a[0]))[1][-1:] == ("link",) else None)(c)
                ok = c is not I0 and only_io(c)
        rep.ob("links: of every section", ok, str([str(domain(an, y).iters)[:80] for y in x.loops]), x.where())
    # what is written, from the function that does it
    fs = sorted({n for x in ws for n in [owner(x)] if n})
    done = 0
    for f in ctx.find("lib", r"Section::<.*>::\w+$"):
        if not any(f.name == n for n in fs):
            continue
        a = ctx.run("lib", f)
        rep.an(a)
        r = base_of(a.args[0])[0]
        st = [x for x in a.events if x.kind == "store" and tuple(x.d[1])[-1:] == field and base_of(mk("ptr", x.d[0], x.d[1]))[0] is r]
        if not st:
            continue
        done += 1
        out = strip(a.hload(a.final.heap, r, tuple(base_of(mk("ptr", st[-1].d[0], st[-1].d[1]))[1])))
        w = st[-1].where()
        lk = linked(out)
        if not rep.ob("links: written if, and only if, there is one", lk is not None, show(out)[:200], w):
            continue
        d, yes, no = lk
        u = untrunc(yes, 16)
        b, p = base_of(u) if u.op == "ld" else (None, ())
        inner = base_of(strip(d.a[0]))
        ok = u.op == "ld" and p[-1:] == im.posfield
        own = b is not None and mentions(u, lambda t: t.op in ("ld", "ptr") and base_of(t)[1][:len(inner[1])] == inner[1] and base_of(t)[0] is inner[0]) or \
            (p[:len(inner[1])] == inner[1])
        rep.ob("links: are the position of the section linked to", bool(ok and own), show(yes)[:160], w)
        rep.ob("links: sections without one keep theirs", no.op == "ld" and base_of(no)[1][-1:] == field, show(no)[:100], w)
        im.linkfield = inner[1][-1:]
    rep.need("the function that writes links", done)


def owner(e):
    """the function an event belongs to"""
    w = e.frames
    for x in reversed(w):
        if isinstance(x, tuple) and len(x) > 3 and isinstance(x[3], str) and x[3].startswith("dld"):
            return x[3]
    return None


def linked(v):
    """a value that is one thing if an optional field is set and another if it is not"""
    if v.op != "md" or v.a[0].op != "discr":
        return None
    d = v.a[0]
    yes = strip(under({d: I1})(v))
    no = strip(under({d: I0})(v))
    return d, yes, no


def built(ctx, rep, im):
    a, ws = made.writers(ctx)
    if not rep.need("the sections the linker makes", ws):
        return
    rep.an(a)
    lf = getattr(im, "linkfield", ("link",))
    seen = set()
    for k, (w, fields, order) in ws.items():
        by_root = {m.root: m for m in order}
        for m in order:
            t = m.type.a[0] if m.type is not None and m.type.op == "int" else None
            if t not in LINKS:
                continue
            seen.add(t)
            l = m.link
            tgt = None
            if l is not None and l.op == "agg" and l.a[1] == "Some":
                p = strip(l.a[3][0])
                tgt = by_root.get(p.a[0] if p.op == "ptr" else p)
            wt, wn = LINKS[t]
            ok = tgt is not None and tgt.type is I(wt) and (wn is None or tgt.name == wn)
            rep.ob("%s %s, style %d: built with its %s" % (NAMES[t], m.name, k, wn or NAMES.get(wt, "")), ok,
                   "linked to %s" % tgt, "Writer::new")
        nm = fields.get(im.names[0]) if im.names else None
        rep.ob("e_shstrndx: the table the names are in, style %d" % k, nm is not None and nm.name == ".shstrtab" and
               nm.kind()[0] == "StringTable" and nm.position is not None, str(nm), "Writer::new")
        rep.ob("names: every section has one in the table, style %d" % k, all(m.name for m in order[1:]),
               ", ".join(str(m) for m in order if not m.name), "Writer::new")
    rep.ob("generated sections with links: all found", seen == set(LINKS), "%s" % sorted(seen), "Writer::new")
    bad = [e for e in im.an.events if e.kind == "store" and isinstance(e.d[1], tuple) and tuple(e.d[1])[-1:] == lf]
    for e in bad:
        rep.ob("links: what a section was built for is not changed", False, show(e.d[0])[:100], e.where())
    # sections that come from the input are named in the same table
    n = 0
    for e in im.an.events:
        if e.kind != "new" or not e.loops:
            continue
        v = strip(e.d[1])
        if v.op != "agg" or "sh" not in v.a[2]:
            continue
        sh = v.a[3][v.a[2].index("sh")]
        nmv = strip(proj1(strip(sh), "sh_name")) if strip(sh).op == "agg" else None
        if nmv is None or nmv.op == "int":
            continue
        n += 1
        tabs = {p[i - 1] for t in walk(nmv) if t.op == "ld" for p in [base_of(t)[1]] for i in range(1, len(p)) if p[i] == "synthetic"}
        rep.ob("names: of input sections are in the same table", tabs == set(im.names), str(tabs), e.where())
        num = strip(proj1(strip(sh), "sh_link"))
        rep.ob("links: of input sections do not keep the number the input uses", num is I0, show(num)[:100], e.where())
        lk = v.a[3][v.a[2].index(lf[0])] if lf and lf[0] in v.a[2] else None
        rep.ob("links: input sections have none", lk is not None and show(strip(lk)) == "None", show(lk)[:80] if lk is not None else "", e.where())
    rep.need("sections made for input sections", n)
