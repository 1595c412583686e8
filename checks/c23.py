"""The texts of the styles are followed through the parser of styles to the sections a new image starts with; both spellings
of the option are put into the argument loop, and the setting is followed to where the sections are made."""
TECHNIQUE = "dataflow over MIR: composition of the style parser, the argument loops and the constructor of the image, by partial evaluation for each style text"
NOTE = "What the tables contain: C14; that the dynamic section points to them: C08."

from terms import *
from query import *
import c21
import cli
import made

TABLES = {".hash": 5, ".gnu.hash": 0x6ffffff6}
STYLES = {"sysv": (".hash",), "gnu": (".gnu.hash",), "both": (".hash", ".gnu.hash")}


def run(ctx, rep):
    rep.rule("a new image has a table of each kind exactly if the style that is named asks for it; other texts are refused")
    rep.rule("both spellings of the option set the style to what its operand names, and nothing else changes it up to the image")
    wan, ws = made.writers(ctx)
    if not rep.need("the sections of a new image", ws is not None):
        return
    rep.an(wan)
    style = {t.a[0] for t in walk(wan.ret) if t.op == "discr" and t.a[0].op == "ld" and
             base_of(t.a[0])[1][-1:] == ("hash_style",)}
    if not rep.need("the style is what is read", len({strip(x) for x in style}) == 1):
        return
    ty = None
    for f in ctx.find("lib", r"^<dld::.*Options as .*Default>::default$"):
        d = ctx.run("lib", f)
        if d.ret.op == "agg" and "hash_style" in d.ret.a[2]:
            ty = d.ret.a[3][d.ret.a[2].index("hash_style")]
    names = ctx.prog("lib").variants(ty.a[0]) if ty is not None and ty.op == "agg" else None
    if not rep.need("the styles", bool(names)):
        return
    number = {n: d for n, d, _ in names}
    fs = [f for f in ctx.find("lib", r"^<.* as .*FromStr>::from_str$") if f.name.startswith("<" + ty.a[0] + " ")]
    if not rep.need("the parser of styles", len(fs) == 1):
        return
    an = ctx.run("lib", fs[0])
    rep.an(an)
    subj = {x for x in walk(an.ret) if x.op == "ld" and x.a[0].op == "sym"}
    others = sorted({c for cs in cli.texts(an.ret).values() for c in cs} - set(STYLES))
    where = "%s" % fs[0].name
    for t, tables in sorted(STYLES.items()):
        r = under({s: S(t) for s in subj})(an.ret)
        ok = r.op == "agg" and r.a[1] == "Ok" and r.a[3][0].op == "agg" and r.a[3][0].a[1] in number
        rep.ob("%s: a style" % t, ok, show(r)[:200], where)
        if not ok:
            continue
        k = number[r.a[3][0].a[1]]
        if not rep.need("%s: the sections of its image" % t, k in ws):
            continue
        listed = ws[k][2]
        for n, code in sorted(TABLES.items()):
            ms = [m for m in listed if m.name == n]
            rep.ob("%s: %s %s" % (t, "has" if n in tables else "has no", n), len(ms) == (1 if n in tables else 0),
                   "%d sections of that name" % len(ms), where)
            typed = [m for m in listed if m.type is not None and m.type.op == "int" and m.type.a[0] == code]
            rep.ob("%s: %s sections of the type of %s" % (t, "one" if n in tables else "no", n), typed == ms, str(typed), where)
            for m in ms:
                rep.ob("%s: %s is generated" % (t, n), m.kind()[0] is not None, "its contents aren't", where)
    for t in ["other"] + others:
        r = under({s: S(t) for s in subj})(an.ret)
        rep.ob("any other text is refused", is_failure(r), "%s: %s" % (t, show(r)[:200]), where)
    # from the command line to the image
    link = ctx.link()
    rep.an(link)
    seen = set()
    read = set()
    for e in link.events:
        for t in walk(e.pc, seen):
            if t.op == "discr" and t.a[0].op == "ld" and base_of(t.a[0])[1][-1:] == ("hash_style",):
                read.add(strip(t.a[0]))
    rep.ob("the image is made in the style of the options", len(read) == 1 and [base_of(x)[1] for x in read] == [("options", "hash_style")],
           ", ".join(show(x) for x in read), "link")
    for e in link.events:
        if e.kind in ("store", "lstore") and isinstance(e.d[1], tuple) and "hash_style" in e.d[1]:
            rep.ob("the link leaves the style alone", False, show(e.d[2])[:100], e.where())
        if e.kind in ("vremove", "retain", "truncate", "clear", "drain", "pop", "keep", "dedup") and \
                isinstance(e.d[1], tuple) and e.d[1][-1:] == ("sections",) and not put_back(link, e):
            rep.ob("no section is dropped from the image", False, e.kind, e.where())
    main = ctx.main()
    rep.an(main)
    ps = cli.loops(main)
    calls = [e for e in main.events if e.kind == "call" and e.d[0].endswith("::link") and "Linker" in e.d[0]]
    if not rep.need("the argument loops", bool(ps)) or not rep.need("the start of the link", len(calls) == 1):
        return
    st = cli.Settings(main, ps)
    v, other = st.back(proj(calls[0].d[1][0], ("options", "hash_style")))
    rep.ob("the style is as the arguments left it", len(other) == 1 and {p.lid for p in ps} == {x.a[0] for x in v},
           "; ".join(show(x)[:100] for x in other), calls[0].where())
    for p in ps:
        for x in [x for x in v if x.a[0] == p.lid]:
            for n, text, operand in (("--hash-style STYLE", "--hash-style", cli.OPERAND), ("--hash-style=STYLE", "--hash-style=some", S("some"))):
                u = p.given(text)
                after = p.after(u, x)
                rep.ob("%s: sets the style" % n, vals(after) == [c21.parsed(after, operand)], show(after)[:200], p.head[0].where())
                bad = bnot(p.goes_on(u))
                rep.ob("%s: refused only for its operand" % n, bad is not I1 and all(c21.about(s, operand) for s in c21.all_subjects(bad)),
                       show(bad)[:200], p.head[0].where())
                rep.ob("%s: no input" % n, not p.pushed(u), "", p.head[0].where())
            for text in ("some.o", "--as-needed", "-o", "-lsome", "-L", "--build-id", "-m"):
                after = p.after(p.given(text), x)
                rep.ob("%s: leaves the style alone" % text, after is x, show(after)[:100], p.head[0].where())


def put_back(an, e):
    """what is removed is inserted again"""
    if e.kind != "vremove":
        return False
    for x in an.events:
        if x.kind in ("insert", "push") and x.seq > e.seq and x.d[0] is e.d[0] and x.d[1] == e.d[1] and x.loops == e.loops and \
                implies(e.cond(), x.cond()) and any(v.op == "at" and v.a[0] is e.d[2] and v.a[1] is e.d[3] for v in x.d if isinstance(v, T)):
            return True
    return False
