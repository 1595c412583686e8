"""Each record's serialiser is evaluated symbolically; the sequence of bytes it appends (field, width,
byte order, element loops) is compared with the field tables of the ELF64 specification, and the
length it returns with the number of bytes appended. Only the order in which bytes reach the writer
counts, not how the code is arranged."""
TECHNIQUE = "symbolic dataflow over MIR: the write effects of each serialiser compared with the ELF64 field tables"
NOTE = "Covers every value of every field; vectors are followed element by element through their loops."

import re
from terms import *
from query import *
from roles import *

LAYOUT = {
    "Header": ("goblin::elf64::header::Header", [
        ("e_ident", 16), ("e_type", 2), ("e_machine", 2), ("e_version", 4), ("e_entry", 8),
        ("e_phoff", 8), ("e_shoff", 8), ("e_flags", 4), ("e_ehsize", 2), ("e_phentsize", 2),
        ("e_phnum", 2), ("e_shentsize", 2), ("e_shnum", 2), ("e_shstrndx", 2)]),
    "ProgramHeader": ("goblin::elf64::program_header::ProgramHeader", [
        ("p_type", 4), ("p_flags", 4), ("p_offset", 8), ("p_vaddr", 8), ("p_paddr", 8),
        ("p_filesz", 8), ("p_memsz", 8), ("p_align", 8)]),
    "SectionHeader": ("goblin::elf64::section_header::SectionHeader", [
        ("sh_name", 4), ("sh_type", 4), ("sh_flags", 8), ("sh_addr", 8), ("sh_offset", 8),
        ("sh_size", 8), ("sh_link", 4), ("sh_info", 4), ("sh_addralign", 8), ("sh_entsize", 8)]),
    "Sym": ("goblin::elf64::sym::Sym", [
        ("st_name", 4), ("st_info", 1), ("st_other", 1), ("st_shndx", 2), ("st_value", 8),
        ("st_size", 8)]),
    "Rela": ("goblin::elf64::reloc::Rela", [("r_offset", 8), ("r_info", 8), ("r_addend", 8)]),
    "DynEntry": ("(dld::elf::DynTag, u64)", [("0", 8), ("1", 8)]),
    "HashTable": ("dld::elf::symbol_table::HashTable", [
        ("nbuckets", 4), ("nchains", 4), ("buckets*", 4), ("chains*", 4)]),
    "GnuHashTable": ("dld::elf::symbol_table::GnuHashTable", [
        ("nbuckets", 4), ("sym_offset", 4), ("bloom_size", 4), ("bloom_shift", 4), ("bloom*", 8),
        ("buckets*", 4), ("chains*", 4)]),
}


def flat(items):
    """split raw writes of known bytes into fields"""
    out = []
    for kind, w, end, v, e in items:
        if end == "raw":
            if v.op == "sub" and v.a[1] is I0 and (v.a[2] is None or v.a[2].op == "int"):
                v = v.a[0]
            if v.op == "bytes":
                w, end, v = v.a[0], v.a[1], strip(v.a[2])
            elif v.op == "arr" and kind == "one":
                for x in v.a:
                    out.append((kind, 1, "le", x, e))
                continue
        out.append((kind, w, end, v, e))
    return out


def field_of(v, me):
    """the field of the record v is, and whether all of it"""
    while v.op == "discr" or (v.op == "cast"):
        v = v.a[0]
    if v.op == "trunc":
        return None
    b, p = base_of(v)
    if b is not me or not p:
        return None
    if p[-1] == "[]":
        return p[0] + "*" if len(p) == 2 else None
    return p[0] if len(p) == 1 else None


def run(ctx, rep):
    rep.rule("the n-th field appended is the n-th field of the specification, in its width, little-endian, unmodified")
    rep.rule("the length returned is the number of bytes appended")
    for name, (ty, fields) in LAYOUT.items():
        fs = [f for f in ctx.find("lib", r"as dld::serialize::Serialize<.*>>::serialize$")
              if f.name.startswith("<%s as " % ty)]
        if not rep.need("serialiser of " + name, fs):
            continue
        for f in fs:
            an = ctx.run("lib", f)
            rep.an(an)
            me = an.args[0].a[0]
            items = flat(emit_items(an))
            where = items[0][4].where() if items else f.name
            got = [(field_of(v, me) or show(v), w, end, kind) for kind, w, end, v, e in items]
            for i, (fn, w) in enumerate(fields):
                key = "%s.%s" % (name, fn.rstrip("*"))
                if i >= len(items):
                    rep.ob(key, False, "never written", f.name)
                    continue
                g = got[i]
                ok = g[0] == fn and g[1] == w and (g[2] == "le" or w == 1 or fn == "e_ident")
                ok = ok and (g[3] == ("each" if fn.endswith("*") else "one"))
                c = items[i][4].full()
                if not fn.endswith("*"):
                    ok = ok and items[i][4].pc is I1
                rep.ob(key, ok, "written as %s in %s bytes, %s (%s)" % (g[0], g[1], g[2], g[3]), items[i][4].where())
            rep.ob(name + ": nothing else is written", len(items) <= len(fields),
                   "also " + ", ".join(str(g) for g in got[len(fields):]), where)
            total = I0
            for fn, w in fields:
                if fn.endswith("*"):
                    from flow import vlen
                    c = [v for kind, _, _, v, _ in items if kind == "each" and field_of(v, me) == fn]
                    if c:
                        total = add(total, scale(container_len(c[0]), w))
                else:
                    total = add(total, I(w))
            ret = strip(an.ret) if an.ret is not None else BOT
            # the lengths of the tables are what their counters say (C14)
            alt = Rebuild(lambda t: counters(t, me))
            rep.ob(name + ": length accounted for", ret is total or alt(ret) is alt(total),
                   "%s instead of %s" % (show(ret), show(total)), f.name)
    # strings
    fs = ctx.find("lib", r"^<dld::name::Name as dld::serialize::Serialize<.*>>::serialize$")
    if rep.need("serialiser of strings", fs):
        for f in fs:
            an = ctx.run("lib", f)
            rep.an(an)
            me = an.args[0].a[0]
            items = flat(emit_items(an))
            ok = len(items) == 2 and items[0][2] == "raw" and all(
                base_of(x)[0] is me for x in vals(items[0][3])) and items[1][1] == 1 and items[1][3] is I0 \
                and all(i[4].pc is I1 for i in items)
            rep.ob("string: text, then its terminator", ok, ", ".join(show(i[3]) for i in items), f.name)
            if ok:
                from flow import vlen
                rep.ob("string: length accounted for",
                       strip(an.ret) is add(strip(vlen(items[0][3])), I1), show(an.ret), f.name)
    # tables of records are the records in order
    fs = [f for f in ctx.find("lib", r"^<std::vec::Vec<.*> as dld::serialize::Serialize<.*>>::serialize$")]
    if rep.need("serialiser of record tables", fs):
        for f in fs:
            an = ctx.run("lib", f)
            rep.an(an)
            me = an.args[0].a[0]
            ems = [e for e in an.events if e.kind == "emit"]
            ok = bool(ems)
            seen = set()
            for e in ems:
                v = strip(e.d[4])
                while v.op == "discr":
                    v = v.a[0]
                b, p = base_of(v)
                el = [x for x in subterms(v, "elem") if x.a[0] is me]
                ok = ok and b is me and p[:1] == ("[]",) and len(el) == 1 and el[0].a[2].op == "iv" and e.pc is I1 \
                    and len(e.loops) == 1
                seen |= set(e.loops)
            rep.ob("record table: every record once, in order", ok and len(seen) == 1, "", f.name)


def container_len(v):
    from flow import vlen
    x = v
    if x.op == "ld" and x.a[0].op == "elem":
        c, p, j = x.a[0].a
        return strip(vlen(mk("ld", c, p, 0)))
    if x.op == "at":
        return strip(vlen(x.a[0]))
    return mk("len", x)


def counters(t, me):
    if t.op == "ld" and t.a[0] is me and t.a[1] in (("nbuckets",), ("nchains",), ("bloom_size",)):
        n = {"nbuckets": "buckets", "nchains": "chains", "bloom_size": "bloom"}[t.a[1][0]]
        return mk("len", mk("ld", me, (n,), 0))
    return None
