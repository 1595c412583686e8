"""The image as it is written: the file header, the program headers, the contents and the section headers, by their
place in the file rather than by the names the code gives them."""
from terms import *
from query import *

EH = {0: "e_ident", 16: "e_type", 18: "e_machine", 20: "e_version", 24: "e_entry", 32: "e_phoff", 40: "e_shoff",
      48: "e_flags", 52: "e_ehsize", 54: "e_phentsize", 56: "e_phnum", 58: "e_shentsize", 60: "e_shnum", 62: "e_shstrndx"}
PH = {0: "p_type", 4: "p_flags", 8: "p_offset", 16: "p_vaddr", 24: "p_paddr", 32: "p_filesz", 40: "p_memsz", 48: "p_align"}
SH = {0: "sh_name", 4: "sh_type", 8: "sh_flags", 16: "sh_addr", 24: "sh_offset", 32: "sh_size", 40: "sh_link",
      44: "sh_info", 48: "sh_addralign", 56: "sh_entsize"}


class Image(object):
    """.header {field: (value, event)}; .ph, .sh: (loop, {field: (value, event)}); .contents: the other writes"""

    def __init__(self, ctx):
        an = self.an = ctx.link()
        self.io = [e for e in an.events if e.kind == "emit" and e.io]
        self.header, self.ph, self.sh, self.contents = {}, None, None, []
        self.ok = self.split()

    def split(self):
        if not self.io:
            return False
        out = self.io[0].d[0]
        flat = [e for e in self.io if not e.loops]
        if any(e.full() is I0 for e in flat):
            flat = [e for e in flat if e.full() is not I0]
        self.header = fields(flat, EH, 64)
        loops = []
        for e in self.io:
            if e.loops and e.loops[-1] not in loops:
                loops.append(e.loops[-1])
        for l in loops:
            es = [e for e in self.io if e.loops and e.loops[-1] == l]
            p, s = fields(es, PH, 56), fields(es, SH, 64)
            if p is not None and self.ph is None:
                self.ph = (l, p)
            elif s is not None and self.sh is None:
                self.sh = (l, s)
            else:
                self.contents += es
        return self.header is not None and self.ph is not None and self.sh is not None and bool(self.contents)

    def whole(self, loop):
        """the names of the list of the writer a loop goes through, from its start to its end, or None"""
        d = domain(self.an, loop)
        w = d.whole()
        if d.early or d.rev or not w or w[0] != "each" or w[3] != 0:
            return None
        return base_of(strip(mk("ptr", w[1], tuple(w[2]))))[1]


def fields(es, layout, size):
    out, at = {}, 0
    for e in es:
        if e.d[2].op != "int":
            return None
        if at in layout:
            out[layout[at]] = (strip(e.d[4]), e)
        at += e.d[2].a[0]
    return out if at == size and len(out) == len(layout) else None


CHANGES = ("push", "insert", "vremove", "sort", "sorted", "retain", "keep", "drain", "pop", "swap", "reverse", "truncate",
           "clear", "dedup", "extend", "resize")


def list_changes(an, name):
    """events which change which elements a list of the writer has, or their order"""
    return [e for e in an.events if (e.kind in CHANGES and isinstance(e.d[1], tuple) and e.d[1][-1:] == (name,)) or
            (e.kind == "sort" and e.d[0].op == "slice" and tuple(e.d[0].a[1])[-1:] == (name,)) or
            (e.kind in ("store", "lstore") and isinstance(e.d[1], tuple) and base_of(mk("ptr", e.d[0], tuple(e.d[1])))[1][-1:] == (name,))]
