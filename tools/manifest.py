#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl, the checks that exist and the reasons below"""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C31": "quantifies over the run-time behaviour of every linked program; no static argument over the linker's source reaches it (its ingredients are claimed as C01-C30)",
    "C32": "thread-local storage isn't implemented beyond recognising relocation types (no PT_TLS, no TLS symbol values), so there is no code whose correctness could be decided; see DESIGN.md",
    "C33": "parsing of objects, archives and libraries is goblin's, outside this repository; the slicing by offsets it reports depends on runtime values no static argument here bounds",
}
PENDING = "no check has been built yet"


def main():
    checks, na = [], []
    for l in open(os.path.join(V, "properties.jsonl")):
        pid = json.loads(l)["id"]
        p = os.path.join(V, "checks", pid.lower() + ".py")
        if not os.path.exists(p):
            na.append({"property": pid, "reason": NA.get(pid, PENDING)})
            continue
        consts = {}
        for n in ast.parse(open(p).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                consts[getattr(n.targets[0], "id", None)] = n.value.value
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py " + pid,
            "thorough_cmd": "python3 check.py " + pid,
            "technique": consts["TECHNIQUE"],
            "level": "other",
            "level_note": consts["NOTE"] + " Assumes the models of the standard library and of the crates used "
                          "(engine/builtins_model.py), that arguments of one root don't alias, and rustc's MIR.",
        })
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "all checks are static: they read the MIR of /repo's current tree and never run the linker"}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design({c["property"]: c for c in checks}, {x["property"]: x["reason"] for x in na})


def design(checks, na):
    out, seeded = [], []
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        pid = p["id"]
        out.append("### %s %s\n" % (pid, p["title"]))
        if pid in na:
            out.append("Not decided here: %s.\n" % na[pid].rstrip("."))
            continue
        m = ast.parse(open(os.path.join(V, "checks", pid.lower() + ".py")).read())
        n = {getattr(x.targets[0], "id", None): x.value.value for x in m.body if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant)}
        out.append("%s\n\n*Method:* %s.\n\n*Scope:* %s\n" % (ast.get_docstring(m), n["TECHNIQUE"], n["NOTE"]))
    caught = json.load(open(os.path.join(V, "tools", "caught.json")))
    sd = os.path.join(V, "seeded")
    seeded.append("| change | property | what it breaks | caught by |\n|---|---|---|---|")
    for d in sorted(os.listdir(sd)):
        j = json.load(open(os.path.join(sd, d, "meta.json")))
        seeded.append("| %s | %s | %s | %s |" % (d, j["property"], " ".join(j["what_it_breaks"].split()), caught.get(d, "not run")))
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    for mark, t in (("generated", "\n".join(out)), ("seeded", "\n".join(seeded))):
        a = "<!-- %s -->" % mark
        e = "<!-- end%s -->" % ("" if mark == "generated" else " " + mark)
        i, j = s.index(a) + len(a), s.index(e)
        s = s[:i] + "\n\n" + t + "\n\n" + s[j:]
    open(p, "w").write(s)


main()
