"""What every check shares: getting the MIR of the current tree, running roots, reporting."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DLD_REPO", "/repo")
BUILD = os.environ.get("DLD_BUILD", os.path.join(VERIF, "build"))


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        out += [os.path.join(d, f) for f in sorted(fs)]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs", "rust-toolchain", "rust-toolchain.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


class BuildError(Exception):
    pass


def ensure_driver():
    src = os.path.join(VERIF, "tools/mirdump/mirdump.rs")
    exe = os.path.join(BUILD, "mirdump-" + digest([src]))
    if not os.path.exists(exe):
        r = sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", exe + ".tmp"])
        if r.returncode:
            raise BuildError("cannot build the MIR driver:\n" + r.stdout[-3000:])
        os.rename(exe + ".tmp", exe)
    return exe


def ensure_dump():
    """the directory with the MIR of the current working tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe = ensure_driver()
        srcs = sources()
        if not srcs:
            raise BuildError("no sources in " + REPO)
        key = hashlib.sha256((digest(srcs) + os.path.basename(exe) + REPO).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "mir-" + key)
        want = [os.path.join(out, f) for f in ("dld.lib.json", "dld.bin.json")]
        if all(os.path.exists(w) for w in want):
            return out
        for d in os.listdir(BUILD):
            if d.startswith("mir-") and d != "mir-" + key:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
        tmp = out + ".tmp"
        target = os.path.join(BUILD, "target")
        log = ""
        for attempt in (0, 1):
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            # cargo must compile the crate again, or the driver doesn't see it
            dbg = os.path.join(target, "debug")
            for sub in ("build/dld", "incremental"):
                shutil.rmtree(os.path.join(dbg, sub), ignore_errors=True)
            fp = os.path.join(dbg, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("dld-"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            if attempt:
                shutil.rmtree(target, ignore_errors=True)
            r = sh(["cargo", "+nightly", "check", "--offline", "--locked", "--lib", "--bins"],
                   env={"LD_LIBRARY_PATH": os.path.join(sysroot, "lib"), "RUSTC_WORKSPACE_WRAPPER": exe,
                        "MIRDUMP_OUT": tmp, "CARGO_TARGET_DIR": target, "CARGO_INCREMENTAL": "0",
                        "RUSTFLAGS": "-Zmir-opt-level=0 -Zalways-encode-mir"}, cwd=REPO)
            log = r.stdout
            if all(os.path.exists(os.path.join(tmp, os.path.basename(w))) for w in want):
                break
        else:
            raise BuildError("cannot compile the tree:\n" + log[-3000:])
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out


class Ctx(object):
    def __init__(self):
        import flow
        import builtins_model
        self.flow = flow
        self.dir = ensure_dump()
        self.progs = {}
        self.runs = {}

    def prog(self, crate):
        p = self.progs.get(crate)
        if p is None:
            p = self.progs[crate] = self.flow.Prog(os.path.join(self.dir, "dld.%s.json" % crate))
        return p

    def find(self, crate, pat):
        return self.prog(crate).find(pat)

    def root(self, crate, pat, names=()):
        """analyse the one function matching pat; None if there is none"""
        k = (crate, pat)
        if k in self.runs:
            return self.runs[k]
        from terms import mk
        fs = self.find(crate, pat)
        if len(fs) != 1:
            self.runs[k] = None
            return None
        r = self.run(crate, fs[0])
        self.runs[k] = r
        return r

    def run(self, crate, f, **kw):
        from terms import mk
        an = self.flow.An(self.prog(crate), **kw)
        an.fn = f
        args = []
        for i in range(1, f.argc + 1):
            s = mk("sym", "%s.a%d" % (f.name.split("::")[-1], i))
            if f.locals[i].startswith("&"):
                an.rty(s, f.locals[i])
                args.append(mk("ptr", s, ()))
            else:
                an.typed(s, f.locals[i])
                if f.locals[i] not in self.flow.BITS:
                    s.rty = f.locals[i]
                args.append(s)
        an.args = args
        r = an.run(f, args)
        an.ret = r[0] if r else None
        an.final = r[1] if r else None
        return an

    def compute(self):
        return self.root("lib", r"Writer(::)?<.*>::compute_sections$")

    def link(self):
        return self.root("lib", r"dld::Linker(<.*>)?::link$")

    def main(self):
        return self.root("bin", r"^main$|::main$")


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.viol = []
        self.notes = []
        self.analysed = {}
        self.samples = []
        self.rules = []

    def rule(self, text):
        self.rules.append(text)

    def ob(self, key, ok, detail="", where=""):
        """one obligation: key names the construct, without line numbers"""
        self.obs.append((key, bool(ok)))
        if len(self.samples) < 12 or not ok:
            self.samples.append({"obligation": key, "holds": bool(ok), "at": where})
        if not ok:
            self.viol.append((key, detail, where))
        return ok

    def need(self, key, ok, detail=""):
        """an anchor: without it nothing can be decided"""
        return self.ob("anchor: " + key, ok, detail or "not found in the current tree, so the property can't be shown")

    def an(self, an):
        if an is not None:
            self.analysed[an.fn.name] = {"functions": len(an.analysed), "events": len(an.events),
                                         "call_sites": an.calls}


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", l)
            if m:
                out.append(m.groups())
    return out


def main(pid):
    t0 = time.time()
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    rep = Report(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    doc = ""
    try:
        import importlib
        ctx = Ctx()
        mod = importlib.import_module(pid.lower())
        doc = (mod.__doc__ or "").strip()
        mod.run(ctx, rep)
    except BuildError as e:
        rep.ob("build", False, str(e))
    except RecursionError as e:
        rep.ob("analysis: recursion", False, repr(e))
    except Exception as e:
        import traceback
        rep.ob("analysis: %s" % type(e).__name__, False, traceback.format_exc())
    if not rep.obs:
        rep.ob("anchor: obligations", False, "no obligation was generated")
    kf = [(k, what) for p, k, what in known_findings() if p == pid]
    new = []
    for key, detail, where in rep.viol:
        m = [w for k, w in kf if k == key]
        if m:
            line = "KNOWN-FINDING: property=%s %s" % (pid, m[0])
            if line not in rep.notes:
                rep.notes.append(line)
                print(line)
        else:
            new.append((key, detail, where))
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    good = sum(1 for _, o in rep.obs if o)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": doc,
              "rules": rep.rules,
              "obligations": len(rep.obs), "discharged": good,
              "distinct_obligations": len(set(k for k, _ in rep.obs)),
              "analysed": rep.analysed,
              "samples": rep.samples[:60],
          },
          "assumptions": [
              "the models of the standard library and of goblin, byteorder, parking_lot in engine/builtins_model.py",
              "rustc's MIR of the crate is what is compiled",
              "integers are treated as unbounded where the code's own overflow checks stop the link",
          ],
          "wall_s": round(wall, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for key, detail, where in new:
                f.write("%s\n  at %s\n  %s\n" % (key, where or "-", detail))
        for key, detail, where in new[:8]:
            print("  %s%s: %s" % (key, " at " + where if where else "", detail[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("ok property=%s obligations=%d wall=%.1fs" % (pid, len(rep.obs), wall))
    return 0
