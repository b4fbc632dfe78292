"""Check driver: obligations, violations, evidence and exit codes."""
import importlib
import json
import os
import re
import subprocess
import sys
import time
import traceback

from . import db as dbm
from . import engine as en
from . import terms as tm
from .db import AnalysisError, REPO, VERIF

EVID = os.environ.get("FCX_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, prop, db):
        self.prop = prop
        self.db = db
        self.obs = {}          # rule -> {site: status}
        self.viols = {}        # (rule, file, line) -> dict
        self.unknowns = {}
        self.needs = []
        self.notes = []
        self.funcs = set()
        self.stats = {}
        self.assumptions = []

    # -- reporting
    def ob(self, rule, file, line, what=""):
        self.obs.setdefault(rule, {}).setdefault((file, line), what)

    def viol(self, rule, file, line, msg, st=None, what=""):
        self.ob(rule, file, line, what)
        key = (rule, file, line)
        if key not in self.viols:
            self.viols[key] = {"rule": rule, "file": file, "line": line, "message": msg, "instance": what,
                               "path": render_trail(st) if st is not None else []}

    def unknown(self, rule, file, line, msg):
        self.ob(rule, file, line)
        self.unknowns.setdefault((rule, file, line), msg)

    def need(self, rule, n=1, why=""):
        """Rule must have matched at least n places, or the check has no answer."""
        self.needs.append((rule, n, why))

    def check(self, rule, file, line, cond, msg, st=None):
        if cond:
            self.ob(rule, file, line)
        else:
            self.viol(rule, file, line, msg, st)
        return cond

    # -- type-level facts
    def witness(self, name):
        """Compile witness/NAME.cc against the current headers.  A failed
        static assertion names the class, the rule and what is wrong."""
        src = os.path.join(VERIF, "witness", name + ".cc")
        text = open(src).read()
        r = subprocess.run(["clang++-18", "-fsyntax-only", "-ferror-limit=0"] + dbm.clang_args("fcp/witness") + [src], capture_output=True, text=True)
        failed = set(re.findall(r"static assertion failed[^\n]*?: ([\w:]+\|[\w-]+\|[^\n]*)", r.stderr))
        other = [l for l in r.stderr.splitlines() if " error: " in l and "static assertion failed" not in l]
        if other:
            self.notes.append("witness %s does not compile: %s" % (name, other[0][:200]))
        for m in re.findall(r'"([\w:]+)\|([\w-]+)\|([^"]*)"', text):
            c = self.db.classes.get(m[0])
            f, l = (os.path.relpath(c["file"], REPO), c["line"]) if c else (m[0], 0)
            hit = any(x.startswith("%s|%s|%s" % m) for x in failed)
            if other:
                self.unknown(m[1], f, l, "type-level witness does not compile")
            elif hit:
                self.viol(m[1], f, l, m[2])
            else:
                self.ob(m[1], f, l)

    # -- running the dataflow engine
    def run(self, rule, funcs, ts=None, **kw):
        rule.ctx = self
        for f in funcs:
            eng = en.Engine(self.db, rule)
            try:
                eng.run(f, ts=ts, **kw)
            except en.Budget:
                raise AnalysisError("analysis budget exceeded in %s" % f.name)
            self.funcs |= eng.analysed
            for k, v in eng.stats.items():
                self.stats[k] = self.stats.get(k, 0) + v


def render_trail(st):
    if hasattr(st, "render"):
        return st.render()
    out = []
    for t in st.trace()[-30:]:
        if len(t) == 5:
            f, ln, a, p, _ = t
            if a.op == "loop":
                out.append("%s:%s loop" % (f, ln))
            else:
                out.append("%s:%s %s%s" % (f, ln, "" if p else "not ", tm.show(a)[:160]))
    return out


class CheckRule(en.Rule):
    """Rule with a file scope limiting where callees are analysed in context."""
    scope = None           # regex over repo-relative file of the callee
    stops = ()             # callee names never inlined (regex list)
    max_depth = 6

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        self._scope = re.compile(self.scope) if self.scope else None
        self._stops = [re.compile(x) for x in self.stops]

    def stop(self, name, fn):
        if self._scope is not None and not self._scope.search(fn.rel()):
            return True
        return any(r.search(name) for r in self._stops)

    # reporting that respects fixpoint passes
    def ok(self, eng, rule, file, line, what=""):
        if not eng.muted:
            self.ctx.ob(rule, file, line, what)

    def bad(self, eng, rule, file, line, msg, st=None):
        if not eng.muted:
            self.ctx.viol(rule, file, line, msg, st)

    def dunno(self, eng, rule, file, line, msg):
        if not eng.muted:
            self.ctx.unknown(rule, file, line, msg)


# ---- fact queries ---------------------------------------------------------
def facts(st):
    for k, v in st.facts.items():
        yield k, v


def mentions(t, pred):
    return any(pred(x) for x in tm.subterms(t))


def flows(t, pred):
    return any(pred(x) for x in tm.closure(t))


def callnamed(*names):
    ns = set(names)

    def p(x):
        return x.op == "call" and (x.args[0] in ns or x.args[0].rsplit("::", 1)[-1] in ns)
    return p


def fieldnamed(*names):
    ns = set(names)
    return lambda x: x.op == "fld" and x.args[0].rsplit("::", 1)[-1] in ns


def short(t):
    return t.args[0].rsplit("::", 1)[-1] if t.op in ("call", "fld", "enum", "ctor", "new") else ""


# ---- main -------------------------------------------------------------------
def load_known():
    out = []
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                m = re.match(r"finding:\s+property=(\S+)\s+rule=(\S+)\s+at=(\S+)\s+(.*)$", l)
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, VERIF)
    reg = importlib.import_module("rules.registry").REGISTRY
    if prop not in reg:
        print("unknown property", prop)
        return 3
    spec = reg[prop]
    try:
        db = dbm.load(spec["units"]) if spec.get("units") else dbm.DB()
        if not spec.get("units"):
            db.finish()
        ctx = Ctx(prop, db)
        if spec.get("py"):
            from . import py
            ctx.py = py.PyDB(spec["py"]() if callable(spec["py"]) else spec["py"])
            db.units = list(db.units) + ctx.py.paths
        for fn in spec["run"]:
            fn(ctx)
        for rule, n, why in ctx.needs:
            got = len(ctx.obs.get(rule, {}))
            if got < n and not ctx.viols:
                raise AnalysisError("rule %s matched %d place(s), expected at least %d: anchor vanished? %s" % (rule, got, n, why))
    except AnalysisError as e:
        print("NO-ANSWER property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc(limit=-6)
        print("NO-ANSWER property=%s internal error" % prop)
        return 2
    known = [k for k in load_known() if k[0] == prop]
    viols, kf = [], []
    for v in ctx.viols.values():
        hit = None
        for k in known:
            if k[1] == v["rule"] and k[2] == v["file"] + "#" + v.get("instance", ""):
                hit = k
        (kf if hit else viols).append((v, hit))
    nob = sum(len(x) for x in ctx.obs.values())
    print("property %s: %d units, %d functions analysed, %d rules, %d obligations, %d undecided" % (
        prop, len(db.units), len(ctx.funcs), len(ctx.obs), nob, len(ctx.unknowns)))
    for r in sorted(ctx.obs):
        print("  rule %-40s instances=%d%s" % (r, len(ctx.obs[r]), "  VIOLATED" if any(v[0]["rule"] == r for v in viols) else ""))
    for (r, f, l), m in sorted(ctx.unknowns.items(), key=str):
        print("  undecided %s %s:%s %s" % (r, f, l, m))
    for v, hit in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[3]))
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source: every instance of each rule found in the analysed units was decided on all abstract paths; "
                           "numbers are counts of analysed constructs, not executions.",
            "units": db.units, "functions_analysed": len(ctx.funcs),
            "functions": sorted(ctx.funcs)[:200],
            "rules": {r: {"instances": len(s), "sites": ["%s:%s" % k for k in sorted(s, key=str)][:80]} for r, s in sorted(ctx.obs.items())},
            "obligations": nob, "undecided": len(ctx.unknowns),
            "undecided_sites": ["%s %s:%s %s" % (r, f, l, m) for (r, f, l), m in sorted(ctx.unknowns.items(), key=str)],
            "engine": ctx.stats, "front_end_diagnostics": db.errors, "notes": ctx.notes,
        },
        "assumptions": ctx.assumptions + ["library calls behave as documented; bodies outside the repository are opaque",
                                          "third-party headers are replaced by declaration stubs where not installed"],
        "wall_s": round(time.time() - t0, 2),
        "violations": [v for v, _ in viols],
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if viols:
        rp = os.path.join(EVID, prop + ".replay.txt")
        with open(rp, "w") as f:
            for v, _ in viols:
                f.write("rule %s\n%s:%s: %s\n" % (v["rule"], v["file"], v["line"], v["message"]))
                for p in v["path"]:
                    f.write("    via %s\n" % p)
        for v, _ in viols:
            print("%s:%s: [%s] %s" % (v["file"], v["line"], v["rule"], v["message"]))
            for p in v["path"][-8:]:
                print("      via %s" % p)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s (%.1fs)" % (prop, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
