"""Front end: regenerate interface headers from the tree, run the extractor on
the requested translation units and index the result."""
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FCX_REPO", "/repo")
BUILD = os.environ.get("FCX_BUILD") or os.path.join(VERIF, ".build")
TOOL = os.path.join(BUILD, "fcx")
GEN = os.path.join(BUILD, "gen")
CACHE = os.path.join(BUILD, "ir")
STUBS = os.path.join(VERIF, "stubs")
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """The analysis cannot give an answer (exit code 2)."""


_hash_memo = {}


def fhash(path):
    h = _hash_memo.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_memo[path] = h
    return h


def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_tool():
    src = os.path.join(VERIF, "tool", "fcx.cc")
    stamp = TOOL + ".stamp"
    want = fhash(src)
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(LLVM, "lib", "libclang-cpp.so.18.1")
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-w",
           "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", TOOL + ".new",
           so, os.path.join(LLVM, "lib", "libLLVM-18.so")]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("extractor build failed: " + r.stderr[-2000:])
    os.replace(TOOL + ".new", TOOL)
    open(stamp, "w").write(want)


PROTO_SKIP = re.compile(r"ledger|pipeline_transform|tff_worker|kms|key_management|tff_config")
GOOGLE_PROTOS = ["google/api/annotations.proto", "google/api/http.proto", "google/api/client.proto",
                 "google/api/launch_stage.proto", "google/longrunning/operations.proto",
                 "google/rpc/code.proto", "google/rpc/status.proto", "google/api/field_behavior.proto",
                 "google/api/resource.proto"]


def _site_packages():
    for c in glob.glob("/opt/fcp/pyvenv/lib/python3*/site-packages"):
        if os.path.exists(os.path.join(c, "google/rpc/code.proto")):
            return c
    raise AnalysisError("google api protos not found")


def generate():
    """Interface headers (.pb.h, flatbuffers) from the tree's current schemas."""
    protos, fbs = [], []
    for d, _, files in os.walk(os.path.join(REPO, "fcp")):
        for f in files:
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".proto") and not PROTO_SKIP.search(p):
                protos.append(p)
            elif f.endswith(".fbs"):
                fbs.append(p)
    protos.sort()
    fbs.sort()
    stub = []
    for d, _, files in os.walk(os.path.join(STUBS, "proto")):
        for f in files:
            if f.endswith(".proto"):
                stub.append(os.path.relpath(os.path.join(d, f), os.path.join(STUBS, "proto")))
    stub.sort()
    h = hashlib.sha1(b"v3")
    for p in protos + fbs:
        h.update(p.encode() + fhash(os.path.join(REPO, p)).encode())
    for p in stub:
        h.update(p.encode() + fhash(os.path.join(STUBS, "proto", p)).encode())
    want = h.hexdigest()
    stamp = os.path.join(GEN, ".stamp")
    if os.path.exists(stamp) and open(stamp).read() == want:
        return
    if os.path.isdir(GEN):
        subprocess.run(["rm", "-rf", os.path.abspath(GEN)], check=True)
    os.makedirs(GEN)
    sp = _site_packages()
    r = subprocess.run(["protoc", "-I" + REPO, "-I" + os.path.join(STUBS, "proto"), "-I" + sp,
                        "-I/usr/include", "--cpp_out=" + GEN] + protos + stub + GOOGLE_PROTOS,
                       capture_output=True, text=True, cwd=REPO)
    if r.returncode != 0:
        raise AnalysisError("protoc failed: " + r.stderr[-2000:])
    for root, _, files in os.walk(GEN):
        for f in files:
            if f.endswith(".pb.cc"):
                os.unlink(os.path.join(root, f))
    for p in fbs:
        d = os.path.dirname(p)
        out = os.path.join(GEN, d)
        os.makedirs(out, exist_ok=True)
        r = subprocess.run(["flatc", "-c", "--reflect-types", "--gen-object-api", "--gen-generated",
                            "--reflect-names", "--bfbs-comments", "--keep-prefix", "-I", REPO,
                            "-o", out, p], capture_output=True, text=True, cwd=REPO)
        base = os.path.basename(p)[:-4]
        if r.returncode == 0 and base == "tracing_schema":
            with open(os.path.join(out, base + ".h"), "w") as f:
                f.write('#include "%s/%s_generated.h"\n' % (d, base))
    src = open("/usr/include/google/protobuf/message_lite.h").read()
    k = "  PROTOBUF_ATTRIBUTE_REINITIALIZES bool ParseFromString("
    src = src.replace(k, "  bool ParseFromCord(const absl::Cord& data);\n  bool SerializeToCord(absl::Cord* data) const;\n"
                         "  absl::Cord SerializeAsCord() const;\n" + k, 1)
    src = src.replace("#include <string>", "#include <string>\n#include \"absl/strings/cord.h\"", 1)
    os.makedirs(os.path.join(GEN, "google/protobuf"), exist_ok=True)
    open(os.path.join(GEN, "google/protobuf/message_lite.h"), "w").write(src)
    open(stamp, "w").write(want)


def clang_args(rel):
    a = ["-x", "c++", "-std=c++17", "-w", "-include", "verif_prelude.h",
         "-resource-dir", LLVM + "/lib/clang/18"]
    if not rel.startswith(("fcp/tracing/", "@inst/tracing")):
        a.append("-I" + os.path.join(STUBS, "tracing"))
    a += ["-I" + os.path.join(STUBS, "include"), "-I" + REPO, "-I" + GEN, "-I/usr/include/android",
          "-I/usr/lib/jvm/java-17-openjdk-amd64/include", "-I/usr/lib/jvm/java-17-openjdk-amd64/include/linux"]
    return a


def _extract(rel):
    out = os.path.join(CACHE, rel.replace("/", "__") + ".json")
    stamp = out + ".stamp"
    toolh = fhash(os.path.join(VERIF, "tool", "fcx.cc")) + " ".join(clang_args(rel))
    if os.path.exists(out) and os.path.exists(stamp):
        try:
            st = json.load(open(stamp))
            if st["tool"] == toolh and st["repo"] == REPO and all(fhash(p) == h for p, h in st["deps"]):
                return out, True
        except Exception:
            pass
    if os.path.exists(out):
        os.unlink(out)
    src = os.path.join(VERIF, rel[1:]) if rel.startswith("@") else os.path.join(REPO, rel)
    r = subprocess.run([TOOL, REPO + "/fcp/", out, src, "--"] + clang_args(rel),
                       capture_output=True, text=True)
    if not os.path.exists(out):
        raise AnalysisError("extraction of %s failed: %s" % (rel, r.stderr[-1500:]))
    try:
        d = json.load(open(out))
    except ValueError:
        raise AnalysisError("extraction of %s gave unreadable output: %s" % (rel, r.stderr[-1500:]))
    if d["errors"]:
        sys.stderr.write("note: %d front-end diagnostics in %s: %s\n" % (
            d["errors"], rel, " | ".join(l for l in r.stderr.splitlines() if "error:" in l)[:600]))
    deps = [p for p in d["deps"] if p.startswith(REPO + "/") or p.startswith(VERIF + "/")]
    json.dump({"tool": toolh, "repo": REPO, "deps": [[p, fhash(p)] for p in deps]}, open(stamp, "w"))
    return out, False


EXCLUDE = re.compile(r"_test\.cc$|_bench\.cc$|/testing/|test_helpers|test_values|^fcp/testing|_ops?\.cc$|/python/"
                     r"|attestation_records|test_tracing")


def all_units():
    out = []
    for d, _, files in os.walk(os.path.join(REPO, "fcp")):
        for f in files:
            p = os.path.relpath(os.path.join(d, f), REPO)
            if p.endswith(".cc") and not EXCLUDE.search(p):
                out.append(p)
    # explicit instantiations of the tree's templates, so that their bodies are seen with names resolved
    out += ["@inst/" + f for f in os.listdir(os.path.join(VERIF, "inst")) if f.endswith(".cc")]
    return sorted(out)


class Func:
    __slots__ = ("key", "name", "file", "line", "end", "ret", "params", "dep", "cls", "const", "static",
                 "virtual", "overrides", "kind", "req", "excl", "notsa", "inits", "body", "unit", "access", "lang", "ptypes")

    def __init__(self, d, unit):
        for k in self.__slots__:
            setattr(self, k, d.get(k))
        self.unit = unit
        self.lang = d.get("lang", "c++")
        self.overrides = self.overrides or []
        self.inits = self.inits or []
        self.req = self.req or []
        self.ptypes = None

    @property
    def short(self):
        return self.name.rsplit("::", 1)[-1]

    def rel(self):
        return os.path.relpath(self.file, REPO)

    def __repr__(self):
        return "<%s %s:%d>" % (self.name, self.rel(), self.line)


class DB:
    def __init__(self):
        self.funcs = {}          # key -> Func
        self.by_name = {}        # qualified name -> [Func]
        self.classes = {}        # name -> dict
        self.enums = {}
        self.globals = {}
        self.units = []
        self.errors = 0
        self.overriders = {}     # qualified method name -> [Func]

    def add_unit(self, d, rel):
        self.units.append(rel)
        self.errors += d["errors"]
        for f in d["funcs"]:
            if EXCLUDE.search(os.path.relpath(f["file"], REPO)):
                continue
            old = self.funcs.get(f["key"])
            if old is not None and (not old.dep or f["dep"]) and (old.file, old.line) != (f["file"], f["line"]):
                # distinct internal-linkage functions with one key
                f["key"] = f["key"] + "@" + f["file"]
                old = self.funcs.get(f["key"])
            if old is not None and (not old.dep or f["dep"]):
                continue
            fn = Func(f, rel)
            if old is not None:
                self.by_name[old.name].remove(old)
            self.funcs[fn.key] = fn
            self.by_name.setdefault(fn.name, []).append(fn)
        for c in d["classes"]:
            self.classes.setdefault(c["name"], c)
        self.enums.update(d["enums"])
        for k, v in d["globals"].items():
            self.globals.setdefault(k, v)

    def finish(self):
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.overrides:
                self.overriders.setdefault(o, []).append(f)
        self.fields = {}
        self.guards = {}
        for c in self.classes.values():
            for fl in c["fields"]:
                self.fields[c["name"] + "::" + fl[0]] = fl
                m = self.guard_of(c, fl[2])
                if m:
                    g = self.guards.setdefault(m, [])
                    if c["name"] + "::" + fl[0] not in g:
                        g.append(c["name"] + "::" + fl[0])

    def guard_of(self, c, text):
        """Qualified name of the mutex a guard annotation names."""
        m = re.match(r"&?(?:this->)?(\w+)(\(\))?$", text)
        if not m:
            return None
        if not m.group(2):
            return c["name"] + "::" + m.group(1)
        todo = [c["name"]]
        while todo:
            n = todo.pop(0)
            for f in self.named(n + "::" + m.group(1)):
                fl = re.findall(r'"fld", "([^"]+)"', json.dumps(f.body))
                if len(fl) == 1:
                    return fl[0]
            todo += self.classes.get(n, {}).get("bases", [])
        return None

    def named(self, name):
        return self.by_name.get(name, [])

    def find(self, regex):
        r = re.compile(regex)
        return [f for f in self.funcs.values() if r.search(f.name)]

    def one(self, name):
        l = self.by_name.get(name, [])
        if not l:
            raise AnalysisError("anchor vanished: function %s not found in analysed units" % name)
        return l[0]

    def in_files(self, regex):
        r = re.compile(regex)
        return sorted([f for f in self.funcs.values() if r.search(f.rel())], key=lambda f: (f.file, f.line))


def load(patterns, require=True):
    """Extract and index all units whose path matches one of the regexes."""
    lk = _lock()
    try:
        build_tool()
        generate()
        os.makedirs(CACHE, exist_ok=True)
        units = [u for u in all_units() if any(re.search(p, u) for p in patterns)]
        if not units and require:
            raise AnalysisError("no translation units match %s" % (patterns,))
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(_extract, units))
    finally:
        lk.close()
    db = DB()
    for u, (o, _) in zip(units, outs):
        db.add_unit(json.load(open(o)), u)
    db.finish()
    db.cached = sum(1 for o in outs if o[1])
    return db


if __name__ == "__main__":
    build_tool()
    generate()
    d = load([r"\.cc$"])
    print("units=%d functions=%d classes=%d front-end diagnostics=%d" % (len(d.units), len(d.funcs), len(d.classes), d.errors))
