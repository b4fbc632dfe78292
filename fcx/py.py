"""Path-partitioned must-fact dataflow over Python sources.

Every function is followed along all its branches and exception edges, with
callees of the analysed modules followed in context.  Values are structural
terms (nested tuples); branches leave facts about terms; loops are entered once
with everything they assign forgotten.  Nothing is executed and no solver is
used: a condition is decided only by constants and by facts seen on the path.

Terms
  ("c", value)                      literal
  ("g", dotted)                     module-level or library name
  ("p", name)                       parameter of the analysed function
  ("a", base, attr)                 attribute
  ("i", base, key)                  element
  ("call", name, recv, args, kw, n) result of a call that is not followed
  ("pure", name, args)              result of a pure builtin
  ("new", class, ((field, v)...), n) object constructed
  ("op", name, args...)             arithmetic, string building, containers
  ("elem", iterable, n)             element drawn by a loop or comprehension
  ("comp", kind, elt, iter, conds)  comprehension
  ("fn", qual, frame), ("part", f, args, kw)   callables
  ("hav", name, n)                  value no longer known
"""
import ast
import os

from .db import AnalysisError, REPO

MAXP = 6000
PURE = {"len", "str", "int", "bool", "isinstance", "min", "max", "sum", "sorted", "list", "tuple", "set", "dict", "frozenset", "type", "id", "repr", "bytes", "float", "zip",
        "enumerate", "range", "abs", "getattr", "hasattr", "callable", "dir", "any", "all", "map", "filter", "reversed", "iter", "hash"}
PUREM = {"items", "values", "keys", "groupdict", "format", "lower", "upper", "strip", "split", "startswith", "endswith", "encode", "decode", "join", "get", "copy", "HasField",
         "WhichOneof", "fullmatch", "match", "SerializeToString", "union", "difference", "intersection", "ListFields", "index", "count", "isdigit", "rstrip", "lstrip"}
BASES = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError",
         "UnicodeDecodeError": "UnicodeError", "TypeError": "Exception", "AttributeError": "Exception", "OSError": "Exception", "EOFError": "Exception",
         "gzip.BadGzipFile": "OSError", "zlib.error": "Exception", "FileNotFoundError": "OSError", "StopIteration": "Exception", "AssertionError": "Exception",
         "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "re.error": "Exception", "google.protobuf.message.DecodeError": "google.protobuf.message.Error",
         "google.protobuf.message.Error": "Exception", "Exception": "BaseException", "queue.Empty": "Exception", "asyncio.CancelledError": "BaseException", "IOError": "Exception"}


class Fn:
    def __init__(self, mod, cls, node, qual, parent=None):
        self.mod, self.cls, self.node, self.qual, self.parent = mod, cls, node, qual, parent
        self.name, self.line = node.name, node.lineno
        self.decos = [d for d in node.decorator_list]

    def rel(self):
        return self.mod.path

    def deco(self, name):
        for d in self.decos:
            t = d.func if isinstance(d, ast.Call) else d
            if dotted(t) and dotted(t).split(".")[-1] == name:
                return d
        return None

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class Cls:
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual = mod, node, qual
        self.methods = {}
        self.fields = {}       # declared fields: name -> (annotation, default)
        self.attrs = {}        # instance attributes: name -> type string
        self.bases = [dotted(b) for b in node.bases]
        self.dataclass = any("dataclass" in (dotted(d.func if isinstance(d, ast.Call) else d) or "") for d in node.decorator_list)


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.imports, self.globals, self.funcs, self.classes = {}, {}, {}, {}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


class PyDB:
    def __init__(self, paths):
        self.mods, self.funcs, self.classes, self.paths = {}, {}, {}, []
        for p in paths:
            full = os.path.join(REPO, p)
            try:
                src = open(full).read()
                tree = ast.parse(src)
            except (OSError, SyntaxError) as e:
                raise AnalysisError("cannot read %s: %s" % (p, e))
            m = Mod(p[:-3].replace("/", "."), p, tree)
            self.mods[m.name] = m
            self.paths.append(p)
            self.scan(m)
        for m in self.mods.values():
            for c in m.classes.values():
                self.attrs(c)

    def scan(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m.imports[a.asname or a.name] = (n.module or "") + "." + a.name
        for n in m.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.func(m, None, n, m.name + "." + n.name)
                m.funcs[n.name] = self.funcs[m.name + "." + n.name]
            elif isinstance(n, ast.ClassDef):
                self.cls(m, n, m.name + "." + n.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = n.value

    def func(self, m, cls, n, qual, parent=None):
        f = Fn(m, cls, n, qual, parent)
        self.funcs[qual] = f
        for x in ast.walk(n):
            if x is n:
                continue
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and not hasattr(x, "_fcx"):
                x._fcx = True
                self.func(m, cls, x, qual + "." + x.name, f)
            elif isinstance(x, ast.ClassDef) and not hasattr(x, "_fcx"):
                x._fcx = True
                self.cls(m, x, qual + "." + x.name, f)
        return f

    def cls(self, m, n, qual, parent=None):
        c = Cls(m, n, qual)
        self.classes[qual] = c
        if parent is None:
            m.classes[n.name] = c
        for x in n.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                x._fcx = True
                c.methods[x.name] = self.func(m, c, x, qual + "." + x.name, parent)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                c.fields[x.target.id] = (x.annotation, x.value)
                c.attrs[x.target.id] = self.ann(m, x.annotation)
            elif isinstance(x, ast.ClassDef):
                x._fcx = True
                self.cls(m, x, qual + "." + x.name, parent)

    def ann(self, m, a):
        """Annotation as (head, args): dotted resolved name and argument types."""
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, ast.Subscript):
            h = self.ann(m, a.value)
            xs = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            args = tuple(self.ann(m, x) for x in xs)
            if h and h[0].endswith("Optional"):
                return args[0]
            return (h[0], args) if h else None
        d = dotted(a)
        return (self.resolve(m, d), ()) if d else None

    def resolve(self, m, d):
        """Dotted name in module m as an absolute dotted name."""
        head, _, rest = d.partition(".")
        if head in m.imports:
            r = m.imports[head] + ("." + rest if rest else "")
        elif head in m.classes or head in m.funcs:
            r = m.name + "." + d
        elif head in m.globals:
            g = dotted(m.globals[head])
            if g and g.split(".")[0] != head:
                r = self.resolve(m, g) + ("." + rest if rest else "")
            else:
                r = m.name + "." + d
        else:
            r = d
        return r

    def attrs(self, c):
        for f in c.methods.values():
            if not f.node.args.args:
                continue
            self_ = f.node.args.args[0].arg
            ann = {a.arg: self.ann(c.mod, a.annotation) for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
            for n in ast.walk(f.node):
                t = v = an = None
                if isinstance(n, ast.AnnAssign):
                    t, v, an = n.target, n.value, n.annotation
                elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                    t, v = n.targets[0], n.value
                if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self_):
                    continue
                ty = self.ann(c.mod, an) if an is not None else None
                if ty is None and isinstance(v, ast.Name):
                    ty = ann.get(v.id)
                if ty is None and isinstance(v, ast.Call) and dotted(v.func):
                    ty = (self.resolve(c.mod, dotted(v.func)), ())
                if ty is None and isinstance(v, (ast.Dict, ast.List, ast.Set)):
                    ty = (type(v).__name__.lower(), ())
                if ty is not None:
                    c.attrs.setdefault(t.attr, ty)

    def method(self, cls, name):
        c = self.classes.get(cls)
        while c is not None:
            if name in c.methods:
                return c.methods[name]
            nxt = None
            for b in c.bases:
                if b:
                    nxt = self.classes.get(self.resolve(c.mod, b)) or self.classes.get(c.mod.name + "." + b)
                if nxt:
                    break
            c = nxt
        return None


class St:
    __slots__ = ("env", "heap", "facts", "ts", "locks", "trail", "cnt", "pend")

    def __init__(self):
        self.env, self.heap, self.facts, self.ts, self.locks, self.trail, self.cnt, self.pend = {}, {}, {}, {}, (), None, {}, None

    def fork(self):
        s = St.__new__(St)
        s.env, s.heap, s.facts, s.ts, s.cnt = dict(self.env), dict(self.heap), dict(self.facts), dict(self.ts), dict(self.cnt)
        s.locks, s.trail, s.pend = self.locks, self.trail, self.pend
        return s

    def note(self, *x):
        self.trail = (x, self.trail)

    def render(self):
        out, t = [], self.trail
        while t and len(out) < 30:
            x = t[0]
            if x[0] == "if":
                out.append("%s:%s %s%s" % (x[1], x[2], "" if x[4] else "not ", show(x[3])))
            else:
                out.append("%s:%s %s" % (x[1], x[2], " ".join(str(y) for y in (x[0],) + x[3:])))
            t = t[1]
        return out[::-1]


class Frame:
    def __init__(self, fid, fn, parent, yieldcb=None):
        self.fid, self.fn, self.parent, self.yieldcb = fid, fn, parent, yieldcb


class Call:
    def __init__(self, name, recv, args, kw, node, fr, rtype=None, target=None):
        self.name, self.recv, self.args, self.kw, self.node, self.fr, self.rtype, self.target = name, recv, args, kw, node, fr, rtype, target
        self.line, self.file = node.lineno, fr.fn.rel()
        self.short = name.rsplit(".", 1)[-1]

    def arg(self, i, key=None):
        for k, v in self.kw:
            if k == key:
                return v
        return self.args[i] if i is not None and i < len(self.args) else None


class Rule:
    """Hooks; each may look at and change st.ts."""
    def call(self, e, st, c): pass                # before a call that is or is not followed
    def after(self, e, st, c, v): pass            # value of a call that is not followed, or of a followed one
    def write(self, e, st, place, v, line, fr): pass
    def read(self, e, st, place, line, fr): pass  # attribute or element load
    def delete(self, e, st, place, line, fr): pass
    def branch(self, e, st, atom, pol, line, fr): pass
    def iter(self, e, st, node, elem, fr): pass   # start of loop body
    def iterend(self, e, st, node, elem, fr, kind): pass
    def lock(self, e, st, lk, line, fr): pass
    def exit(self, e, st, kind, v, line, fn): pass  # root function ends: "return" or "raise"
    def raises(self, e, st, c): return None       # exception names a call may raise; None = default
    def follow(self, e, st, c, f): return True


MUTATORS = {"append", "appendleft", "extend", "insert", "add", "update", "pop", "popleft", "popitem", "remove", "discard", "clear", "setdefault",
            "sort", "reverse", "difference_update", "intersection_update", "symmetric_difference_update"}


def isliteral(t):
    """Value of a container built here."""
    return t[0] in ("list", "set", "dict", "comp") or t[0] == "pure" and t[1] in ("set", "list", "dict", "sorted")


class Eng:
    def __init__(self, db, rule, depth=8):
        self.db, self.rule, self.depth = db, rule, depth
        self.analysed, self.steps, self.fidn = set(), 0, 0
        self.stack = []

    # ---------------------------------------------------------------- types
    def typeof(self, t, st=None):
        if t is None:
            return None
        op = t[0]
        if op == "p":
            return t[2] if len(t) > 2 else None
        if op == "new":
            return (t[1], ())
        if op == "a":
            b = self.typeof(t[1])
            if b and b[0] in self.db.classes:
                c = self.db.classes[b[0]]
                if t[2] in c.attrs:
                    return c.attrs[t[2]]
            return None
        if op in ("i", "elem", "popped"):
            b = self.typeof(t[1])
            if op == "elem" and t[1][0] == "call" and t[1][1] == ".values":
                b = self.typeof(t[1][2])
            if b and b[1]:
                return b[1][-1]
            return None
        if op == "call":
            if t[1] in (".get",):
                b = self.typeof(t[2])
                return b[1][-1] if b and b[1] else None
            f = self.db.funcs.get(t[1])
            if f is not None:
                return self.db.ann(f.mod, f.node.returns)
            if t[1][:1] != ".":
                return (t[1], ())
        if op == "pure" and t[1] in ("list", "tuple", "sorted", "reversed", "set") and t[2]:
            return self.typeof(t[2][0])
        return None

    def islock(self, t):
        ty = self.typeof(t)
        return bool(ty) and ty[0] in ("threading.Lock", "threading.RLock", "threading.Condition")

    # ---------------------------------------------------------------- running
    def run(self, fn, init=None, ts=None):
        st = St()
        if ts:
            st.ts.update(ts)
        fr = Frame("0", fn, None)
        self.bindparams(st, fr)
        self.stack.append(fn.qual)
        self.analysed.add(fn.qual)
        outs = self.block(fn.node.body, st, fr)
        self.stack.pop()
        for kind, s, v, line in outs:
            if kind in ("next", "break", "continue"):
                kind, v = "return", ("c", None)
            self.rule.exit(self, s, kind, v, line, fn)
        return outs

    def bindparams(self, st, fr):
        fn = fr.fn
        a = fn.node.args
        allp = a.posonlyargs + a.args + a.kwonlyargs
        for i, x in enumerate(allp):
            ty = self.db.ann(fn.mod, x.annotation)
            if i == 0 and fn.cls is not None and fn.node in fn.cls.node.body and not fn.deco("staticmethod"):
                ty = (fn.cls.qual, ())
            st.env[(fr.fid, x.arg)] = ("p", x.arg, ty) if ty else ("p", x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                st.env[(fr.fid, x.arg)] = ("p", x.arg)
        # enclosing functions' variables are unknown when a nested function is the root
        p, q = fn.parent, fr
        while p is not None:
            q.parent = Frame("p" + p.qual, p, None)
            self.frames = getattr(self, "frames", {})
            self.frames[q.parent.fid] = q.parent
            for g in self.db.funcs.values():
                if g.parent is p:
                    st.env[(q.parent.fid, g.name)] = ("fn", g.qual, q.parent.fid)
            for nm in names_bound(p.node):
                st.env.setdefault((q.parent.fid, nm), ("p", nm))
            for x in p.node.args.posonlyargs + p.node.args.args + p.node.args.kwonlyargs:
                ty = self.db.ann(p.mod, x.annotation)
                if p.cls is not None and p.node.args.args and x is p.node.args.args[0]:
                    ty = (p.cls.qual, ())
                st.env[(q.parent.fid, x.arg)] = ("p", x.arg, ty) if ty else ("p", x.arg)
            q, p = q.parent, p.parent

    # ---------------------------------------------------------------- statements
    def block(self, body, st, fr):
        cur = [st]
        out = []
        for s in body:
            nxt = []
            for x in cur:
                for o in self.stmt(s, x, fr):
                    (nxt if o[0] == "next" else out).append(o[1] if o[0] == "next" else o)
            cur = self.dedupe(nxt)
            if len(cur) > MAXP:
                raise AnalysisError("too many paths in %s" % fr.fn.qual)
            if not cur:
                break
        return [("next", x, None, 0) for x in cur] + out

    def dedupe(self, sts):
        seen, out = set(), []
        for s in sts:
            try:
                k = (frozenset(s.env.items()), frozenset(s.heap.items()), frozenset(s.facts.items()), repr(sorted(s.ts.items(), key=str)), s.locks)
            except TypeError:
                out.append(s)
                continue
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisError("analysis budget exceeded in %s" % fr.fn.qual)
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [("next", st, None, 0)]
        return m(n, st, fr)

    def vals(self, e, st, fr, k):
        """Evaluate e; k(st, v) gives outcomes for normal values."""
        out = []
        for o in self.ev(e, st, fr):
            if o[0] == "v":
                out += k(o[1], o[2])
            else:
                out.append(o)
        return out

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [("next", st, None, 0)]
        return self.vals(n.value, st, fr, lambda s, v: [("next", s, None, 0)])

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [("return", st, ("c", None), n.lineno)]
        return self.vals(n.value, st, fr, lambda s, v: [("return", s, v, n.lineno)])

    def s_Assign(self, n, st, fr):
        def k(s, v):
            outs = [("next", s, None, 0)]
            for t in n.targets:
                nx = []
                for o in outs:
                    nx += self.assign(t, o[1], fr, v, n.lineno) if o[0] == "next" else [o]
                outs = nx
            return outs
        return self.vals(n.value, st, fr, k)

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [("next", st, None, 0)]
        return self.vals(n.value, st, fr, lambda s, v: self.assign(n.target, s, fr, v, n.lineno))

    def s_AugAssign(self, n, st, fr):
        load = ast.copy_location(as_load(n.target), n)

        def k(s, old):
            def k2(s2, v):
                nv = ("op", type(n.op).__name__, old, v)
                return self.assign(n.target, s2, fr, nv, n.lineno)
            return self.vals(n.value, s, fr, k2)
        return self.vals(load, st, fr, k)

    def assign(self, t, st, fr, v, line):
        if isinstance(t, ast.Name):
            f = self.frame_of(t.id, fr, st)
            st.env[(f, t.id)] = v
            self.rule.write(self, st, ("v", f, t.id), v, line, fr)
            return [("next", st, None, 0)]
        if isinstance(t, ast.Attribute):
            def k(s, b):
                p = ("a", b, t.attr)
                s.heap[p] = v
                self.forget(s, p)
                self.rule.write(self, s, p, v, line, fr)
                return [("next", s, None, 0)]
            return self.vals(t.value, st, fr, k)
        if isinstance(t, ast.Subscript):
            def k(s, b):
                def k2(s2, key):
                    p = ("i", b, key)
                    if isliteral(b):
                        self.mutated(s2, b, None, key, v)
                    else:
                        s2.heap[p] = v
                        s2.facts[("in", key, b)] = True
                    self.rule.write(self, s2, p, v, line, fr)
                    return [("next", s2, None, 0)]
                return self.vals(t.slice, s, fr, k2)
            return self.vals(t.value, st, fr, k)
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = [st]
            for i, x in enumerate(t.elts):
                if v[0] in ("tuple", "list") and len(v) - 1 == len(t.elts):
                    xv = v[1 + i]
                else:
                    xv = ("i", v, ("c", i))
                outs = [o[1] for s in outs for o in self.assign(x.value if isinstance(x, ast.Starred) else x, s, fr, xv, line) if o[0] == "next"]
            return [("next", s, None, 0) for s in outs]
        return [("next", st, None, 0)]

    def mutated(self, st, old, c, key=None, v=None):
        """A local container is changed in place."""
        if c is not None and old[0] in ("list", "set") and c.short in ("append", "add") and len(c.args) == 1:
            new = old + (c.args[0],)
        elif c is None and old[0] == "dict" and key[0] == "c":
            new = ("dict", tuple(x for x in old[1] if x[0] != key) + ((key, v),))
        else:
            new = ("hav", "changed", self.bump(st, "changed"))
        for k in [k for k, x in st.env.items() if x == old]:
            st.env[k] = new
        for k in [k for k, x in st.heap.items() if x == old]:
            st.heap[k] = new

    def forget(self, st, p):
        """Facts about a place that was just written no longer hold."""
        for a in [a for a in st.facts if mentions(a, p)]:
            del st.facts[a]

    def frame_of(self, name, fr, st):
        nl = fr.fn.node
        for x in ast.walk(nl):
            if isinstance(x, (ast.Nonlocal, ast.Global)) and name in x.names and fr.parent is not None:
                f = fr.parent
                while f is not None:
                    if (f.fid, name) in st.env:
                        return f.fid
                    f = f.parent
        return fr.fid

    def s_Delete(self, n, st, fr):
        outs = [("next", st, None, 0)]
        for t in n.targets:
            nx = []
            for o in outs:
                if o[0] != "next":
                    nx.append(o)
                    continue
                if isinstance(t, ast.Subscript):
                    def k(s, b):
                        def k2(s2, key):
                            r = self.mayraise(s2, ("in", key, b), "KeyError", n, fr)
                            for o2 in r:
                                if o2[0] == "next":
                                    self.rule.delete(self, o2[1], ("i", b, key), n.lineno, fr)
                                    o2[1].facts[("in", key, b)] = False
                                    o2[1].heap.pop(("i", b, key), None)
                            return r
                        return self.vals(t.slice, s, fr, k2)
                    nx += self.vals(t.value, o[1], fr, k)
                elif isinstance(t, ast.Attribute):
                    nx += self.vals(t.value, o[1], fr, lambda s, b: (self.rule.delete(self, s, ("a", b, t.attr), n.lineno, fr), [("next", s, None, 0)])[1])
                else:
                    nx.append(o)
            outs = nx
        return outs

    def mayraise(self, st, atom, exc, n, fr):
        """Continue if atom holds, raise exc otherwise."""
        v = self.decide(st, atom)
        out = []
        if v is not False:
            s = st.fork() if v is None else st
            if v is None:
                self.learn(s, atom, True, n.lineno, fr)
            out.append(("next", s, None, 0))
        if v is not True:
            s = st.fork()
            self.learn(s, atom, False, n.lineno, fr)
            out.append(("raise", s, ("exc", exc, (), n.lineno), n.lineno))
        return out

    def s_If(self, n, st, fr):
        out = []
        for o in self.cond(n.test, st, fr):
            if o[0] == "b":
                out += self.block(n.body if o[2] else n.orelse, o[1], fr) if (n.body if o[2] else n.orelse) else [("next", o[1], None, 0)]
            else:
                out.append(o)
        return out

    def s_Assert(self, n, st, fr):
        out = []
        for o in self.cond(n.test, st, fr):
            if o[0] != "b":
                out.append(o)
            elif o[2]:
                out.append(("next", o[1], None, 0))
            else:
                out.append(("raise", o[1], ("exc", "AssertionError", (), n.lineno), n.lineno))
        return out

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            cur = st.env.get((fr.fid, "#exc")) or ("exc", "*", (), n.lineno)
            return [("raise", st, cur, n.lineno)]

        def k(s, v):
            return [("raise", s, self.asexc(v, n.lineno), n.lineno)]
        return self.vals(n.exc, st, fr, k)

    def asexc(self, v, line):
        if v[0] == "exc":
            return v
        if v[0] == "new":
            return ("exc", v[1], v[2], line)
        if v[0] == "call":
            return ("exc", v[1], tuple(enumerate(v[3])) + tuple(v[4]), line)
        if v[0] in ("g", "cls"):
            return ("exc", v[1], (), line)
        return ("exc", "*", (v,), line)

    def assigned(self, body):
        names, attrs, muts = set(), set(), set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                    muts.add(x.value.id)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name):
                    muts.add(x.func.value.id)
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    attrs.add(x.attr)
        return names, attrs, muts

    def havoc(self, st, fr, body, tag):
        names, attrs, muts = self.assigned(body)
        for nm in names | muts:
            k = (self.frame_of(nm, fr, st), nm)
            if k in st.env and (nm in names or isliteral(st.env[k])):
                st.env[k] = ("hav", nm, tag)
        for p in [p for p in st.heap if p[0] == "a" and p[2] in attrs]:
            del st.heap[p]

    def s_For(self, n, st, fr):
        def k(s, it):
            return self.loop(n, s, fr, it)
        return self.vals(n.iter, st, fr, k)
    s_AsyncFor = s_For

    def loop(self, n, st, fr, it):
        tag = (n.lineno, self.bump(st, ("loop", n.lineno)))
        pre = st.fork()
        self.havoc(pre, fr, n.body, tag)
        out = []
        done = [pre]
        s = pre.fork()
        s.note("loop", fr.fn.rel(), n.lineno)
        conds = [s]
        el = None
        if it is not None:
            el = ("elem", it, tag)
            a = self.assign(n.target, s, fr, el, n.lineno)
            conds = [o[1] for o in a]
            for c in conds:
                self.learn(c, ("truth", it), True, n.lineno, fr)
        else:
            conds = []
            done = []
            for o in self.cond(n.test, s, fr):
                if o[0] != "b":
                    out.append(o)
                elif o[2]:
                    conds.append(o[1])
                else:
                    done.append(o[1])
        for c in conds:
            self.rule.iter(self, c, n, el, fr)
            for o in self.block(n.body, c, fr):
                if o[0] in ("next", "continue"):
                    self.rule.iterend(self, o[1], n, el, fr, o[0])
                    self.havoc(o[1], fr, n.body, tag + (1,))
                    if it is None:
                        for o2 in self.cond(n.test, o[1], fr):
                            if o2[0] == "b" and not o2[2]:
                                done.append(o2[1])
                            elif o2[0] != "b":
                                out.append(o2)
                    else:
                        done.append(o[1])
                elif o[0] == "break":
                    self.rule.iterend(self, o[1], n, el, fr, "break")
                    out.append(("next", o[1], None, 0))
                else:
                    self.rule.iterend(self, o[1], n, el, fr, o[0])
                    out.append(o)
        for d in self.dedupe(done):
            out += self.block(n.orelse, d, fr) if n.orelse else [("next", d, None, 0)]
        return out

    def s_While(self, n, st, fr):
        return self.loop(n, st, fr, None)

    def s_Break(self, n, st, fr):
        return [("break", st, None, n.lineno)]

    def s_Continue(self, n, st, fr):
        return [("continue", st, None, n.lineno)]

    def s_FunctionDef(self, n, st, fr):
        q = fr.fn.qual + "." + n.name
        st.env[(fr.fid, n.name)] = ("fn", q, fr.fid)
        self.frames = getattr(self, "frames", {})
        self.frames[fr.fid] = fr
        return [("next", st, None, 0)]
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        st.env[(fr.fid, n.name)] = ("cls", fr.fn.qual + "." + n.name)
        return [("next", st, None, 0)]

    def s_Try(self, n, st, fr):
        outs = self.block(n.body, st, fr)
        res = []
        for o in outs:
            if o[0] == "raise":
                res += self.handle(n.handlers, o, fr)
            elif o[0] == "next" and n.orelse:
                res += self.block(n.orelse, o[1], fr)
            else:
                res.append(o)
        if n.finalbody:
            fin = []
            for o in res:
                for f in self.block(n.finalbody, o[1], fr):
                    fin.append((o[0], f[1], o[2], o[3]) if f[0] == "next" else f)
            res = fin
        return res

    def handle(self, handlers, o, fr):
        exc = o[2]
        res = []
        cur = o[1]
        for h in handlers:
            ts = [None] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
            m = False
            for t in ts:
                nm = "BaseException" if t is None else self.db.resolve(fr.fn.mod, dotted(t) or "?")
                r = self.catches(nm, exc[1])
                if r is True:
                    m = True
                    break
                if r is None:
                    m = None
            if m is False:
                continue
            s = cur.fork()
            e2 = exc
            if exc[1] == "*" and len(ts) == 1 and ts[0] is not None:
                e2 = ("exc", self.db.resolve(fr.fn.mod, dotted(ts[0]) or "?"), (("?", exc),), exc[3])
            if h.name:
                s.env[(fr.fid, h.name)] = e2
            s.env[(fr.fid, "#exc")] = e2
            s.note("except", fr.fn.rel(), h.lineno, e2[1])
            res += self.block(h.body, s, fr)
            if m is True:
                return res
        res.append(o)
        return res

    def catches(self, h, e):
        """Does a handler for class h catch exception class e?  None = unknown."""
        if h == "BaseException":
            return True
        if e == "*":
            return True if h == "Exception" else None
        x = e
        seen = 0
        while x and seen < 12:
            if x == h:
                return True
            c = self.db.classes.get(x)
            if c is not None:
                x = self.db.resolve(c.mod, c.bases[0]) if c.bases and c.bases[0] else None
            else:
                x = BASES.get(x)
                if x is None and seen == 0 and e != "BaseException":
                    return True if h == "Exception" else False
            seen += 1
        return False

    def s_With(self, n, st, fr):
        return self.withitems(list(n.items), n, st, fr)
    s_AsyncWith = s_With

    def withitems(self, items, n, st, fr):
        if not items:
            return self.block(n.body, st, fr)
        it = items[0]
        ce = it.context_expr
        # a context manager written as a generator of the analysed modules
        if isinstance(ce, ast.Call):
            def kc(s, c):
                f = self.target(c)
                if f is not None and f.deco("contextmanager") and self.ok_follow(s, c, f):
                    def body(s2, v):
                        outs = self.assign(it.optional_vars, s2, fr, v, n.lineno) if it.optional_vars is not None else [("next", s2, None, 0)]
                        r = []
                        for o in outs:
                            r += self.withitems(items[1:], n, o[1], fr) if o[0] == "next" else [o]
                        return r
                    self.rule.call(self, s, c)
                    return self.inline(f, c, s, body)
                return self.with_value(self.apply(c, s), it, items, n, fr)
            return self.callparts(ce, st, fr, kc)
        return self.with_value(self.ev(ce, st, fr), it, items, n, fr)

    def with_value(self, outs, it, items, n, fr):
        res = []
        for o in outs:
            if o[0] != "v":
                res.append(o)
                continue
            s, v = o[1], o[2]
            if self.islock(v):
                if v not in s.locks:
                    self.stale(s, v)
                self.rule.lock(self, s, v, n.lineno, fr)
                s.locks = s.locks + (v,)
                for b in self.withitems(items[1:], n, s, fr):
                    lk = list(b[1].locks)
                    for i in range(len(lk) - 1, -1, -1):
                        if lk[i] == v:
                            del lk[i]
                            break
                    b[1].locks = tuple(lk)
                    res.append(b)
                continue
            bound = v
            outs2 = self.assign(it.optional_vars, s, fr, bound, n.lineno) if it.optional_vars is not None else [("next", s, None, 0)]
            for o2 in outs2:
                if o2[0] != "next":
                    res.append(o2)
                    continue
                key = ("ctx", v)
                for b in self.withitems(items[1:], n, o2[1], fr):
                    res += self.leave(v, b, n, fr)
        return res

    def stale(self, st, lk):
        """What is in the tables a lock protects may have changed since it was last held."""
        if lk[0] != "a":
            return
        own = lambda t: t[0] == "a" and t[1] == lk[1] and t != lk
        for a in [a for a in st.facts if a[0] == "in" and own(a[2]) or a[0] == "truth" and own(a[1])]:
            del st.facts[a]
        for p in [p for p in st.heap if p[0] == "i" and own(p[1])]:
            del st.heap[p]

    def leave(self, v, b, n, fr):
        """Leaving a with block through outcome b."""
        if v[0] == "call" and v[1] == "contextlib.suppress" and b[0] == "raise":
            rs = [self.catches(x[1], b[2][1]) for x in v[3] if x[0] in ("g", "cls")]
            if True in rs:
                return [("next", b[1], None, 0)]
            if None in rs:
                return [("next", b[1].fork(), None, 0), b]
            return [b]
        if v[0] == "call" and v[1] == "contextlib.ExitStack":
            cbs = b[1].heap.get(("stack", v), ())
            outs = [b]
            for f, args, node in reversed(cbs):
                nx = []
                for o in outs:
                    c = self.mkcall(f, args, (), node, fr)
                    for r in self.apply(c, o[1].fork()):
                        nx.append((o[0], r[1], o[2], o[3]) if r[0] == "v" else r)
                outs = nx
            return outs
        self.left(b[1], v, n, fr)
        return [b]

    def left(self, st, v, n, fr):
        h = getattr(self.rule, "left", None)
        if h:
            h(self, st, v, n.lineno, fr)

    # ---------------------------------------------------------------- conditions
    def cond(self, e, st, fr):
        if isinstance(e, ast.BoolOp):
            outs = [("b", st, isinstance(e.op, ast.And))]
            res = []
            for x in e.values:
                nx = []
                for o in outs:
                    for r in self.cond(x, o[1], fr):
                        if r[0] != "b":
                            res.append(r)
                        elif r[2] == isinstance(e.op, ast.And):
                            nx.append(r)
                        else:
                            res.append(r)
                outs = nx
            return res + outs
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(o[0], o[1], not o[2]) + tuple(o[3:]) if o[0] == "b" else o for o in self.cond(e.operand, st, fr)]
        out = []
        for o in self.ev(e, st, fr):
            if o[0] != "v":
                out.append(o)
                continue
            a, pol = self.atom(o[2])
            out += [("b", s, b == pol) for s, b in self.split(o[1], a, e.lineno, fr)]
        return out

    def split(self, st, a, line, fr):
        v = self.decide(st, a)
        if v is not None:
            return [(st, v)]
        t, f = st.fork(), st.fork()
        self.learn(t, a, True, line, fr)
        self.learn(f, a, False, line, fr)
        return [(t, True), (f, False)]

    def learn(self, st, a, b, line, fr):
        st.facts[a] = b
        st.note("if", fr.fn.rel(), line, a, b)
        self.rule.branch(self, st, a, b, line, fr)

    def atom(self, v):
        """(atom, polarity) of the truth of a term."""
        if v[0] == "op" and v[1] in ("==", "<", "in", "is"):
            return (v[1], v[2], v[3]), True
        if v[0] == "op" and v[1] == "not":
            a, p = self.atom(v[2])
            return a, not p
        return ("truth", v), True

    def decide(self, st, a):
        if a in st.facts:
            return st.facts[a]
        k = a[0]
        if k == "truth":
            v = a[1]
            if v[0] == "c":
                return bool(v[1])
            if v[0] in ("list", "tuple", "dict", "set"):
                return len(v) > 1 if v[0] != "dict" else bool(v[1])
            if v[0] in ("new", "fn", "cls", "exc"):
                return True
            if st.facts.get(("is", v, ("c", None))) is True:
                return False
            if v[0] == "isinst":
                return self.isinst(v[1], v[2])
        if k in ("==", "is"):
            x, y = a[1], a[2]
            if x == y and x[0] not in ("hav",):
                return True
            if (k, y, x) in st.facts:
                return st.facts[(k, y, x)]
            if x[0] == "c" and y[0] == "c":
                return x[1] == y[1]
            if x[0] == "g" and y[0] == "g" and x[1].rsplit(".", 1)[0] == y[1].rsplit(".", 1)[0] and self.isenum(x[1]):
                return False
            for u, w in ((x, y), (y, x)):
                if w[0] in ("g", "c"):
                    for f, b in st.facts.items():
                        if b and f[0] == k and f[1] == u and f[2] != w and f[2][0] == w[0] and (w[0] == "c" or self.isenum(w[1])):
                            return False
                if w == ("c", None):
                    if u[0] in ("new", "exc", "list", "dict", "tuple", "set", "comp", "fn", "cls"):
                        return False
                    if st.facts.get(("truth", u)) is True:
                        return False
        if k == "<":
            x, y = a[1], a[2]
            if x == y:
                return False
            if x[0] == "c" and y[0] == "c":
                try:
                    return x[1] < y[1]
                except TypeError:
                    return None
            if st.facts.get(("<", y, x)) is True:
                return False
        return None

    def isenum(self, d):
        c = self.db.classes.get(d.rsplit(".", 1)[0])
        if c is not None:
            return True
        return d.rsplit(".", 1)[-1].isupper()

    def isinst(self, x, t):
        if t[0] == "tuple":
            rs = [self.isinst(x, y) for y in t[1:]]
            return True if True in rs else (None if None in rs else False)
        if x[0] == "exc" and t[0] in ("g", "cls"):
            return self.catches(t[1], x[1])
        if x[0] == "new" and t[0] in ("g", "cls") and x[1] == t[1]:
            return True
        return None

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [("v", st, ("hav", type(e).__name__, (e.lineno, self.bump(st, ("x", e.lineno)))))]
        return m(e, st, fr)

    def seq(self, es, st, fr, k):
        """Evaluate expressions in order; k(st, [values])."""
        outs = [(st, [])]
        res = []
        for e in es:
            nx = []
            for s, vs in outs:
                for o in self.ev(e, s, fr):
                    if o[0] == "v":
                        nx.append((o[1], vs + [o[2]]))
                    else:
                        res.append(o)
            outs = nx
        for s, vs in outs:
            res += k(s, vs)
        return res

    def bump(self, st, k):
        st.cnt[k] = st.cnt.get(k, 0) + 1
        return st.cnt[k]

    def e_Constant(self, e, st, fr):
        return [("v", st, ("c", e.value))]

    def e_Name(self, e, st, fr):
        return [("v", st, self.name(e.id, st, fr))]

    def name(self, nm, st, fr):
        f = fr
        while f is not None:
            if (f.fid, nm) in st.env:
                return st.env[(f.fid, nm)]
            f = f.parent
        m = fr.fn.mod
        if nm in m.funcs:
            return ("fn", m.funcs[nm].qual, None)
        if nm in m.classes:
            return ("cls", m.classes[nm].qual)
        if nm in m.globals:
            g = m.globals[nm]
            if isinstance(g, ast.Constant):
                return ("c", g.value)
            d = self.db.resolve(m, nm)
            return self.glob(d)
        return self.glob(self.db.resolve(m, nm))

    def glob(self, d):
        if d in self.db.funcs:
            return ("fn", d, None)
        if d in self.db.classes:
            return ("cls", d)
        mm, _, nm = d.rpartition(".")
        m = self.db.mods.get(mm)
        if m is not None and isinstance(m.globals.get(nm), ast.Constant):
            return ("c", m.globals[nm].value)
        return ("g", d)

    def e_Attribute(self, e, st, fr):
        def k(s, b):
            return self.getattr(b, e.attr, s, fr, e)
        return self.vals(e.value, st, fr, k)

    def getattr(self, b, attr, st, fr, e):
        if b[0] in ("g", "cls"):
            return [("v", st, self.glob(b[1] + "." + attr))]
        p = ("a", b, attr)
        self.rule.read(self, st, p, e.lineno, fr)
        if p in st.heap:
            return [("v", st, st.heap[p])]
        if b[0] == "new":
            for k, v in b[2]:
                if k == attr:
                    return [("v", st, v)]
            c = self.db.classes.get(b[1])
            if c is not None and c.dataclass and attr in c.fields:
                d = c.fields[attr][1]
                if isinstance(d, ast.Constant):
                    return [("v", st, ("c", d.value))]
                if d is not None and dotted(d):
                    return [("v", st, self.glob(self.db.resolve(c.mod, dotted(d))))]
        if b[0] == "exc":
            c = self.db.classes.get(b[1])
            for k, v in b[2]:
                if k == attr:
                    return [("v", st, v)]
            if c is not None and attr in c.fields:
                i = list(c.fields).index(attr)
                for k, v in b[2]:
                    if k == i:
                        return [("v", st, v)]
        ty = self.typeof(b)
        if ty and ty[0] in self.db.classes:
            f = self.db.method(ty[0], attr)
            if f is not None:
                if f.deco("property") or f.deco("cached_property"):
                    c = Call(f.qual, b, (), (), e, fr, ty, f)
                    c.prop = True
                    return self.apply(c, st)
                return [("v", st, ("bound", f.qual, b))]
        return [("v", st, p)]

    def e_Subscript(self, e, st, fr):
        def k(s, vs):
            b, key = vs
            p = ("i", b, key)
            self.rule.read(self, s, p, e.lineno, fr)
            if p in s.heap:
                return [("v", s, s.heap[p])]
            if b[0] in ("tuple", "list") and key[0] == "c" and isinstance(key[1], int) and -len(b) < key[1] < len(b) - 1:
                xs = b[1:]
                if -len(xs) <= key[1] < len(xs):
                    return [("v", s, xs[key[1]])]
            if b[0] == "dict":
                for kk, vv in b[1]:
                    if kk == key:
                        return [("v", s, vv)]
            ty = self.typeof(b)
            if ty and ty[0] in ("dict", "collections.OrderedDict"):
                out = []
                for o in self.mayraise(s, ("in", key, b), "KeyError", e, fr):
                    out.append(("v", o[1], p) if o[0] == "next" else o)
                return out
            return [("v", s, p)]
        return self.seq([e.value, e.slice], st, fr, k)

    def e_Slice(self, e, st, fr):
        xs = [x if x is not None else ast.copy_location(ast.Constant(None), e) for x in (e.lower, e.upper, e.step)]
        return self.seq(xs, st, fr, lambda s, v: [("v", s, ("op", "slice") + tuple(v))])

    def e_Index(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Tuple(self, e, st, fr):
        return self.seq([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr, lambda s, v: [("v", s, ("tuple",) + tuple(v))])

    def e_List(self, e, st, fr):
        def k(s, v):
            return [("v", s, ("list",) + tuple(v))]
        return self.seq([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr, k)

    def e_Set(self, e, st, fr):
        return self.seq(e.elts, st, fr, lambda s, v: [("v", s, ("set",) + tuple(v))])

    def e_Dict(self, e, st, fr):
        if any(k is None for k in e.keys):
            return self.seq(e.values, st, fr, lambda s, v: [("v", s, ("op", "dictmerge") + tuple(v))])
        n = len(e.keys)
        return self.seq(list(e.keys) + list(e.values), st, fr, lambda s, v: [("v", s, ("dict", tuple(zip(v[:n], v[n:]))))])

    def e_JoinedStr(self, e, st, fr):
        xs = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        return self.seq(xs, st, fr, lambda s, v: [("v", s, ("op", "str") + tuple(v))])

    def e_BinOp(self, e, st, fr):
        def k(s, v):
            if v[0][0] == "c" and v[1][0] == "c":
                try:
                    r = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b}[type(e.op).__name__](v[0][1], v[1][1])
                    return [("v", s, ("c", r))]
                except Exception:
                    pass
            if type(e.op).__name__ == "Add" and strlike(v[0], v[1]):
                return [("v", s, ("op", "str") + flat(v[0]) + flat(v[1]))]
            return [("v", s, ("op", type(e.op).__name__, v[0], v[1]))]
        return self.seq([e.left, e.right], st, fr, k)

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return [("v", o[1], ("c", o[2])) if o[0] == "b" else o for o in self.cond(e, st, fr)]
        return self.vals(e.operand, st, fr, lambda s, v: [("v", s, ("c", -v[1]) if v[0] == "c" and isinstance(e.op, ast.USub) else ("op", type(e.op).__name__, v))])

    def e_BoolOp(self, e, st, fr):
        out = []
        cur = [st]
        for i, x in enumerate(e.values):
            nx = []
            for s in cur:
                for o in self.ev(x, s, fr):
                    if o[0] != "v":
                        out.append(o)
                        continue
                    if i == len(e.values) - 1:
                        out.append(o)
                        continue
                    a, pol = self.atom(o[2])
                    for s2, b in self.split(o[1], a, e.lineno, fr):
                        t = b == pol
                        if t == isinstance(e.op, ast.And):
                            nx.append(s2)
                        else:
                            out.append(("v", s2, o[2] if o[2][0] != "op" else ("c", t)))
            cur = nx
        return out

    def e_Compare(self, e, st, fr):
        def one(op, x, y):
            o = type(op).__name__
            if o == "Eq":
                return ("op", "==", x, y)
            if o == "NotEq":
                return ("op", "not", ("op", "==", x, y))
            if o == "Lt":
                return ("op", "<", x, y)
            if o == "Gt":
                return ("op", "<", y, x)
            if o == "LtE":
                return ("op", "not", ("op", "<", y, x))
            if o == "GtE":
                return ("op", "not", ("op", "<", x, y))
            if o == "In":
                return ("op", "in", x, y)
            if o == "NotIn":
                return ("op", "not", ("op", "in", x, y))
            if o == "Is":
                return ("op", "is", x, y)
            return ("op", "not", ("op", "is", x, y))

        def k(s, v):
            if len(e.ops) == 1:
                return [("v", s, one(e.ops[0], v[0], v[1]))]
            out, cur = [], [s]
            for i, op in enumerate(e.ops):
                t = one(op, v[i], v[i + 1])
                if i == len(e.ops) - 1:
                    out += [("v", x, t) for x in cur]
                    break
                nx = []
                for x in cur:
                    a, pol = self.atom(t)
                    for s2, b in self.split(x, a, e.lineno, fr):
                        if b == pol:
                            nx.append(s2)
                        else:
                            out.append(("v", s2, ("c", False)))
                cur = nx
            return out
        return self.seq([e.left] + e.comparators, st, fr, k)

    def e_IfExp(self, e, st, fr):
        out = []
        for o in self.cond(e.test, st, fr):
            out += self.ev(e.body if o[2] else e.orelse, o[1], fr) if o[0] == "b" else [o]
        return out

    def e_NamedExpr(self, e, st, fr):
        return self.vals(e.value, st, fr, lambda s, v: [("v", o[1], v) for o in self.assign(e.target, s, fr, v, e.lineno)])

    def e_Lambda(self, e, st, fr):
        self.frames = getattr(self, "frames", {})
        self.frames[fr.fid] = fr
        self.lams = getattr(self, "lams", {})
        self.lams[id(e)] = e
        return [("v", st, ("lam", id(e), fr.fid))]

    def e_Await(self, e, st, fr):
        out = []
        for o in self.ev(e.value, st, fr):
            out.append(o)
            if o[0] == "v":
                h = getattr(self.rule, "awaits", None)
                if h:
                    h(self, o[1], o[2], e.lineno, fr)
                if self.rule_anyraise() and not getattr(o[1], "followed", False):
                    s = o[1].fork()
                    out.append(("raise", s, ("exc", "*", (), e.lineno), e.lineno))
        return out

    def rule_anyraise(self):
        return getattr(self.rule, "anyraise", False)

    def e_Yield(self, e, st, fr):
        def k(s, v):
            f = fr
            if f.yieldcb is None:
                h = getattr(self.rule, "yields", None)
                if h:
                    h(self, s, v, e.lineno, fr)
                out = [("v", s, ("c", None))]
                out.append(("raise", s.fork(), ("exc", "*", (), e.lineno), e.lineno))
                return out
            out = []
            for o in f.yieldcb(s, v):
                if o[0] == "next":
                    out.append(("v", o[1], ("c", None)))
                elif o[0] == "raise":
                    out.append(o)
                else:
                    o[1].pend = (o[0], o[2], o[3])
                    out.append(("v", o[1], ("c", None)))
            return out
        if e.value is None:
            return k(st, ("c", None))
        return self.vals(e.value, st, fr, k)

    def e_YieldFrom(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        return self.vals(e.value, st, fr, lambda s, v: [("v", s, ("op", "star", v))])

    def comp(self, e, st, fr, elts, kind):
        g = e.generators[0]

        def k(s, it):
            tag = (e.lineno, self.bump(s, ("comp", e.lineno, e.col_offset)))
            s2 = s.fork()
            self.assign_quiet(g.target, s2, fr, ("elem", it, tag))
            states = [(s2, ())]
            for c in list(g.ifs):
                nx = []
                for x, conds in states:
                    for o in self.cond(c, x, fr):
                        if o[0] == "b" and o[2]:
                            nx.append((o[1], conds))
                states = nx
            # further generators are folded into the element term
            out = []
            val = None
            for x, conds in states:
                cs = tuple(sorted(((a, b) for a, b in x.facts.items() if (a, b) not in s.facts.items()), key=str))
                h = getattr(self.rule, "comp", None)
                if len(e.generators) > 1:
                    g2 = e.generators[1]
                    for o in self.ev(g2.iter, x, fr):
                        if o[0] == "v":
                            self.assign_quiet(g2.target, o[1], fr, ("elem", o[2], tag + (2,)))
                            x = o[1]
                            break
                for o in self.seq(elts, x, fr, lambda s3, v: [("v", s3, tuple(v))]):
                    if o[0] == "v":
                        if val is None:
                            val = ("comp", kind, o[2] if len(o[2]) > 1 else o[2][0], it, cs)
                            if h:
                                h(self, o[1], val, e.lineno, fr)
                    else:
                        out.append(o)
            out.append(("v", s, val or ("comp", kind, None, it, ())))
            return out
        return self.vals(g.iter, st, fr, k)

    def assign_quiet(self, t, st, fr, v):
        r, self.rule = self.rule, Rule()
        try:
            self.assign(t, st, fr, v, getattr(t, "lineno", 0))
        finally:
            self.rule = r

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, [e.elt], "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, [e.elt], "set")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, [e.elt], "gen")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, [e.key, e.value], "dict")

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        return self.callparts(e, st, fr, lambda s, c: self.apply(c, s))

    def callparts(self, e, st, fr, k):
        pos = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        star = [isinstance(a, ast.Starred) for a in e.args]
        kws = [x.value for x in e.keywords]
        fn = e.func
        recv = None
        n = len(pos)

        def wrap(vs):
            args = tuple(("op", "star", v) if st_ else v for v, st_ in zip(vs[:n], star))
            kw = tuple((x.arg or "**", v) for x, v in zip(e.keywords, vs[n:]))
            return args, kw

        if isinstance(fn, ast.Attribute):
            def k1(s, b):
                def k2(s2, vs):
                    args, kw = wrap(vs)
                    if b[0] in ("g", "cls"):
                        return k(s2, self.mkcall(self.glob(b[1] + "." + fn.attr), args, kw, e, fr))
                    # super().m(...)
                    ty = self.typeof(b)
                    f = self.db.method(ty[0], fn.attr) if ty else None
                    p = ("a", b, fn.attr)
                    if p in s2.heap:
                        return k(s2, self.mkcall(s2.heap[p], args, kw, e, fr))
                    if f is None and ty and ty[0] in self.db.classes and fn.attr in self.db.classes[ty[0]].attrs:
                        return k(s2, self.mkcall(p, args, kw, e, fr))
                    if f is not None and (f.deco("property") or f.deco("cached_property")):
                        f = None
                    return k(s2, Call(f.qual if f is not None else "." + fn.attr, b, args, kw, e, fr, ty, f))
                return self.seq(pos + kws, s, fr, k2)
            return self.vals(fn.value, st, fr, k1)

        def k3(s, vs):
            args, kw = wrap(vs[1:])
            return k(s, self.mkcall(vs[0], args, kw, e, fr))
        return self.seq([fn] + pos + kws, st, fr, k3)

    def mkcall(self, f, args, kw, e, fr):
        if f[0] == "fn":
            return self._call(f, f[1], None, args, kw, e, fr, self.db.funcs.get(f[1]))
        if f[0] == "bound":
            return self._call(f, f[1], f[2], args, kw, e, fr, self.db.funcs.get(f[1]))
        if f[0] == "lam":
            return self._call(f, "<lambda>", None, args, kw, e, fr, None)
        if f[0] == "part":
            return self.mkcall(f[1], f[2] + args, f[3] + kw, e, fr)
        if f[0] in ("g", "cls"):
            return self._call(f, f[1], None, args, kw, e, fr, None)
        return self._call(f, "()", f, args, kw, e, fr, None)

    def _call(self, f, name, recv, args, kw, e, fr, target):
        c = Call(name, recv, args, kw, e, fr, self.typeof(recv) if recv else None, target)
        c.fval = f
        return c

    def target(self, c):
        return c.target

    def ok_follow(self, st, c, f):
        return len(self.stack) < self.depth and self.stack.count(f.qual) < 2 and self.rule.follow(self, st, c, f)

    def apply(self, c, st):
        if c.name in ("functools.partial",) and c.args:
            return [("v", st, ("part", c.args[0], c.args[1:], c.kw))]
        if c.name in ("typing.cast", "cast") and len(c.args) == 2:
            return [("v", st, c.args[1])]
        if c.name == "contextlib.ExitStack":
            v = ("call", c.name, None, (), (), (c.line, self.bump(st, c.line)))
            st.heap[("stack", v)] = ()
            return [("v", st, v)]
        if c.recv is not None and ("stack", c.recv) in st.heap:
            if c.short == "callback" and c.args:
                st.heap[("stack", c.recv)] += ((c.args[0], c.args[1:], c.node),)
                return [("v", st, c.args[0])]
            if c.short == "pop_all":
                v = ("call", "contextlib.ExitStack", c.recv, (), (), (c.line, self.bump(st, c.line)))
                st.heap[("stack", v)] = st.heap[("stack", c.recv)]
                st.heap[("stack", c.recv)] = ()
                return [("v", st, v)]
            if c.short == "close":
                outs = self.leave(c.recv, ("v", st, ("c", None), c.line), c.node, c.fr)
                for o in outs:
                    o[1].heap[("stack", c.recv)] = ()
                return [o[:3] for o in outs]
        if c.recv is not None and c.short in ("acquire", "release") and c.name[:1] == "." and self.islock(c.recv):
            if c.short == "acquire":
                if c.recv not in st.locks:
                    self.stale(st, c.recv)
                self.rule.lock(self, st, c.recv, c.line, c.fr)
                st.locks = st.locks + (c.recv,)
            elif c.recv in st.locks:
                lk = list(st.locks)
                lk.remove(c.recv)
                st.locks = tuple(lk)
            return [("v", st, ("c", True))]
        self.rule.call(self, st, c)
        f = c.target
        if f is not None and self.ok_follow(st, c, f) and not f.deco("contextmanager"):
            out = []
            for o in self.inline(f, c, st, None):
                if o[0] == "v":
                    self.rule.after(self, o[1], c, o[2])
                out.append(o)
            return out
        if c.name == "<lambda>":
            return self.lam(c, st)
        return self.opaque(c, st)

    def lam(self, c, st):
        e = self.lams[c.fval[1]]
        self.fidn += 1
        fr = Frame("l%d" % self.fidn, c.fr.fn, self.frames.get(c.fval[2]))
        for p, v in zip([a.arg for a in e.args.args], c.args):
            st.env[(fr.fid, p)] = v
        return self.ev(e.body, st, fr)

    def opaque(self, c, st):
        """A call that is not followed: known library behaviour, then its exceptions."""
        name, recv = c.name, c.recv
        ty = c.rtype
        if c.fval_is_cls():
            v = self.construct(c, st)
        elif name == "isinstance" and len(c.args) == 2:
            v = ("isinst", c.args[0], c.args[1])
        elif recv is None and name in PURE:
            v = ("pure", name, c.args + tuple(("kw",) + x for x in c.kw))
        elif recv is not None and c.short in PUREM and name[:1] == ".":
            v = ("call", name, recv, c.args, c.kw, 0)
        elif recv is not None and c.short == "pop" and name[:1] == "." and c.args:
            v = ("popped", recv, c.args[0]) if ("i", recv, c.args[0]) not in st.heap else st.heap[("i", recv, c.args[0])]
        else:
            v = ("call", name, recv, c.args, c.kw, (c.line, self.bump(st, ("call", c.line, c.node.col_offset))))
        out = []
        excs = self.rule.raises(self, st, c)
        if excs is None:
            excs = self.default_raises(c, st, ty)
        if excs and excs[0] == "key":
            for o in self.mayraise(st, ("in", c.args[0], recv), "KeyError", c.node, c.fr):
                if o[0] == "next":
                    self.effect(c, o[1])
                    self.rule.after(self, o[1], c, v)
                    out.append(("v", o[1], v))
                else:
                    out.append(o)
            return out
        for x in excs or ():
            s = st.fork()
            s.note("raises", c.file, c.line, name, x)
            out.append(("raise", s, ("exc", x, (), c.line), c.line))
        self.effect(c, st)
        self.rule.after(self, st, c, v)
        out.insert(0, ("v", st, v))
        return out

    def effect(self, c, st):
        recv = c.recv
        if recv is None or c.name[:1] != ".":
            return
        if c.short in MUTATORS and isliteral(recv):
            return self.mutated(st, recv, c)
        if c.short in ("pop", "remove", "discard") and c.args:
            st.facts[("in", c.args[0], recv)] = False
            st.heap.pop(("i", recv, c.args[0]), None)
        elif c.short in ("add", "append") and c.args:
            st.facts[("in", c.args[0], recv)] = True
            st.facts.pop(("truth", recv), None)
        elif c.short == "clear":
            for a in [a for a in st.facts if (a[0] == "in" and a[2] == recv) or a == ("truth", recv)]:
                del st.facts[a]
            for p in [p for p in st.heap if p[0] == "i" and p[1] == recv]:
                del st.heap[p]
            st.facts[("truth", recv)] = False

    def default_raises(self, c, st, ty):
        if c.recv is not None and c.name[:1] == ".":
            if c.short in ("pop", "remove") and len(c.args) == 1 and not c.kw and ty and ty[0] in ("dict", "set", "collections.OrderedDict", "typing.Dict", "typing.Set"):
                return ["key"]
            if c.short == "ParseFromString":
                return ["google.protobuf.message.DecodeError"]
            if c.short in PUREM or c.short in ("append", "add", "discard", "clear", "extend"):
                return []
        if c.name == "gzip.decompress":
            return ["gzip.BadGzipFile", "zlib.error", "EOFError"]
        if c.recv is None and (c.name in PURE or c.name.startswith("absl.logging.") or c.name.startswith("uuid.")):
            return []
        if c.fval_is_cls():
            return []
        return ["*"] if self.rule_anyraise() else []

    def construct(self, c, st):
        q = c.name
        cl = self.db.classes.get(q)
        kw = []
        if cl is not None and cl.fields:
            names = list(cl.fields)
            kw = [(names[i], a) for i, a in enumerate(c.args) if i < len(names)]
        elif cl is not None and "__init__" in cl.methods:
            names = cl.methods["__init__"].params()[1:]
            kw = [(names[i], a) for i, a in enumerate(c.args) if i < len(names)]
        else:
            kw = [(i, a) for i, a in enumerate(c.args)]
        kw += list(c.kw)
        return ("new", q, tuple(kw), (c.line, self.bump(st, ("new", c.line, c.node.col_offset))))

    def inline(self, f, c, st, yieldcb):
        self.fidn += 1
        parent = None
        if getattr(c, "fval", None) and c.fval[0] == "fn" and c.fval[2] is not None:
            parent = getattr(self, "frames", {}).get(c.fval[2])
        fr = Frame("%s/%d" % (c.fr.fid, self.fidn), f, parent, yieldcb)
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        args = list(c.args)
        if f.cls is not None and f.node in f.cls.node.body and not f.deco("staticmethod"):
            if c.recv is not None:
                args.insert(0, c.recv)
            elif f.deco("classmethod"):
                args.insert(0, ("cls", f.cls.qual))
        bound = {}
        for i, v in enumerate(args):
            if i < len(ps) and not (v[0] == "op" and v[1] == "star"):
                bound[ps[i]] = v
            elif a.vararg:
                bound[a.vararg.arg] = ("tuple",) + tuple(args[len(ps):])
        for k, v in c.kw:
            if k in ps or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = v
        dm = {}
        for x, d in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
            dm[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dm[x.arg] = d
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg not in bound:
                d = dm.get(x.arg)
                if isinstance(d, ast.Constant):
                    bound[x.arg] = ("c", d.value)
                elif d is not None and dotted(d):
                    bound[x.arg] = self.glob(self.db.resolve(f.mod, dotted(d)))
                else:
                    bound[x.arg] = ("hav", x.arg, (c.line, self.fidn))
        for k, v in bound.items():
            st.env[(fr.fid, k)] = v
        self.stack.append(f.qual)
        self.analysed.add(f.qual)
        outs = self.block(f.node.body, st, fr)
        self.stack.pop()
        res = []
        for kind, s, v, line in outs:
            for k in [k for k in s.env if k[0] == fr.fid]:
                if not self.captured(s, fr.fid):
                    del s.env[k]
            if yieldcb is not None:
                if kind in ("return", "next"):
                    if s.pend is not None:
                        p, s.pend = s.pend, None
                        res.append((p[0], s, p[1], p[2]))
                    else:
                        res.append(("next", s, None, 0))
                else:
                    if kind == "raise":
                        s.pend = None
                    res.append((kind, s, v, line))
                continue
            if kind == "return":
                res.append(("v", s, v))
            elif kind in ("next", "break", "continue"):
                res.append(("v", s, ("c", None)))
            else:
                res.append((kind, s, v, line))
        return res

    def captured(self, s, fid):
        return fid in getattr(self, "frames", {})


def _fval_is_cls(c):
    fv = getattr(c, "fval", None)
    if fv is None:
        return False
    if fv[0] == "cls":
        return True
    return fv[0] == "g" and fv[1].rsplit(".", 1)[-1][:1].isupper() and ("_pb2" in fv[1] or fv[1].split(".")[0] in ("http",))


Call.fval_is_cls = _fval_is_cls


def strlike(*vs):
    return any(v[0] == "op" and v[1] == "str" or v[0] == "c" and isinstance(v[1], str) for v in vs)


def flat(v):
    return v[2:] if v[0] == "op" and v[1] == "str" else (v,)


def as_load(t):
    n = ast.parse(ast.unparse(t), mode="eval").body
    for x in ast.walk(n):
        x.lineno = getattr(t, "lineno", 1)
        x.col_offset = getattr(t, "col_offset", 0)
    return n


def names_bound(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
    return out


def sub(t):
    """All terms inside t."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from sub(x)


def mentions(t, x):
    return t == x or (isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple)))


def show(t, n=160):
    def s(t):
        if not isinstance(t, tuple) or not t:
            return repr(t)
        k = t[0]
        if not isinstance(k, str):
            return "(" + ", ".join(s(x) for x in t) + ")"
        if k == "c":
            return repr(t[1])
        if k in ("g", "cls", "fn"):
            return t[1].rsplit(".", 2)[-1] if k == "g" else t[1].rsplit(".", 1)[-1]
        if k == "p":
            return t[1]
        if k == "a":
            return s(t[1]) + "." + t[2]
        if k == "i":
            return s(t[1]) + "[" + s(t[2]) + "]"
        if k == "call":
            return (s(t[2]) if t[2] else "") + t[1] + "(" + ", ".join([s(x) for x in t[3]] + ["%s=%s" % (a, s(b)) for a, b in t[4]]) + ")"
        if k == "pure":
            return t[1] + "(" + ", ".join(s(x) for x in t[2]) + ")"
        if k == "new":
            return t[1].rsplit(".", 1)[-1] + "(" + ", ".join("%s=%s" % (a, s(b)) for a, b in t[2]) + ")"
        if k == "elem":
            return "each(" + s(t[1]) + ")"
        if k == "popped":
            return s(t[1]) + ".pop(" + s(t[2]) + ")"
        if k == "exc":
            return "exception " + str(t[1])
        if k == "truth":
            return s(t[1])
        if k in ("==", "<", "in", "is") and len(t) == 3:
            return s(t[1]) + " " + k + " " + s(t[2])
        if k == "op":
            return t[1] + "(" + ", ".join(s(x) for x in t[2:]) + ")"
        return k + "(" + ", ".join(s(x) for x in t[1:] if isinstance(x, tuple)) + ")"
    return s(t)[:n]
