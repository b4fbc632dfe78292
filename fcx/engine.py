"""Path-partitioned must-fact dataflow over the extracted bodies.

The abstract state is (variables -> value terms, memory cells -> value terms,
known branch facts, locks held, rule typestate).  Statements are interpreted
over sets of such states; loops are solved by havocking what the body writes
and iterating the typestate to a fixpoint; joins beyond a cap intersect facts.
Callees whose body is in the tree are analysed in the caller's context, so a
check that moved into a helper still establishes the same fact.  Nothing is
executed and no solver is used: an edge is pruned only when its condition, as a
term, is already a recorded fact.
"""
import re
import sys

from . import terms as tm
from .terms import mk, const, TRUE, FALSE, NULL, VOID, THIS, T, as_atom, atom_eq, atom_lt, PROV

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class St:
    __slots__ = ("env", "mem", "facts", "vals", "locks", "ts", "raii", "trail", "univ", "epoch", "muted")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = {}
        self.vals = {}
        self.locks = ()
        self.ts = {}
        self.raii = ()
        self.trail = None
        self.univ = {}
        self.epoch = {}

    def copy(self):
        n = St.__new__(St)
        n.env = dict(self.env)
        n.mem = dict(self.mem)
        n.facts = dict(self.facts)
        n.vals = dict(self.vals)
        n.locks = self.locks
        n.ts = dict(self.ts)
        n.raii = self.raii
        n.trail = self.trail
        n.univ = dict(self.univ)
        n.epoch = dict(self.epoch)
        return n

    def key(self):
        return (tuple(sorted(self.ts.items(), key=lambda kv: str(kv[0]))), self.locks, self.raii)

    # -- facts ------------------------------------------------------------
    def known(self, atom):
        """True/False/None for a normalised atom term."""
        if atom.op == "c":
            return bool(atom.args[1])
        v = self.facts.get(atom)
        if v is not None:
            return v
        if atom.op == "eq":
            a, b = atom.args
            va = self.vals.get(a) if not tm.is_const(a) else a
            vb = self.vals.get(b) if not tm.is_const(b) else b
            if va is not None and vb is not None:
                return tm.cval(va) == tm.cval(vb)
            if tm.is_const(a) and fresh_size(b):
                return tm.cval(a) == 0
            if a.op == "enum" and "StatusCode" in a.args[0] and status_code_of(b) is not None:
                x = status_code_of(b)
                k = code_name(x)
                if k is not None:
                    return a.args[0].endswith("::k" + k)
                if a.args[1] != 0 and self.known(mk("ok", x)) is True:
                    return False
        elif atom.op == "lt":
            a, b = atom.args
            va = self.vals.get(a) if not tm.is_const(a) else a
            vb = self.vals.get(b) if not tm.is_const(b) else b
            if va is not None and vb is not None:
                try:
                    return tm.cval(va) < tm.cval(vb)
                except TypeError:
                    return None
        elif atom.op == "haskey":
            if fresh_container(atom.args[0]):
                return False
        elif atom.op == "call" and atom.args[0].startswith("std::holds_alternative<"):
            # a variant holds one alternative at a time
            for a, v in self.facts.items():
                if v and a.op == "call" and a.args[2] == atom.args[2] and a.args[0] != atom.args[0] and a.args[0].startswith("std::holds_alternative<"):
                    return False
        elif atom.op == "has":
            x = atom.args[0]
            if x is NULL:
                return False
            if x.op in ("ctor", "new", "lambda", "c"):
                return True
        elif atom.op == "ok":
            return okness(atom.args[0])
        return None

    def assume(self, atom, pol):
        if atom.op == "c":
            return
        self.facts[atom] = pol
        if atom.op == "eq" and pol:
            a, b = atom.args
            if tm.is_const(a):
                self.vals[b] = a
                x = status_code_of(b) if a.op == "enum" and "StatusCode" in a.args[0] else None
                if x is not None and okness(x) is None:
                    self.facts.setdefault(mk("ok", x), a.args[1] == 0)
        if atom.op == "eq" and not pol and tm.is_const(atom.args[0]):
            pass

    def holds(self, atom, pol=True):
        return self.known(atom) is pol

    def trace(self):
        out = []
        t = self.trail
        while t is not None and len(out) < 60:
            out.append(t[0])
            t = t[1]
        return list(reversed(out))


FRESH = re.compile(r"^(const )?(std::(vector|deque|list|set|unordered_set|basic_string)|absl::(flat|node)_hash_set|absl::btree_set|absl::InlinedVector)\b")   # not maps: indexing fills them


def fresh_container(t):
    """A container that was just default-constructed: empty."""
    return t.op == "obj" and isinstance(t.args[0], str) and FRESH.match(t.args[0]) is not None


def fresh_size(t):
    return t.op == "call" and t.args[1] is not None and t.args[0].rsplit("::", 1)[-1] in ("size", "length") and fresh_container(t.args[1])


ERR_RE = re.compile(r"^absl::(\w+)Error$")


def status_code_of(t):
    """The status whose code this is."""
    return t.args[1] if t.op == "call" and t.args[1] is not None and not t.args[2] and t.args[0] in ("absl::Status::code", "absl::Status::raw_code") else None


def code_name(t):
    m = ERR_RE.match(t.args[0]) if t.op == "call" and isinstance(t.args[0], str) else None
    return m.group(1) if m and m.group(1) in STATUS_CODES else None


def okness(t):
    """Is this status-like term known to be OK / not OK?"""
    if t.op == "okst":
        return True
    if t.op == "errst":
        return False
    if t.op == "call":
        n = t.args[0]
        m = ERR_RE.match(n)
        if m and m.group(1) not in ("ErrnoTo",):
            return False
        if n == "absl::OkStatus":
            return True
    if t.op == "stcode":
        c = t.args[0]
        v = tm.cval(c)
        if v is not None:
            return v == 0
    if t.op in ("new", "lambda", "list"):
        return True
    return None


class Frame:
    __slots__ = ("id", "func", "this", "parent", "depth", "caps", "keys", "file")

    def __init__(self, id, func, this, depth, parent=None, caps=None, keys=(), file=None):
        self.id = id
        self.func = func
        self.this = this
        self.parent = parent
        self.depth = depth
        self.caps = caps or {}
        self.keys = keys
        self.file = file


class Call:
    """What a rule sees at a call/constructor event."""
    __slots__ = ("name", "recv", "args", "line", "file", "node", "term", "fr", "kind", "rtype", "inlined", "recvtype", "func")

    @property
    def short(self):
        return self.name.rsplit("::", 1)[-1]

    def __repr__(self):
        return "%s@%s:%s" % (self.name, self.file, self.line)


class Rule:
    """Base class: override the hooks of interest."""
    max_depth = 7

    def stop(self, name, fn):
        return False

    def on_call(self, eng, st, call):
        pass

    def after_call(self, eng, st, call, ret):
        pass

    def on_write(self, eng, st, place, val, line, fr):
        pass

    def on_read(self, eng, st, field, base, line, fr, write):
        pass

    def on_return(self, eng, st, val, line, fr):
        """Called for the entry function's exits only."""
        pass

    def on_enter(self, eng, st, fr):
        pass

    def on_lambda(self, eng, st, fr, node):
        """A lambda escapes and is analysed as if called later."""
        pass

    def on_sync_lambda(self, eng, st, val, fr, node):
        """One evaluation of a lambda handed to a library algorithm."""

    def on_lambda_exit(self, eng, st, val, fr, node):
        """An exit of a lambda that was analysed as if called later."""
        pass

    def on_branch(self, eng, st, atom, pol, line, fr):
        pass

    def on_loop(self, eng, st, node, fr):
        pass

    def on_reach(self, eng, st, node, fr):
        """Control reaches a loop statement (before its first iteration)."""
        pass

    def on_iter(self, eng, st, node, fr):
        """State at the end of one loop iteration (back edge)."""
        pass

    def on_index(self, eng, st, base, idx, line, fr):
        pass

    def on_deref(self, eng, st, base, line, fr, typ):
        pass

    def on_acquire(self, eng, st, lock, line, fr):
        """A lock (mutex field, owner) is about to be taken."""

    def on_move(self, eng, st, place, val, fr):
        pass


ACCESSORS = {"operator[]", "at", "find", "begin", "end", "front", "back", "data", "get", "value", "cbegin", "cend",
             "rbegin", "rend", "lower_bound", "upper_bound", "c_str", "top", "operator->", "operator*", "ValueOrDie",
             "ReleaseOrDie", "mutable_data", "lock", "unlock", "Lock", "Unlock", "ReaderLock", "ReaderUnlock", "Ref", "first", "second",
             "asInt", "asUint", "asNint", "asBstr", "asTstr", "asArray", "asMap"}

LIMITS = {}
for _b, _ns in ((8, ("signed char", "int8_t")), (16, ("short", "int16_t")), (32, ("int", "int32_t")), (64, ("long", "long long", "int64_t"))):
    for _n in _ns:
        LIMITS[_n] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
        LIMITS[_n.replace("signed char", "char") if _n == "signed char" else _n] = LIMITS[_n]
        LIMITS["u" + _n if _n.endswith("_t") else "unsigned " + _n.replace("signed ", "")] = (0, (1 << _b) - 1)
LIMITS["size_t"] = LIMITS["unsigned long"]

IMPURE = re.compile(r"(rand|Rand|Now|Generate|Create|New|Make|Next|Unique|Read|Open|Recv|Receive|Fetch|Pop|Get$|perform|Perform|Run|Execute|Send|Call)")

# answers that may change between two calls without the caller doing anything
STATUS_CODES = ["Ok", "Cancelled", "Unknown", "InvalidArgument", "DeadlineExceeded", "NotFound", "AlreadyExists", "PermissionDenied",
                "ResourceExhausted", "FailedPrecondition", "Aborted", "OutOfRange", "Unimplemented", "Internal", "Unavailable",
                "DataLoss", "Unauthenticated"]
VOLATILE = {"Signalled", "HasBeenNotified", "Wait", "WaitUntilIdle", "ShouldAbort", "load", "exchange", "compare_exchange_strong"}

TRANSPARENT_CTORS = {"std::basic_string", "std::basic_string_view", "absl::StatusOr", "std::optional", "absl::optional",
                     "std::unique_ptr", "std::shared_ptr", "std::function", "absl::Span", "absl::Cord",
                     "fcp::internal::StatusBuilder", "std::initializer_list", "std::reference_wrapper",
                     "std::filesystem::path", "absl::FunctionRef", "fcp::Result", "absl::string_view", "std::filesystem::__cxx11::path",
                     "absl::AlphaNum", "absl::Status", "std::move_iterator", "absl::AnyInvocable", "std::unique_ptr::pointer",
                     "absl::str_format_internal::FormatSpecTemplate", "absl::Span::Span", "std::span"}
LOCK_CALLS = {"Lock", "WriterLock", "ReaderLock", "lock", "LockWhen", "WriterLockWhen", "ReaderLockWhen", "lock_shared"}
RAII_LOCKS = {"absl::MutexLock", "absl::WriterMutexLock", "absl::ReaderMutexLock", "absl::ReleasableMutexLock",
              "std::lock_guard", "std::unique_lock", "std::scoped_lock", "absl::MutexLockMaybe"}


class Out:
    __slots__ = ("n", "ret", "brk", "cont", "exc")

    def __init__(self):
        self.n = []
        self.ret = []     # (state, term, line)
        self.brk = []
        self.cont = []
        self.exc = []     # raised (python)

    def absorb(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont
        self.exc += o.exc


class Engine:
    CAP = 64
    RCAP = 32
    STEP_LIMIT = 4000000

    def __init__(self, db, rule):
        self.db = db
        self.rule = rule
        rule.eng = self
        self.steps = 0
        self.muted = 0
        self.recorders = []
        self.closures = {}
        self.entry = None
        self.stats = {"entries": 0, "inlined": 0, "calls": 0, "branches": 0, "loops": 0, "exits": 0}
        self.analysed = set()
        self._inl_cache = {}

    # ------------------------------------------------------------------
    def run(self, fn, ts=None, params=None, init=None, this=THIS):
        """Analyse fn as an entry point."""
        st = St()
        if ts:
            st.ts.update(ts)
        fr = Frame(mk("frame", fn.key).uid, fn, this, 0, keys=(fn.key,), file=fn.rel())
        for p in fn.params:
            t = mk("param", p[1] or "p%d" % p[0], fn.name)
            if params and p[1] in params:
                t = params[p[1]]
            st.env[(fr.id, p[0])] = t
        self.entry = fn
        self.steps = 0
        self.stats["entries"] += 1
        self.analysed.add(fn.key)
        if init:
            init(self, st, fr)
        self.rule.on_enter(self, st, fr)
        sts = [st]
        if fn.kind == "ctor":
            for ini in fn.inits:
                nxt = []
                for s in sts:
                    for s2, v in self.ev(ini[1], s, fr):
                        if ini[0] != "~base":
                            self.write(("f", fr.this, ini[0]), v, s2, fn.line, fr)
                        nxt.append(s2)
                sts = nxt
        o = self.ex(fn.body, sts, fr)
        exits = [(s, VOID, fn.end) for s in o.n] + o.ret
        for s, v, ln in exits:
            self.stats["exits"] += 1
            if v.op == "lambda":
                self.run_deferred(v, s, fr)
            self.rule.on_return(self, s, v, ln, fr)
        return exits, o.exc

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.STEP_LIMIT:
            raise Budget(self.entry.name if self.entry else "?")

    # ------------------------------------------------------------ places
    def find_var(self, fr, vid, st):
        f = fr
        while f is not None:
            if (f.id, vid) in st.env:
                return ("v", f.id, vid)
            if vid in f.caps:
                return ("t", f.caps[vid])
            f = f.parent
        return ("v", fr.id, vid)

    def resolve(self, place, st):
        n = 0
        while place[0] == "v":
            v = st.env.get((place[1], place[2]))
            if isinstance(v, tuple) and v and v[0] == "ref" and n < 10:
                place = v[1]
                n += 1
                continue
            return place
        return place

    def read(self, place, st, line=0, fr=None):
        place = self.resolve(place, st)
        k = place[0]
        if k == "v":
            v = st.env.get((place[1], place[2]))
            if v is None:
                v = mk("uninit", place[1], place[2])
                st.env[(place[1], place[2])] = v
            return v
        if k == "f":
            v = st.mem.get(place)
            if v is None:
                v = self.default_read(place, st)
            return v
        if k == "i":
            v = st.mem.get(place)
            if v is None:
                v = mk("idx", place[1], place[2])
            return v
        if k == "g":
            v = st.mem.get(place)
            if v is None:
                v = mk("gvar", place[1])
            return v
        return place[1]

    def write(self, place, val, st, line=0, fr=None):
        place = self.resolve(place, st)
        k = place[0]
        for r in self.recorders:
            r.setdefault(place, set()).add(val)
        self.rule.on_write(self, st, place, val, line, fr)
        if k == "v":
            old = st.env.get((place[1], place[2]))
            if isinstance(old, T) and old.op == "elem" and isinstance(val, T):
                # element of a container rewritten through a loop reference
                PROV.setdefault(old.args[0], set()).add(val)
            st.env[(place[1], place[2])] = val
        elif k in ("f", "i", "g"):
            st.mem[place] = val
            if k == "i" and isinstance(place[1], T) and isinstance(val, T):
                # the container now (also) holds what was stored in it
                PROV.setdefault(place[1], set()).add(val)

    def lv(self, e, st, fr):
        """Evaluate an lvalue expression -> [(state, place)]."""
        k = e[0]
        if k == "var":
            return [(st, self.find_var(fr, e[2], st))]
        if k == "fld":
            out = []
            for s, b in self.ev(e[2], st, fr):
                if e[1].startswith("std::pair::"):
                    # iterator->second of find(m,k) is m[k]
                    if e[1].endswith("second") and b.op == "call" and b.args[0].endswith("::find") and len(b.args[2]) == 1:
                        out.append((s, ("i", b.args[1], b.args[2][0])))
                        continue
                out.append((s, ("f", b, e[1])))
            return out
        if k == "idx":
            out = []
            for s, b in self.ev(e[1], st, fr):
                for s2, i in self.ev(e[2], s, fr):
                    out.append((s2, ("i", b, i)))
            return out
        if k == "gvar":
            return [(st, ("g", e[1]))]
        if k in ("deref", "addr", "move"):
            return self.lv(e[1], st, fr)
        if k == "cast":
            return self.lv(e[2], st, fr)
        if k == "this":
            return [(st, ("t", fr.this))]
        if k == "call":
            n = e[1].rsplit("::", 1)[-1]
            if e[2] is not None and n in ("get", "value", "operator*", "operator->", "ValueOrDie") and not e[3]:
                return self.lv(e[2], st, fr)
            if e[2] is not None and n == "at" and len(e[3]) == 1:
                out = []
                for s, b in self.ev(e[2], st, fr):
                    for s2, i in self.ev(e[3][0], s, fr):
                        out.append((s2, ("i", b, i)))
                return out
        if k == "ctor" and len(e[2]) == 1 and e[1] in TRANSPARENT_CTORS:
            return self.lv(e[2][0], st, fr)
        return [(s, ("t", v)) for s, v in self.ev(e, st, fr)]

    @staticmethod
    def is_lvalue(e):
        while e and e[0] in ("deref", "addr", "move"):
            e = e[1]
        return bool(e) and e[0] in ("var", "fld", "idx", "gvar")

    # -------------------------------------------------------- expressions
    def evs(self, es, st, fr):
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, l in acc:
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, l + [v]))
            acc = nxt
            if len(acc) > self.CAP * 2:
                acc = self.cap_lists(acc, ("args", id(e), fr.id))
        return acc

    def cap_lists(self, acc, site):
        self.stats["joined_args"] = self.stats.get("joined_args", 0) + 1
        groups = {}
        for s, l in acc:
            groups.setdefault(s.key(), []).append((s, l))
        per = max(1, self.CAP // len(groups))
        out = []
        for g in groups.values():
            while len(g) > per:
                (s1, l1), (s2, l2) = g.pop(), g.pop()
                l = [a if a is b else mk("hav", site, i) for i, (a, b) in enumerate(zip(l1, l2))]
                g.append((self.join(s1, s2, site), l))
            out += g
        return out

    def ev(self, e, st, fr):
        self.tick()
        if e is None:
            return [(st, VOID)]
        m = getattr(self, "e_" + e[0], None)
        if m is None:
            return [(st, mk("unk", e[0]))]
        return m(e, st, fr)

    def e_int(self, e, st, fr):
        return [(st, const(e[1]))]

    def e_bool(self, e, st, fr):
        return [(st, TRUE if e[1] else FALSE)]

    def e_float(self, e, st, fr):
        f = float(e[1])
        return [(st, const(int(f)) if f == int(f) and abs(f) < 1e15 else const(f))]

    def e_str(self, e, st, fr):
        return [(st, const(e[1]))]

    def e_null(self, e, st, fr):
        return [(st, NULL)]

    def e_enum(self, e, st, fr):
        return [(st, mk("enum", e[1], e[2]))]

    def e_this(self, e, st, fr):
        return [(st, fr.this)]

    def e_default(self, e, st, fr):
        return [(st, mk("default"))]

    def e_zero(self, e, st, fr):
        t = e[1]
        if t in ("bool",):
            return [(st, FALSE)]
        if t.endswith("*"):
            return [(st, NULL)]
        if re.match(r"(unsigned |signed )?(int|long|short|char|long long)", t):
            return [(st, const(0))]
        return [(st, mk("zero", t))]

    def e_sizeof(self, e, st, fr):
        return [(st, const(e[1]) if e[1] is not None else mk("sizeof", e[2]))]

    def e_fn(self, e, st, fr):
        return [(st, mk("fn", e[1], e[2]))]

    def e_gvar(self, e, st, fr):
        if e[2] is not None:
            return [(st, const(e[2]))]
        if e[1].endswith("nullopt"):
            return [(st, NULL)]
        v = st.mem.get(("g", e[1]))
        if v is not None:
            return [(st, v)]
        g = self.db.globals.get(e[1])
        if g and g[0].startswith("const"):
            i = g[1]
            while i and i[0] == "ctor" and i[2]:
                i = i[2][0]
            if i and i[0] in ("str", "int", "enum"):
                return self.ev(i, st, fr)
            if i and i[0] in ("float",):
                return self.ev(i, st, fr)
        return [(st, mk("gvar", e[1]))]

    def e_var(self, e, st, fr):
        return [(st, self.read(self.find_var(fr, e[2], st), st))]

    def e_fld(self, e, st, fr):
        out = []
        for s, p in self.lv(e, st, fr):
            if p[0] == "f":
                self.rule.on_read(self, s, p[2], p[1], e[3] if len(e) > 3 else 0, fr, False)
            out.append((s, self.read(p, s)))
        return out

    def e_idx(self, e, st, fr):
        out = []
        for s, p in self.lv(e, st, fr):
            if p[0] == "i":
                self.rule.on_index(self, s, p[1], p[2], e[3], fr)
            out.append((s, self.read(p, s)))
        return out

    def e_deref(self, e, st, fr):
        out = self.ev(e[1], st, fr)
        for s, v in out:
            self.rule.on_deref(self, s, v, e[2] if len(e) > 2 else 0, fr, e[3] if len(e) > 3 else "")
        return out

    def e_addr(self, e, st, fr):
        return self.ev(e[1], st, fr)

    def e_move(self, e, st, fr):
        out = self.ev(e[1], st, fr)
        x = e[1]
        while x[0] in ("fld", "deref", "arrow"):
            x = x[2] if x[0] == "fld" else x[1]
        if e[1][0] in ("var", "fld") and x[0] in ("var", "this"):
            for s, v in out:
                for s2, p in self.lv(e[1], s.copy(), fr)[:1]:
                    self.rule.on_move(self, s, self.resolve(p, s), v, fr)
        return out

    def e_cast(self, e, st, fr):
        if e[1] == "void":
            return [(s, VOID) for s, _ in self.ev(e[2], st, fr)]
        if e[1] == "bool":
            return self.ev(e[2], st, fr)
        return self.ev(e[2], st, fr)

    def e_has(self, e, st, fr):
        return [(s, mk("has", v) if v is not NULL else FALSE) for s, v in self.ev(e[1], st, fr)]

    def e_conv(self, e, st, fr):
        out = []
        for s, v in self.ev(e[2], st, fr):
            if e[1] == "bool":
                if "StatusBuilder" in e[4]:
                    out.append((s, mk("ok", v)))
                elif "bitset" in e[4] or "_Bit_reference" in e[4] or "vector<bool" in e[4] or "atomic" in e[4]:
                    out.append((s, v))
                else:
                    out.append((s, mk("has", v) if v is not NULL else FALSE))
            else:
                out.append((s, v))
        return out

    def e_comma(self, e, st, fr):
        out = []
        for s, _ in self.ev(e[1], st, fr):
            out += self.ev(e[2], s, fr)
        return out

    def e_throw(self, e, st, fr):
        return []

    def e_delete(self, e, st, fr):
        out = []
        for s, v in self.ev(e[1], st, fr):
            c = self.mkcall("operator delete", None, (v,), e[2], e, fr, "delete")
            self.rule.on_call(self, s, c)
            out.append((s, VOID))
        return out

    def e_un(self, e, st, fr):
        out = []
        if e[1] == "!":
            for s, v in self.ev(e[2], st, fr):
                a, p = as_atom(v)
                out.append((s, self.atomterm(a, not p)))
            return out
        for s, v in self.ev(e[2], st, fr):
            if e[1] == "-":
                out.append((s, tm.arith("-", const(0), v)))
            elif e[1] == "+":
                out.append((s, v))
            else:
                out.append((s, mk("un", e[1], v)))
        return out

    @staticmethod
    def atomterm(a, p):
        if a is TRUE:
            return TRUE if p else FALSE
        if a is FALSE:
            return FALSE if p else TRUE
        return a if p else mk("not", a)

    def cmp_eq(self, a, b):
        # iterator comparisons
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and y.op == "call":
                xn = x.args[0].rsplit("::", 1)[-1]
                yn = y.args[0].rsplit("::", 1)[-1]
                if yn in ("end", "cend") and xn == "find" and x.args[1] is not None and len(x.args[2]) == 1:
                    return mk("haskey", x.args[1], x.args[2][0]), False
                if yn in ("end", "cend") and xn in ("begin", "cbegin") and x.args[1] is y.args[1]:
                    return mk("eq", const(0), self.size_of(x.args[1])), True
            if y.op == "enum" and y.args[1] == 0 and x.op == "call" and x.args[0].endswith("::code") and x.args[1] is not None:
                return mk("ok", x.args[1]), True
            if y.op == "call" and y.args[0] == "absl::OkStatus":
                return mk("ok", x), True
            if y.op == "c" and y.args[1] == 0 and y.args[0] == "int" and x.op == "call" and x.args[0].rsplit("::", 1)[-1] == "count" \
                    and x.args[1] is not None and len(x.args[2]) == 1:
                return mk("haskey", x.args[1], x.args[2][0]), False
            if y.op == "c" and y.args == ("str", "") and not tm.is_const(x):
                return mk("eq", const(0), self.size_of(x)), True
        return atom_eq(a, b)

    @staticmethod
    def size_of(x):
        return mk("call", "size", x, ())

    def compare(self, op, a, b):
        if op == "==":
            r = self.cmp_eq(a, b)
        elif op == "!=":
            r = tm.neg(self.cmp_eq(a, b))
        elif op == "<":
            r = atom_lt(a, b)
        elif op == ">":
            r = atom_lt(b, a)
        elif op == "<=":
            r = tm.neg(atom_lt(b, a))
        else:
            r = tm.neg(atom_lt(a, b))
        t, p = r
        if t.op == "lt" and tm.is_const(t.args[0]) and tm.cval(t.args[0]) == 0:
            x = t.args[1]
            if x.op == "call" and x.args[0].rsplit("::", 1)[-1] == "count" and x.args[1] is not None and len(x.args[2]) == 1:
                t = mk("haskey", x.args[1], x.args[2][0])
        elif t.op == "eq" and tm.is_const(t.args[0]) and tm.cval(t.args[0]) in (0, 1):
            x = t.args[1]
            if x.op == "call" and x.args[0].rsplit("::", 1)[-1] == "count" and x.args[1] is not None and len(x.args[2]) == 1:
                p = p if tm.cval(t.args[0]) == 1 else (not p)
                t = mk("haskey", x.args[1], x.args[2][0])
        return self.atomterm(t, p)

    def e_op(self, e, st, fr):
        out = []
        op = e[1]
        for s, (a, b) in self.evs([e[2], e[3]], st, fr):
            if op in ("==", "!=", "<", ">", "<=", ">="):
                out.append((s, self.compare(op, a, b)))
            else:
                out.append((s, tm.arith(op, a, b)))
        return out

    def e_and(self, e, st, fr):
        t, f = self.cond(e, st, fr)
        return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]

    e_or = e_and

    def e_cond(self, e, st, fr):
        t, f = self.cond(e[1], st, fr)
        out = []
        for s in t:
            out += self.ev(e[2], s, fr)
        for s in f:
            out += self.ev(e[3], s, fr)
        return out

    def e_asg(self, e, st, fr):
        out = []
        op = e[1]
        for s, v in self.ev(e[3], st, fr):
            for s2, p in self.lv(e[2], s, fr):
                if p[0] == "f":
                    self.rule.on_read(self, s2, p[2], p[1], e[4], fr, True)
                if p[0] == "i":
                    self.rule.on_index(self, s2, p[1], p[2], e[4], fr)
                if op == "=":
                    nv = v
                    ret = v
                else:
                    old = self.read(p, s2)
                    nv = tm.arith(op[:-1], old, v)
                    ret = old if len(e) > 5 and e[5] == 1 else nv
                self.escape_value(s2, fr, v, p)
                self.write(p, nv, s2, e[4], fr)
                out.append((s2, ret))
        return out

    def escape_value(self, st, fr, v, place):
        if v.op == "lambda" and place[0] in ("f", "g", "i"):
            self.run_deferred(v, st, fr)

    def e_lambda(self, e, st, fr):
        caps = {}
        sts = [(st, caps)]
        for c in e[2]:
            if c[0] == "this" or c[0] == "?":
                continue
            nxt = []
            for s, cp in sts:
                cp = dict(cp)
                if c[3] is not None:
                    for s2, v in self.ev(c[3], s, fr):
                        cp2 = dict(cp)
                        cp2[c[1]] = v
                        nxt.append((s2, cp2))
                    continue
                if c[2] == "c":
                    cp[c[1]] = self.read(self.find_var(fr, c[1], s), s)
                nxt.append((s, cp))
            sts = nxt
        out = []
        for s, cp in sts:
            t = mk("lambda", id(e), fr.id, tuple(sorted((k, v) for k, v in cp.items() if isinstance(v, T))) if cp else ())
            self.closures[t] = (e, fr, cp)
            out.append((s, t))
        return out

    def e_list(self, e, st, fr):
        out = []
        site = mk("site", fr.id, id(e)).uid
        for s, vs in self.evs(e[2], st, fr):
            if len(e) > 3 and e[3]:
                t = mk("list", e[1], tuple(vs), site)
                for f, v in zip(e[3], vs):
                    s.mem[("f", t, f)] = v
            else:
                t = mk("list", e[1], tuple(vs), 0)
            c = self.mkcall(e[1], None, tuple(vs), e[4] if len(e) > 4 else 0, e, fr, "list")
            self.rule.on_call(self, s, c)
            out.append((s, t))
        return out

    def e_new(self, e, st, fr):
        out = []
        init = e[2]
        args = []
        if init is not None:
            args = init[2] if init[0] in ("ctor", "list") else [init]
        site = mk("site", fr.id, id(e)).uid
        for s, vs in self.evs(args, st, fr):
            for v in vs:
                if v.op == "lambda":
                    self.run_deferred(v, s, fr)
            t = mk("new", e[1], tuple(vs), site)
            c = self.mkcall(e[1], None, tuple(vs), e[3], e, fr, "ctor")
            c.term = t
            self.rule.on_call(self, s, c)
            out.append((s, t))
        return out

    def e_unk(self, e, st, fr):
        acc = [(st, [])]
        if len(e) > 2:
            acc = self.evs(e[2], st, fr)
        return [(s, mk("unk", e[1], tuple(vs), mk("site", fr.id, id(e)).uid)) for s, vs in acc]

    def e_icall(self, e, st, fr):
        out = []
        for s, f in self.ev(e[1], st, fr):
            for s2, vs in self.evs(e[2], s, fr):
                out += self.invoke_value(f, vs, e[2], s2, fr, e, e[3])
        return out

    def mkcall(self, name, recv, args, line, node, fr, kind):
        c = Call()
        c.name, c.recv, c.args, c.line, c.node, c.fr, c.kind = name, recv, args, line, node, fr, kind
        c.file = fr.file
        c.term = None
        c.rtype = ""
        c.recvtype = ""
        c.inlined = False
        c.func = None
        self.stats["calls"] += 1
        return c

    def e_ctor(self, e, st, fr):
        cls = e[1]
        args = e[2]
        # drop allocator and similar defaulted tag arguments
        args = [a for a in args if not (a and a[0] == "ctor" and a[1] == "std::allocator")]
        if cls in ("std::allocator",):
            return [(st, VOID)]
        if len(args) == 1 and cls in TRANSPARENT_CTORS:
            r = self.ev(args[0], st, fr)
            if cls in ("absl::StatusOr", "fcp::Result"):
                for s, v in r:
                    if okness(v) is None and s.known(mk("ok", v)) is None and not self.statusish(args[0], fr):
                        s.assume(mk("ok", v), True)
            elif cls in ("std::optional", "absl::optional"):
                for s, v in r:
                    if v is not NULL and s.known(mk("has", v)) is None:
                        s.assume(mk("has", v), True)
            return r
        if not args:
            if cls in ("std::optional", "absl::optional", "std::unique_ptr", "std::shared_ptr", "std::function", "absl::AnyInvocable"):
                return [(st, NULL)]
            if cls == "absl::Status":
                return [(st, mk("okst"))]
            if cls in ("std::basic_string", "std::basic_string_view"):
                return [(st, const(""))]
        out = []
        site = mk("site", fr.id, id(e)).uid
        modes = e[5] if len(e) > 5 else ""
        if cls == "fcpstub::LogMessageFatal":
            return []
        for s, vs in self.evs(args, st, fr):
            if cls == "absl::Status" and vs and len(vs) >= 1:
                t = mk("stcode", vs[0], tuple(vs[1:]))
                out.append((s, t))
                continue
            if cls == "std::basic_string" and len(vs) == 2 and vs[0].op == "c":
                out.append((s, vs[0]))
                continue
            t = mk("ctor", cls, tuple(vs), site)
            for v in vs:
                if v.op == "lambda":
                    self.run_deferred(v, s, fr)
            c = self.mkcall(cls, None, tuple(vs), e[3], e, fr, "ctor")
            c.term = t
            c.rtype = e[4]
            self.rule.on_call(self, s, c)
            self.effects(args, modes, vs, t, s, fr, e[3])
            self.rule.after_call(self, s, c, t)
            out.append((s, t))
        return out

    def statusish(self, e, fr):
        while e and e[0] in ("move", "deref"):
            e = e[1]
        if not e:
            return False
        ty = self.static_type(e, fr)
        return ty is None or "absl::Status" in ty and "absl::StatusOr" not in ty[:30] or "StatusBuilder" in ty or "absl::StatusOr" in ty[:20]

    def static_type(self, e, fr):
        k = e[0]
        if k == "call":
            return e[6]
        if k == "ctor":
            return e[4]
        if k == "var":
            return self.var_type(fr, e[2])
        if k == "fld":
            f = self.db.fields.get(e[1])
            return f[1] if f else None
        if k in ("int", "bool", "str", "float", "op", "un", "null", "list", "new", "lambda", "enum", "and", "or"):
            return k
        if k in ("move", "addr"):
            return self.static_type(e[1], fr)
        return None

    def var_type(self, fr, vid):
        f = fr
        while f is not None:
            if f.func is not None:
                vt = f.func.ptypes
                if vt is None:
                    vt = {}
                    collect_types(f.func, vt)
                    f.func.ptypes = vt
                if vid in vt:
                    return vt[vid]
            f = f.parent
        return None

    # -------------------------------------------------------------- calls
    def e_call(self, e, st, fr):
        if e[1] in ("?move", "?forward") and e[2] is None and len(e[3]) == 1:
            return self.e_move(["move", e[3][0]], st, fr)
        name = e[1]
        short = name.rsplit("::", 1)[-1]
        recv_e, args_e, line, flags, rtype = e[2], e[3], e[4], e[5], e[6]
        key = e[7]
        modes = e[8]
        out = []
        if name == "__builtin_expect":
            return self.ev(args_e[0], st, fr)
        if flags & 8 or name in ("std::abort", "abort", "exit", "std::exit", "_exit"):
            # arguments are still evaluated
            for s, vs in self.evs(args_e, st, fr):
                c = self.mkcall(name, None, tuple(vs), line, e, fr, "call")
                self.rule.on_call(self, s, c)
            return []
        if name == "fcpstub::Voidify::operator&&":
            res = []
            for s, _ in self.ev(args_e[0], st, fr):
                res.append((s, VOID))
            return res
        if name.startswith("fcpstub::"):
            acc = [(st, VOID)]
            if recv_e is not None:
                acc = self.ev(recv_e, st, fr)
            for a in args_e:
                acc = [(s2, VOID) for s, _ in acc for s2, _ in self.ev(a, s, fr)]
            return acc
        # receiver
        if recv_e is not None:
            rs = []
            for s, p in self.lv(recv_e, st, fr):
                if p[0] == "f" and self.peel(recv_e)[0] == "fld":
                    self.rule.on_read(self, s, p[2], p[1], line, fr, not (flags & 1) and short not in ACCESSORS)
                if p[0] == "i" and self.peel(recv_e)[0] == "idx":
                    self.rule.on_index(self, s, p[1], p[2], line, fr)
                rs.append((s, p, self.read(p, s)))
        else:
            rs = [(st, None, None)]
        for s0, rplace, recv in rs:
            for s, vs in self.evs(args_e, s0, fr):
                # receiver may have been re-read after argument effects
                out += self.call1(e, name, short, recv, rplace, vs, s, fr)
        return out

    @staticmethod
    def peel(e):
        while e[0] in ("deref", "addr", "move"):
            e = e[1]
        if e[0] == "call" and e[2] is not None and e[1].rsplit("::", 1)[-1] in ("get", "value", "operator*", "operator->"):
            return Engine.peel(e[2])
        return e

    def call1(self, e, name, short, recv, rplace, vs, s, fr):
        args_e, line, flags, rtype, key, modes = e[3], e[4], e[5], e[6], e[7], e[8]
        # -- library identities
        r = self.library(e, name, short, recv, rplace, vs, s, fr)
        if r is not None:
            return r
        call = self.mkcall(name, recv, tuple(vs), line, e, fr, "call")
        call.rtype = rtype
        call.recvtype = e[9] if len(e) > 9 else ""
        # invoking a stored callable
        if short == "operator()" and recv is not None:
            if recv.op == "lambda" or recv.op == "fn":
                return self.invoke_value(recv, vs, args_e, s, fr, e, line)
        fn = self.target(name, key, flags, recv, fr)
        if name.startswith("?") and recv is not None:
            # a dependent call on the object itself inside a template pattern
            fn = self.own_method(short, recv, len(vs), fr)
            if fn is not None:
                call.name = fn.name
        call.func = fn
        if fn is not None and self.can_inline(fn, name, fr):
            call.inlined = True
            self.rule.on_call(self, s, call)
            res = self.inline(fn, recv, rplace, vs, args_e, modes, s, fr, e)
            for s2, v in res:
                self.rule.after_call(self, s2, call, v)
            return res
        self.rule.on_call(self, s, call)
        return self.opaque(e, call, name, short, recv, rplace, vs, s, fr)

    def opaque(self, e, call, name, short, recv, rplace, vs, s, fr):
        args_e, line, flags, rtype, modes = e[3], e[4], e[5], e[6], e[8]
        pure = self.is_pure(name, short, flags, recv, vs, modes, rtype)
        site = 0 if pure else mk("site", fr.id, id(e)).uid
        if name.startswith("?"):
            name = name[1:]
        t = mk("call", name, recv, tuple(vs), site)
        call.term = t
        if short in LOCK_CALLS and recv is not None and "utex" in call.recvtype:
            self.rule.on_acquire(self, s, self.lock_id(rplace, recv), line, fr)
            self.acquire(self.lock_id(rplace, recv), s, mk("site", fr.id, id(e)).uid)
            s.locks = s.locks + (self.lock_id(rplace, recv),)
        elif short in ("Unlock", "WriterUnlock", "ReaderUnlock", "unlock") and recv is not None and "utex" in call.recvtype:
            lid = self.lock_id(rplace, recv)
            l = list(s.locks)
            if lid in l:
                l.remove(lid)
            s.locks = tuple(l)
        elif short.startswith("Await") and recv is not None and "utex" in call.recvtype:
            self.acquire(self.lock_id(rplace, recv), s, mk("site", fr.id, id(e)).uid)
        elif "CondVar" in call.recvtype and short.startswith("Wait") and args_e and rplace is not None:
            for s2, p in self.lv(args_e[0], s, fr)[:1]:
                rp = self.resolve(p, s)
                if rp[0] == "f":
                    self.acquire((rp[2], rp[1]), s, mk("site", fr.id, id(e)).uid)
        elif short == "Release" and "ReleasableMutexLock" in call.recvtype and rplace is not None:
            rp = self.resolve(rplace, s)
            for x in s.raii:
                if x[1] == "lock" and x[3] == rp:
                    l = list(s.locks)
                    if x[2] in l:
                        l.remove(x[2])
                    s.locks = tuple(l)
        for i, v in enumerate(vs):
            if v.op == "lambda":
                self.escape_lambda(v, name, s, fr)
        if name != "fcp::Trace" and short not in ("back_inserter", "inserter", "front_inserter"):
            self.effects(args_e, modes, vs, t, s, fr, line)
            for a in args_e:
                # an algorithm that fills a container through an insert iterator
                while a[0] in ("cast", "conv", "move"):
                    a = a[2] if a[0] == "cast" else a[1]
                if a[0] == "ctor" and len(a[2]) == 1:
                    a = a[2][0]
                if a[0] == "call" and a[1].rsplit("::", 1)[-1] in ("back_inserter", "inserter", "front_inserter") and a[3] and self.is_lvalue(a[3][0]):
                    for s2, p in self.lv(a[3][0], s, fr)[:1]:
                        p = self.resolve(p, s)
                        if p[0] != "t":
                            nv = mk("upd", name, self.read(p, s), tuple(vs), site or mk("site", fr.id, id(e)).uid)
                            PROV.setdefault(nv, set()).update(vs)
                            self.write(p, nv, s, line, fr)
        if recv is not None and not (flags & 1) and not (flags & 4) and short not in ACCESSORS and not call.name.startswith("?"):
            self.mutate(rplace, recv, name, vs, site, s, line, fr)
        self.rule.after_call(self, s, call, t)
        return [(s, t)]

    def mutate(self, rplace, recv, name, vs, site, s, line, fr):
        if rplace is None:
            return
        p = self.resolve(rplace, s)
        if p[0] == "t":
            if p[1] is fr.this or p[1] is THIS:
                self.havoc_this(p[1], s, site)
            return
        # writes via a method: new version of the object
        if "Mutex" in name or name.endswith("::Ref"):
            return
        nv = mk("upd", name, recv, tuple(vs), site)
        PROV.setdefault(nv, set()).update(vs)
        for r in self.recorders:
            r.setdefault(p, set()).add(nv)
        if p[0] == "v":
            s.env[(p[1], p[2])] = nv
        else:
            s.mem[p] = nv

    def havoc_this(self, base, s, site):
        for k in [k for k in s.mem if k[0] == "f" and k[1] is base]:
            for r in self.recorders:
                r.setdefault(k, set()).add(mk("hav", site, k[2]))
            del s.mem[k]
        s.epoch[base] = site
        for r in self.recorders:
            r.setdefault(("epoch", base), set()).add(VOID)

    def acquire(self, lid, s, site):
        """Taking a lock: once it has been free, anything it guards may have
        been changed by another thread."""
        guarded = self.db.guards.get(lid[0], ())
        seen = ("lk",) + lid
        if seen in s.epoch:
            for f in guarded:
                k = ("f", lid[1], f)
                s.mem.pop(k, None)
                s.epoch[(lid[1], f)] = site
                for r in self.recorders:
                    r.setdefault(("epoch", (lid[1], f)), set()).add(VOID)
        elif guarded:
            s.epoch[seen] = 1

    def effects(self, args_e, modes, vs, t, s, fr, line):
        if t.op == "call" and t.args[0].startswith("absl::CondVar::Wait"):
            return
        for i, a in enumerate(args_e):
            m = modes[i] if i < len(modes) else "v"
            if m == "p":
                x = a
                while x[0] in ("cast", "op"):
                    x = x[2]
                if x[0] == "addr":
                    a = x
                elif x[0] == "call" and x[1].rsplit("::", 1)[-1] == "data" and x[2] is not None and self.is_lvalue(x[2]) and not x[3]:
                    # filling a container's storage
                    a = ["addr", x[2]] if x[2][0] != "addr" else x[2]
            if m in ("r", "p") and self.is_lvalue(a) and i < len(vs):
                if m == "p" and a[0] != "addr":
                    # pointer passed on: pointee may change, pointer does not
                    peel = self.peel(a)
                    if peel[0] not in ("var",):
                        continue
                for s2, p in self.lv(a, s, fr)[:1]:
                    rp = self.resolve(p, s)
                    if rp[0] == "t":
                        continue
                    if m == "p" and a[0] != "addr" and rp[0] == "v" and vs[i].op == "param":
                        # pointee of an entry parameter: keep identity, note version
                        nv = mk("out", t, i)
                        s.env[(rp[1], rp[2])] = nv
                        for r in self.recorders:
                            r.setdefault(rp, set()).add(nv)
                        continue
                    nv = mk("out", t, i)
                    self.write(rp, nv, s, line, fr)

    def is_pure(self, name, short, flags, recv, vs, modes, rtype):
        if rtype == "void" or short in VOLATILE or name == "std::function::operator()":
            return False
        if recv is not None and not (flags & 4):
            if flags & 1 or short in ACCESSORS:
                return True
            if name.startswith("?") and short in ("size", "empty", "ok"):
                return True
            return False
        if "r" in modes or "p" in modes:
            return False
        if not vs:
            return name in ("absl::OkStatus", "absl::InfiniteDuration", "absl::ZeroDuration", "absl::InfinitePast",
                            "absl::InfiniteFuture", "absl::UnixEpoch") or name.endswith("::max") or name.endswith("::min")
        if IMPURE.search(short) and not name.startswith("absl::") and not name.startswith("std::"):
            return False
        if name.startswith("std::make_") and "pair" not in name and "tuple" not in name:
            return False
        return True

    def lock_id(self, place, recv):
        if place is not None and place[0] == "f":
            return (place[2], place[1])
        if recv is not None and recv.op == "fld":
            return (recv.args[0], recv.args[1])
        return ("", recv)

    def library(self, e, name, short, recv, rplace, vs, s, fr):
        rtype = e[6]
        rt = e[9] if len(e) > 9 else ""
        n = len(vs)
        if recv is None and n == 0 and short in ("max", "min", "lowest") and "numeric_limits" in name and rtype in LIMITS:
            lo, hi = LIMITS[rtype]
            return [(s, const(hi if short == "max" else lo))]
        if recv is not None:
            if short == "ok" and n == 0:
                return [(s, mk("ok", recv) if okness(recv) is None else (TRUE if okness(recv) else FALSE))]
            if short == "status" and n == 0 and "StatusOr" in rt:
                return [(s, recv)]
            if short in ("value", "ValueOrDie", "operator*") and n == 0 and ("StatusOr" in rt or "optional" in rt):
                self.rule.on_deref(self, s, recv, e[4], fr, rt)
                return [(s, recv)]
            if short == "get" and n == 0 and ("unique_ptr" in rt or "shared_ptr" in rt or "reference_wrapper" in rt):
                return [(s, recv)]
            if short == "has_value" and n == 0:
                return [(s, mk("has", recv) if recv is not NULL else FALSE)]
            if short == "empty" and n == 0:
                x = self.size_of(recv)
                if recv.op == "c" and recv.args[0] == "str":
                    return [(s, TRUE if not recv.args[1] else FALSE)]
                return [(s, mk("eq", const(0), x))]
            if short in ("size", "length") and n == 0:
                if recv.op == "c" and recv.args[0] == "str":
                    return [(s, const(len(recv.args[1])))]
                return [(s, self.size_of(recv))]
            if short.endswith("_size") and n == 0 and e[5] & 1 and rtype == "int":
                return [(s, self.size_of(mk("call", name[:-5], recv, (), 0)))]
            if short == "contains" and n == 1:
                return [(s, mk("haskey", recv, vs[0]))]
            if short == "at" and n == 1:
                self.rule.on_index(self, s, recv, vs[0], e[4], fr)
                return [(s, self.read(("i", recv, vs[0]), s))]
            if short in ("mutable_" + "value",) and False:
                return None
            if short == "reset" and ("unique_ptr" in rt or "optional" in rt or "shared_ptr" in rt) and rplace is not None:
                c = self.mkcall(name, recv, tuple(vs), e[4], e, fr, "call")
                self.rule.on_call(self, s, c)
                self.write(rplace, vs[0] if n else NULL, s, e[4], fr)
                return [(s, VOID)]
            if short == "release" and "unique_ptr" in rt and rplace is not None:
                self.write(rplace, NULL, s, e[4], fr)
                return [(s, recv)]
            if short in ("emplace",) and "optional" in rt and rplace is not None:
                v = vs[0] if n == 1 else mk("list", "?", tuple(vs), 0)
                self.write(rplace, v, s, e[4], fr)
                s.assume(mk("has", v), True)
                return [(s, v)]
            if name.startswith("std::basic_string::substr") and False:
                return None
        else:
            if name in ("fcp::internal::AsStatus", "std::as_const", "std::ref", "std::cref", "absl::implicit_cast", "std::addressof") and n == 1:
                return [(s, vs[0])]
            if name == "fcp::internal::MakeStatusBuilder" and n:
                return [(s, mk("stcode", vs[0], ()))]
            if name in ("std::min", "std::max") and n == 2:
                a, b = sorted(vs, key=lambda x: x.uid)
                if tm.is_const(a) and tm.is_const(b):
                    f = min if name.endswith("min") else max
                    return [(s, const(f(tm.cval(a), tm.cval(b))))]
                return [(s, mk("call", name, None, (a, b), 0))]
            if name == "std::make_unique" or name == "std::make_shared" or name == "absl::make_unique" or name == "absl::WrapUnique":
                m = re.match(r"std::(?:unique|shared)_ptr<(.*)>$", rtype)
                cls = m.group(1) if m else rtype
                cls = re.sub(r", std::default_delete<.*$", "", cls)
                c = self.mkcall(cls, None, tuple(vs), e[4], e, fr, "ctor")
                t = mk("new", cls, tuple(vs), mk("site", fr.id, id(e)).uid)
                c.term = t
                for v in vs:
                    if v.op == "lambda":
                        self.run_deferred(v, s, fr)
                self.rule.on_call(self, s, c)
                self.effects(e[3], e[8], vs, t, s, fr, e[4])
                return [(s, t)]
            if short in ("any_of", "all_of", "none_of", "c_any_of", "c_all_of", "c_none_of") and n >= 2 and vs[-1].op == "lambda":
                return self.quantified(short, vs, e, s, fr)
            if name in ("absl::OkStatus",):
                return [(s, mk("okst"))]
            if name == "std::exchange" and n == 2 and self.is_lvalue(e[3][0]):
                out = []
                for s2, p in self.lv(e[3][0], s, fr):
                    self.write(self.resolve(p, s2), vs[1], s2, e[4], fr)
                    out.append((s2, vs[0]))
                return out
            if name == "std::swap" and n == 2 and self.is_lvalue(e[3][0]) and self.is_lvalue(e[3][1]):
                out = []
                for s2, p in self.lv(e[3][0], s, fr):
                    for s3, q in self.lv(e[3][1], s2, fr):
                        self.write(self.resolve(p, s3), vs[1], s3, e[4], fr)
                        self.write(self.resolve(q, s3), vs[0], s3, e[4], fr)
                        out.append((s3, mk("void")))
                return out
            if name.startswith("absl::Is") and n == 1 and short[2:] in STATUS_CODES and okness(vs[0]) is None:
                return [(s, self.compare("==", mk("call", "absl::Status::code", vs[0], (), 0), mk("enum", "absl::StatusCode::k" + short[2:], STATUS_CODES.index(short[2:]))))]
            if short in ("for_each", "c_for_each", "transform") and vs and vs[-1].op == "lambda":
                pass
        if short == "operator<<" and name.startswith("fcp::internal::StatusBuilder"):
            return [(s, recv)]
        return None

    def quantified(self, short, vs, e, s, fr):
        lam = vs[-1]
        node, lfr, caps = self.closures[lam]
        base = vs[0]
        if base.op == "call" and base.args[0].rsplit("::", 1)[-1] in ("begin", "cbegin"):
            base = base.args[1]
        el = mk("elem", base, 0)
        res = self.call_lambda(lam, [el], s.copy(), fr, e)
        q = short.replace("c_", "")
        # facts under which the predicate is false (any/none) or true (all)
        want = FALSE if q in ("any_of", "none_of") else TRUE
        common = None
        for s2, v in res:
            a, p = as_atom(v)
            okv = (a is TRUE and p == (want is TRUE)) or a is not TRUE
            if not okv:
                continue
            fs = {k: x for k, x in s2.facts.items() if s.facts.get(k) is None and tm.contains(k, el)}
            if a is not TRUE:
                fs[a] = p if want is TRUE else not p
            common = fs if common is None else {k: x for k, x in common.items() if fs.get(k) is x}
        t = mk("quant", q, base, lam)
        st_all = s.copy()
        st_not = s
        st_all.assume(t, q != "any_of")
        st_not.assume(t, q == "any_of")
        for k, x in (common or {}).items():
            st_all.univ[k] = x
        return [(st_all, TRUE if q != "any_of" else FALSE), (st_not, FALSE if q != "any_of" else TRUE)]

    def own_method(self, short, recv, nargs, fr):
        if recv.op == "call" and recv.args[0].rsplit("::", 1)[-1].lstrip("?") == "shared_from_this" and recv.args[1] is not None:
            recv = recv.args[1]
        if recv is not THIS or self.entry is None or not self.entry.cls:
            return None
        for c in self.linear_bases(self.entry.cls):
            fs = [f for f in self.db.named(c + "::" + short.lstrip("?")) if len(f.params) == nargs]
            if fs:
                return fs[0] if len(fs) == 1 else None
        return None

    def target(self, name, key, flags, recv, fr):
        fn = self.db.funcs.get(key)
        if fn is not None:
            alt = self.db.funcs.get(key + "@" + (fr.func.file if fr.func else ""))
            if alt is not None:
                fn = alt
        if flags & 2:
            ov = self.db.overriders.get(name, [])
            if recv is not None and recv is THIS and self.entry is not None and self.entry.cls:
                # virtual call on the entry object: use the entry class's own override
                cls = self.entry.cls
                for c in self.linear_bases(cls):
                    for f in self.db.named(c + "::" + name.rsplit("::", 1)[-1]):
                        if self.sig(f.key) == self.sig(key):
                            return f
            if recv is not None and recv.op in ("new", "ctor"):
                for f in self.db.named(recv.args[0] + "::" + name.rsplit("::", 1)[-1]):
                    if self.sig(f.key) == self.sig(key):
                        return f
            if fn is None:
                impl = [f for f in self.all_overriders(name) if self.sig(f.key) == self.sig(key)]
                if len(impl) == 1:
                    return impl[0]
                return None
            if self.all_overriders(name):
                return None
        return fn

    def all_overriders(self, name):
        out = []
        todo = [name]
        seen = set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for f in self.db.overriders.get(n, []):
                if f not in out:
                    out.append(f)
                    todo.append(f.name)
        return out

    def linear_bases(self, cls):
        out = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            d = self.db.classes.get(c)
            if d:
                for b in d["bases"]:
                    todo.append(re.sub(r"<.*", "", b))
        return out

    @staticmethod
    def sig(key):
        return key[key.find("("):].split("@")[0]

    def can_inline(self, fn, name, fr):
        if fr.depth >= self.rule.max_depth:
            return False
        if fn.key in fr.keys:
            return False
        if self.rule.stop(name, fn):
            return False
        return fn.body is not None

    def inline(self, fn, recv, rplace, vs, args_e, modes, s, fr, node):
        self.stats["inlined"] += 1
        self.analysed.add(fn.key)
        fid = mk("frame", fr.id, id(node), fn.key).uid
        this = recv if recv is not None else (fr.this if fn.cls else None)
        nf = Frame(fid, fn, this, fr.depth + 1, keys=fr.keys + (fn.key,), file=fn.rel())
        # place of each by-reference argument
        for i, p in enumerate(fn.params):
            if i < len(vs):
                val = vs[i]
                if p[3] in ("r", "p") and i < len(args_e) and self.is_lvalue(args_e[i]):
                    a = args_e[i]
                    if p[3] == "p" and a[0] != "addr":
                        rp = self.lv(a, s, fr)[0][1]
                        rp = self.resolve(rp, s)
                        # a pointer variable: alias so pointee updates are seen
                        s.env[(fid, p[0])] = ("ref", rp) if rp[0] in ("v", "f") and rp != ("v", fid, p[0]) else val
                        continue
                    rp = self.resolve(self.lv(a, s, fr)[0][1], s)
                    if rp[0] != "t" and rp != ("v", fid, p[0]):
                        s.env[(fid, p[0])] = ("ref", rp)
                        continue
                s.env[(fid, p[0])] = val
            else:
                s.env[(fid, p[0])] = mk("default", fn.key, i)
        saved_locks = None
        self.rule.on_enter(self, s, nf)
        o = self.ex(fn.body, [s], nf)
        res = [(x, VOID) for x in o.n] + [(x, v) for x, v, _ in o.ret]
        self._pending_exc = o.exc
        if o.exc and self.exc_sink is not None:
            self.exc_sink.extend(o.exc)
        for x, _ in res:
            for k in [k for k in x.env if k[0] == fid]:
                del x.env[k]
        return self.cap_results(res, ("ret", fid))

    exc_sink = None

    def rkey(self, s, v):
        if v.op == "c" or v.op == "null" or v.op == "enum":
            return v
        k = s.known(mk("ok", v))
        h = s.known(mk("has", v))
        b = s.known(v) if v.op in ("eq", "lt", "ok", "has", "haskey", "call", "not") else None
        return (k, h, b)

    def cap_results(self, res, site):
        if len(res) <= 1:
            return res
        groups = {}
        for s, v in res:
            groups.setdefault((s.key(), self.rkey(s, v)), []).append((s, v))
        out = []
        ng = len(groups)
        per = max(1, self.RCAP // ng)
        for g in groups.values():
            while len(g) > per:
                (s1, v1), (s2, v2) = g.pop(), g.pop()
                m = self.join(s1, s2, site)
                if v1 is v2:
                    v = v1
                else:
                    v = mk("hav", site, "ret")
                    PROV.setdefault(v, set()).update((v1, v2))
                    for mkf in ("ok", "has"):
                        a1, a2 = s1.known(mk(mkf, v1)), s2.known(mk(mkf, v2))
                        if a1 is not None and a1 is a2:
                            m.facts[mk(mkf, v)] = a1
                g.append((m, v))
            out += g
        return out

    def invoke_value(self, f, vs, args_e, s, fr, node, line):
        if f.op == "lambda":
            return self.call_lambda(f, vs, s, fr, node)
        if f.op == "fn":
            fn = self.db.funcs.get(f.args[1])
            if fn is not None and self.can_inline(fn, fn.name, fr):
                return self.inline(fn, None, None, vs, args_e, "", s, fr, node)
        c = self.mkcall("(indirect)", f, tuple(vs), line, node, fr, "icall")
        self.rule.on_call(self, s, c)
        t = mk("call", "(indirect)", f, tuple(vs), mk("site", fr.id, id(node)).uid)
        c.term = t
        self.rule.after_call(self, s, c, t)
        return [(s, t)]

    def call_lambda(self, lam, vs, s, fr, node):
        e, dfr, caps = self.closures[lam]
        if fr.depth >= self.rule.max_depth + 2 or ("lam", id(e)) in fr.keys:
            return [(s, mk("call", "(lambda)", lam, tuple(vs), mk("site", fr.id, id(node)).uid))]
        fid = mk("frame", fr.id, id(node), id(e)).uid
        nf = Frame(fid, dfr.func, dfr.this, fr.depth + 1, parent=dfr, caps=caps, keys=fr.keys + (("lam", id(e)),), file=dfr.file)
        for i, p in enumerate(e[3]):
            s.env[(fid, p[0])] = vs[i] if i < len(vs) else mk("param", p[1], "lambda%d" % e[1])
        o = self.ex(e[4], [s], nf)
        res = [(x, VOID) for x in o.n] + [(x, v) for x, v, _ in o.ret]
        if o.exc and self.exc_sink is not None:
            self.exc_sink.extend(o.exc)
        for x, _ in res:
            for k in [k for k in x.env if k[0] == fid]:
                del x.env[k]
        return self.cap_results(res, ("lret", fid))

    SYNC = re.compile(r"^(std::(for_each|transform|sort|find_if|remove_if|accumulate|generate|any_of|all_of|none_of|copy_if|count_if|"
                      r"min_element|max_element|partition|lower_bound|upper_bound)|absl::c_\w+|absl::StrJoin|absl::erase_if|absl::visit|std::visit|std::invoke|std::call_once|absl::call_once)$")

    def escape_lambda(self, lam, callee, s, fr):
        """A lambda handed to code we do not see: it may run any number of
        times (now if the callee is synchronous, otherwise later)."""
        sync = bool(self.SYNC.match(callee))
        self.run_deferred(lam, s, fr, sync)

    def run_deferred(self, lam, s, fr, sync=False):
        if lam not in self.closures:
            return
        e, dfr, caps = self.closures[lam]
        if ("lam", id(e)) in fr.keys or fr.depth >= self.rule.max_depth + 2:
            return
        c = s.copy()
        if not sync:
            c.locks = ()
            c.raii = ()
        rec = {}
        self.recorders.append(rec)
        vs = [mk("param", p[1], "lambda%d" % e[1]) for p in e[3]]
        if not sync:
            self.rule.on_lambda(self, c, fr, e)
        try:
            for x, v in self.call_lambda(lam, vs, c, fr, e):
                if not sync:
                    self.rule.on_lambda_exit(self, x, v, fr, e)
                else:
                    self.rule.on_sync_lambda(self, x, v, fr, e)
        finally:
            self.recorders.pop()
        # captured-by-reference variables written by the body may change
        for place, vals in rec.items():
            if place[0] == "v" and (place[1], place[2]) in s.env and not isinstance(s.env[(place[1], place[2])], tuple):
                old = s.env[(place[1], place[2])]
                h = mk("hav", ("lam", id(e)), place[2])
                PROV.setdefault(h, set()).update(vals)
                PROV[h].add(old)
                self.write(place, h, s, 0, fr)
            elif place[0] == "f" and sync:
                h = mk("hav", ("lam", id(e)), place[2])
                PROV.setdefault(h, set()).update(v for v in vals if isinstance(v, T))
                s.mem[place] = h

    # ---------------------------------------------------------- conditions
    def cond(self, e, st, fr, line=0):
        """-> (states where true, states where false)"""
        k = e[0]
        if k == "and":
            t1, f1 = self.cond(e[1], st, fr, line)
            T_, F_ = [], list(f1)
            for s in t1:
                t2, f2 = self.cond(e[2], s, fr, line)
                T_ += t2
                F_ += f2
            return T_, F_
        if k == "or":
            t1, f1 = self.cond(e[1], st, fr, line)
            T_, F_ = list(t1), []
            for s in f1:
                t2, f2 = self.cond(e[2], s, fr, line)
                T_ += t2
                F_ += f2
            return T_, F_
        if k == "un" and e[1] == "!":
            t, f = self.cond(e[2], st, fr, line)
            return f, t
        if k == "call" and e[1] == "__builtin_expect":
            return self.cond(e[3][0], st, fr, line)
        if k == "cond":
            t, f = self.cond(e[1], st, fr, line)
            T_, F_ = [], []
            for s in t:
                a, b = self.cond(e[2], s, fr, line)
                T_ += a
                F_ += b
            for s in f:
                a, b = self.cond(e[3], s, fr, line)
                T_ += a
                F_ += b
            return T_, F_
        if k == "move" or k == "cast" and e[1] == "bool":
            return self.cond(e[1] if k == "move" else e[2], st, fr, line)
        T_, F_ = [], []
        for s, v in self.ev(e, st, fr):
            a, p = as_atom(v)
            self.stats["branches"] += 1
            kv = s.known(a)
            if kv is None and a.op == "quant":
                pass
            if kv is not None:
                (T_ if kv == p else F_).append(s)
                continue
            ln = line or (fr.func.line if fr.func else 0)
            s2 = s.copy()
            s.assume(a, p)
            s2.assume(a, not p)
            s.trail = ((fr.file, ln, a, p, True), s.trail)
            s2.trail = ((fr.file, ln, a, not p, False), s2.trail)
            self.rule.on_branch(self, s, a, p, ln, fr)
            self.rule.on_branch(self, s2, a, not p, ln, fr)
            T_.append(s)
            F_.append(s2)
        return T_, F_

    def conds(self, e, sts, fr, line):
        T_, F_ = [], []
        for s in sts:
            t, f = self.cond(e, s, fr, line)
            T_ += t
            F_ += f
        return self.cap(T_, ("ct", id(e), fr.id)), self.cap(F_, ("cf", id(e), fr.id))

    # ---------------------------------------------------------- joins
    def cap(self, sts, site):
        if len(sts) <= 1:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(s.key(), []).append(s)
        per = max(2, self.CAP // len(groups))
        out = []
        for g in groups.values():
            if len(g) > 1:
                uniq = []
                for s in g:
                    if not any(s.env == u.env and s.facts == u.facts and s.mem == u.mem for u in uniq):
                        uniq.append(s)
                g = uniq
            while len(g) > per:
                # join the most recent with the one it shares most with
                a = g.pop()
                b = g.pop(self.nearest(a, g))
                g.append(self.join(a, b, site))
            out += g
        return out

    @staticmethod
    def nearest(a, g):
        fa = a.facts
        best, bi = None, len(g) - 1
        for i in range(len(g) - 1, -1, -1):
            fb = g[i].facts
            lost = sum(1 for k, v in fa.items() if fb.get(k) is not v) + sum(1 for k, v in fb.items() if fa.get(k) is not v)
            if best is None or lost < best:
                best, bi = lost, i
        return bi

    def join(self, a, b, site):
        n = a.copy()
        n.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        n.univ = {k: v for k, v in a.univ.items() if b.univ.get(k) is v}
        n.vals = {k: v for k, v in a.vals.items() if b.vals.get(k) is v}
        for k in list(n.env):
            va, vb = a.env[k], b.env.get(k)
            if va is vb or va == vb:
                continue
            if vb is None:
                del n.env[k]
                continue
            if isinstance(va, tuple) or isinstance(vb, tuple):
                n.env[k] = va if isinstance(va, T) else mk("hav", site, k)
                continue
            n.env[k] = self.phi(a, b, va, vb, site, k, n)
        for k in set(a.mem) | set(b.mem):
            va = a.mem.get(k)
            vb = b.mem.get(k)
            if va is vb:
                continue
            if va is None:
                va = self.default_read(k, a)
            if vb is None:
                vb = self.default_read(k, b)
            n.mem[k] = va if va is vb else self.phi(a, b, va, vb, site, k, n)
        for k in set(a.epoch) | set(b.epoch):
            if a.epoch.get(k) != b.epoch.get(k):
                n.epoch[k] = mk("site", site, "epoch").uid
        return n

    @staticmethod
    def default_read(k, s):
        if k[0] == "f":
            ep = s.epoch.get(k[1], 0)
            fe = s.epoch.get((k[1], k[2]))
            return mk("fld", k[2], k[1], ep if fe is None else (ep, fe))
        if k[0] == "i":
            return mk("idx", k[1], k[2])
        return mk("gvar", k[1])

    def phi(self, a, b, va, vb, site, key, n):
        h = mk("hav", site, key)
        PROV.setdefault(h, set()).update((va, vb))
        for f in ("ok", "has"):
            x, y = a.known(mk(f, va)), b.known(mk(f, vb))
            if x is not None and x is y:
                n.facts[mk(f, h)] = x
        for k, v in a.facts.items():
            if k.op in ("eq", "lt") and va in k.args:
                k2 = mk(k.op, *[vb if x is va else x for x in k.args])
                if b.known(k2) is v:
                    n.facts[mk(k.op, *[h if x is va else x for x in k.args])] = v
        return h

    # ---------------------------------------------------------- statements
    def ex(self, s, sts, fr):
        o = Out()
        if s is None:
            o.n = sts
            return o
        if not sts:
            return o
        self.tick(len(sts))
        m = getattr(self, "s_" + s[0], None)
        if m is None:
            o.n = sts
            return o
        return m(s, sts, fr)

    def s_expr(self, s, sts, fr):
        o = Out()
        for st in sts:
            o.n += [x for x, _ in self.ev(s[2], st, fr)]
        o.n = self.cap(o.n, ("x", id(s), fr.id))
        return o

    def s_seq(self, s, sts, fr):
        o = Out()
        o.n = sts
        for x in s[1]:
            r = self.ex(x, o.n, fr)
            o.n = r.n
            o.absorb(r)
        return o

    def s_block(self, s, sts, fr):
        o = Out()
        cur = sts
        base = {}
        scope = mk("scope", id(s), fr.id).uid
        for st in cur:
            st.raii = st.raii + ((scope, "mark"),)
        for x in s[1]:
            r = self.ex(x, cur, fr)
            o.absorb(r)
            cur = self.cap(r.n, ("b", id(x), fr.id))
            if not cur:
                break
        o.n = cur
        o.n = self.leave(o.n, scope, fr)
        rr = []
        for st, v, ln in o.ret:
            for st2 in self.leave([st], scope, fr):
                rr.append((st2, v, ln))
        o.ret = rr
        o.brk = self.leave(o.brk, scope, fr)
        o.cont = self.leave(o.cont, scope, fr)
        o.exc = [(z, v, ln) for st, v, ln in o.exc for z in self.leave([st], scope, fr)]
        return o

    def leave(self, sts, scope, fr):
        out = []
        for st in sts:
            cur = [st]
            while True:
                nxt = []
                done = True
                for x in cur:
                    if not x.raii:
                        nxt.append(x)
                        continue
                    top = x.raii[-1]
                    if top[0] == scope and top[1] == "mark":
                        x.raii = x.raii[:-1]
                        nxt.append(x)
                        continue
                    if not any(t[0] == scope for t in x.raii):
                        nxt.append(x)
                        continue
                    x.raii = x.raii[:-1]
                    done = False
                    if top[1] == "lock":
                        l = list(x.locks)
                        if top[2] in l:
                            l.remove(top[2])
                        x.locks = tuple(l)
                        nxt.append(x)
                    elif top[1] == "cleanup":
                        for y, _ in self.call_lambda(top[2], [], x, fr, ("cleanup", top[0])):
                            nxt.append(y)
                    else:
                        nxt.append(x)
                cur = nxt
                if done:
                    break
            out += cur
        return out

    def cur_scope(self, st):
        for t in reversed(st.raii):
            if t[1] == "mark":
                return t[0]
        return 0

    def s_decl(self, s, sts, fr):
        o = Out()
        line, vid, name, typ, init = s[1], s[2], s[3], s[4], s[5]
        cls = re.sub(r"^const ", "", typ)
        cls = re.sub(r"<.*", "", cls)
        for st in sts:
            if len(s) > 6 and s[6]:
                # function-static: value persists between calls
                st.env[(fr.id, vid)] = ("ref", ("g", s[7]))
                if init is not None:
                    for s2, v in self.ev(init, st, fr):
                        o.n.append(s2)
                else:
                    o.n.append(st)
                continue
            if cls in RAII_LOCKS:
                arg = None
                if init is not None and init[0] == "ctor" and init[2]:
                    arg = init[2][0]
                if arg is not None:
                    for s2, p in self.lv(arg, st, fr):
                        rp = self.resolve(p, s2)
                        lid = self.lock_id(rp, self.read(p, s2))
                        self.rule.on_acquire(self, s2, lid, line, fr)
                        self.acquire(lid, s2, mk("site", fr.id, id(init)).uid)
                        s2.locks = s2.locks + (lid,)
                        s2.raii = s2.raii + ((self.cur_scope(s2), "lock", lid, ("v", fr.id, vid)),)
                        s2.env[(fr.id, vid)] = mk("lockobj", str(lid[0]))
                        c = self.mkcall(cls, None, (self.read(p, s2),), line, init, fr, "lock")
                        self.rule.on_call(self, s2, c)
                        o.n.append(s2)
                    continue
            isref = typ.endswith("&") and init is not None and self.is_lvalue(init)
            if isref and init[0] != "move" and not typ.endswith("&&"):
                for s2, p in self.lv(init, st, fr):
                    rp = self.resolve(p, s2)
                    if p[0] == "f":
                        self.rule.on_read(self, s2, p[2], p[1], line, fr, False)
                    if p[0] == "i":
                        self.rule.on_index(self, s2, p[1], p[2], line, fr)
                    if rp[0] == "t" or rp == ("v", fr.id, vid):
                        s2.env[(fr.id, vid)] = self.read(p, s2)
                    else:
                        s2.env[(fr.id, vid)] = ("ref", rp)
                    o.n.append(s2)
                continue
            if init is None:
                v = mk("uninit", fr.id, vid)
                self.write(("v", fr.id, vid), v, st, line, fr)
                o.n.append(st)
                continue
            for s2, v in self.ev(init, st, fr):
                if isinstance(s2.env.get((fr.id, vid)), tuple):
                    del s2.env[(fr.id, vid)]
                if v.op == "ctor" and not v.args[1]:
                    v = mk("obj", v.args[0], fr.id, vid)
                if cls.startswith("absl::Cleanup") or "Cleanup" in cls.rsplit("::", 1)[-1]:
                    lam = self.find_lambda(v)
                    if lam is not None:
                        s2.raii = s2.raii + ((self.cur_scope(s2), "cleanup", lam),)
                self.write(("v", fr.id, vid), v, s2, line, fr)
                o.n.append(s2)
        return o

    def find_lambda(self, v):
        for x in tm.subterms(v):
            if x.op == "lambda" and x in self.closures:
                return x
        return None

    def s_decomp(self, s, sts, fr):
        o = Out()
        for st in sts:
            for s2, v in (self.ev(s[3], st, fr) if s[3] is not None else [(st, VOID)]):
                for i, b in enumerate(s[2]):
                    s2.env[(fr.id, b[0])] = mk("call", "std::get<%d>" % i, None, (v,), 0)
                o.n.append(s2)
        return o

    def s_if(self, s, sts, fr):
        o = Out()
        line = s[1]
        for pre in (s[2], s[3]):
            if pre is not None:
                r = self.ex(pre, sts, fr)
                sts = r.n
        t, f = self.conds(s[4], sts, fr, line)
        r1 = self.ex(s[5], t, fr)
        r2 = self.ex(s[6], f, fr)
        o.absorb(r1)
        o.absorb(r2)
        o.n = self.cap(r1.n + r2.n, ("if", id(s), fr.id))
        return o

    def s_ret(self, s, sts, fr):
        o = Out()
        for st in sts:
            if s[2] is None:
                o.ret.append((st, VOID, s[1]))
            else:
                for s2, v in self.ev(s[2], st, fr):
                    if v.op == "lambda":
                        self.run_deferred(v, s2, fr)
                    o.ret.append((s2, v, s[1]))
        return o

    def s_break(self, s, sts, fr):
        o = Out()
        o.brk = sts
        return o

    def s_continue(self, s, sts, fr):
        o = Out()
        o.cont = sts
        return o

    def s_unkstmt(self, s, sts, fr):
        o = Out()
        o.n = sts
        return o

    def s_case(self, s, sts, fr):
        return self.ex(s[3], sts, fr)

    def s_default(self, s, sts, fr):
        return self.ex(s[2], sts, fr)

    def s_try(self, s, sts, fr):
        return self.ex(s[2], sts, fr)

    def s_switch(self, s, sts, fr):
        o = Out()
        line = s[1]
        if s[2] is not None:
            sts = self.ex(s[2], sts, fr).n
        body = s[4]
        stmts = body[1] if body and body[0] == "block" else [body]
        # flatten: list of (labels, stmt)
        flat = []
        for x in stmts:
            labels = []
            while x is not None and x[0] in ("case", "default"):
                if x[0] == "case":
                    labels.append(x[2])
                    x = x[3]
                else:
                    labels.append(None)
                    x = x[2]
            flat.append((labels, x))
        has_default = any(None in l for l, _ in flat)
        entry = []   # states pending per index
        for st in sts:
            for s2, v in self.ev(s[3], st, fr):
                entry.append((s2, v))
        start = {}
        out_states = []
        for st, v in entry:
            remaining = st
            seen = False
            dflt = None
            conds = []
            for i, (labels, x) in enumerate(flat):
                for lb in labels:
                    if lb is None:
                        dflt = i
                        continue
                    for s3, cv in self.ev(lb, remaining, fr):
                        conds.append((i, cv))
                        break
            rem = st
            alive = True
            for i, cv in conds:
                if not alive:
                    break
                a, p = self.cmp_eq(v, cv)
                k = rem.known(a)
                if k is not None:
                    if k == p:
                        start.setdefault(i, []).append(rem)
                        alive = False
                    continue
                s1 = rem.copy()
                s1.assume(a, p)
                s1.trail = ((fr.file, line, a, p, True), s1.trail)
                rem.assume(a, not p)
                start.setdefault(i, []).append(s1)
            if alive:
                # exhaustive enum switch without default: remaining state is infeasible
                if dflt is not None:
                    rem.trail = ((fr.file, line, mk("default"), True, True), rem.trail)
                    start.setdefault(dflt, []).append(rem)
                else:
                    if not self.exhaustive(s, conds):
                        out_states.append(rem)
        cur = []
        for i, (labels, x) in enumerate(flat):
            cur = self.cap(cur + start.get(i, []), ("sw", id(x), fr.id))
            r = self.ex(x, cur, fr)
            cur = r.n
            o.brk += r.brk
            o.ret += r.ret
            o.cont += r.cont
            o.exc += r.exc
        o.n = self.cap(cur + o.brk + out_states, ("swj", id(s), fr.id))
        o.brk = []
        return o

    def exhaustive(self, s, conds):
        ty = re.sub(r"^const ", "", s[5] if len(s) > 5 else "")
        while "<" in ty and re.search(r"<[^<>]*>", ty):
            ty = re.sub(r"<[^<>]*>", "", ty)
        en = self.db.enums.get(ty)
        if not en:
            return False
        vals = {tm.cval(cv) for _, cv in conds}
        return all(v in vals for n, v in en if "SENTINEL" not in n)

    # ---------------------------------------------------------- loops
    def s_while(self, s, sts, fr):
        return self.loop(s, sts, fr, s[3], s[4], None, pre=s[2])

    def s_do(self, s, sts, fr):
        return self.loop(s, sts, fr, s[3], s[2], None, do=True)

    def s_for(self, s, sts, fr):
        if s[2] is not None:
            scope = mk("scope", id(s), fr.id).uid
            r = self.ex(s[2], sts, fr)
            sts = r.n
        return self.loop(s, sts, fr, s[3], s[5], s[4])

    def s_rfor(self, s, sts, fr):
        o = Out()
        ev = []
        for st in sts:
            for s2, p in self.lv(s[5], st, fr):
                if p[0] == "f":
                    self.rule.on_read(self, s2, p[2], p[1], s[1], fr, False)
                ev.append((s2, self.read(p, s2)))
        groups = {}
        for s2, v in ev:
            groups.setdefault(v, []).append(s2)
        for v, g in groups.items():
            r = self.loop(s, g, fr, None, s[6], None, rng=v)
            o.absorb(r)
            o.n += r.n
        return o

    def bind_elem(self, s, st, fr, rng):
        el = mk("elem", rng, id(s))
        st.env[(fr.id, s[2])] = el
        for i, b in enumerate(s[7] if len(s) > 7 else []):
            st.env[(fr.id, b[0])] = mk("call", "std::get<%d>" % i, None, (el,), 0)
        return el

    def iteration(self, s, sts, fr, cnd, body, inc, rng, do, pre):
        """One pass: returns (backedge states, exit states, Out)"""
        o = Out()
        exits = []
        if pre is not None:
            sts = self.ex(pre, sts, fr).n
        if rng is not None:
            exits = [x.copy() for x in sts]
            for x in sts:
                self.bind_elem(s, x, fr, rng)
            ins = sts
        elif cnd is not None and not do:
            ins, exits = self.conds(cnd, sts, fr, s[1])
        else:
            ins = sts
        for x in ins:
            self.rule.on_loop(self, x, s, fr)
        r = self.ex(body, ins, fr)
        o.ret += r.ret
        o.exc += r.exc
        o.brk = r.brk
        back = r.n + r.cont
        for x in back:
            self.rule.on_iter(self, x, s, fr)
        back = self.cap(back, ("lb", id(s), fr.id))
        if inc is not None:
            b2 = []
            for x in back:
                b2 += [y for y, _ in self.ev(inc, x, fr)]
            back = b2
        if do and cnd is not None:
            back, ex2 = self.conds(cnd, back, fr, s[1])
            exits += ex2
        return back, exits, o

    def loop(self, s, sts, fr, cnd, body, inc, rng=None, do=False, pre=None):
        self.stats["loops"] += 1
        sts = self.cap_to(sts, 6, ("lh", id(s), fr.id))
        for x in sts:
            self.rule.on_reach(self, x, s, fr)
        loopid = mk("loop", id(s), fr.id).uid
        # pass 1: what does one iteration write?
        self.muted += 1
        try:
            back, _, _ = self.iteration(s, [x.copy() for x in sts], fr, cnd, body, inc, rng, do, pre)
        finally:
            self.muted -= 1
        rec = self.diff(sts, back)
        head = [self.havoc(x, rec, loopid) for x in sts]
        for x, h in zip(sts, head):
            for k, v in h.env.items():
                if isinstance(v, T) and v.op == "hav" and v.args[0] == loopid and isinstance(x.env.get(k), T):
                    tm.START.setdefault(v, set()).add(x.env[k])
        tskeys = {x.key() for x in head}
        if do:
            first = [x.copy() for x in sts]
        # typestate fixpoint
        for _ in range(5):
            new = []
            for x in back:
                h = self.havoc(x, rec, loopid)
                if h.key() not in tskeys:
                    tskeys.add(h.key())
                    new.append(h)
            if not new:
                break
            # facts of the loop head only
            for h in new:
                base = head[0]
                h.facts = {k: v for k, v in h.facts.items() if base.facts.get(k) is v}
                h.univ = {k: v for k, v in h.univ.items() if base.univ.get(k) is v}
                h.vals = {k: v for k, v in h.vals.items() if base.vals.get(k) is v}
            head += new
            self.muted += 1
            try:
                back, _, _ = self.iteration(s, [x.copy() for x in new], fr, cnd, body, inc, rng, do, pre)
            finally:
                self.muted -= 1
        for x in head:
            x.trail = ((fr.file, s[1], mk("loop"), True, True), x.trail)
        heads = [x.copy() for x in head]
        back, exits, o = self.iteration(s, heads, fr, cnd, body, inc, rng, do, pre)
        # pass on writes to enclosing recorders happens through self.write already
        # universal facts: hold for every element when the loop ran to completion
        for x in back or []:
            for k, v in x.env.items():
                h = mk("hav", loopid, k)
                if h in tm.START and isinstance(v, T):
                    tm.STEP.setdefault(h, set()).add(v)
        if back is not None and not do:
            elems = [h for h in self.loop_vars(s, fr, rng, loopid, head) if h.op == "elem" or tm.sweeps(h)]
            common = None
            for x in back:
                fs = {k: v for k, v in x.facts.items() if any(tm.contains(k, el) for el in elems)}
                for k2, v2 in x.univ.items():
                    if any(tm.contains(k2, el) for el in elems):
                        fs[k2] = v2
                common = fs if common is None else {k: v for k, v in common.items() if fs.get(k) is v}
            if common:
                for x in exits:
                    x.univ.update(common)
        r = Out()
        r.n = self.cap(exits + o.brk, ("lx", id(s), fr.id))
        if do and False:
            pass
        r.ret = o.ret
        r.exc = o.exc
        return r

    def diff(self, sts, back):
        """Cells whose value changed on some path back to the loop head."""
        rec = {}
        for b in back:
            for k, v in b.env.items():
                olds = [x.env.get(k) for x in sts]
                if any(o is not None for o in olds) and not any(o is v or o == v for o in olds):
                    rec.setdefault(("v",) + k, set()).add(v)
            for k, v in b.mem.items():
                olds = [x.mem.get(k) for x in sts]
                if not any(o is v for o in olds):
                    if all(o is None for o in olds) and any(self.default_read(k, x) is v for x in sts):
                        continue
                    rec.setdefault(k, set()).add(v)
            for k, v in b.epoch.items():
                if not any(x.epoch.get(k) == v for x in sts):
                    rec.setdefault(("epoch", k), set()).add(VOID)
        return rec

    def loop_vars(self, s, fr, rng, loopid, head):
        if rng is not None:
            return [mk("elem", rng, id(s))]
        out = []
        for h in head[:1]:
            for k, v in h.env.items():
                if isinstance(v, T) and v.op == "hav" and v.args[0] == loopid:
                    out.append(v)
        return out

    def cap_to(self, sts, n, site):
        if len(sts) <= n:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(s.key(), []).append(s)
        per = max(1, n // len(groups))
        out = []
        for g in groups.values():
            while len(g) > per:
                a, b = g.pop(), g.pop()
                g.append(self.join(a, b, site))
            out += g
        return out

    def havoc(self, st, rec, loopid):
        n = st.copy()
        for place, vals in rec.items():
            if place[0] == "v":
                k = (place[1], place[2])
                if k in n.env and not isinstance(n.env[k], tuple):
                    h = mk("hav", loopid, k)
                    PROV.setdefault(h, set()).update(v for v in vals if isinstance(v, T) and v is not h)
                    if n.env[k] is not h:
                        PROV[h].add(n.env[k])
                    n.env[k] = h
            elif place[0] == "epoch":
                n.epoch[place[1]] = loopid
                for k in [k for k in n.mem if k[0] == "f" and (k[1] is place[1] or (k[1], k[2]) == place[1])]:
                    del n.mem[k]
            else:
                h = mk("hav", loopid, place)
                PROV.setdefault(h, set()).update(v for v in vals if isinstance(v, T) and v is not h)
                old = n.mem.get(place)
                if old is None:
                    old = self.default_read(place, n)
                if old is not h:
                    PROV[h].add(old)
                n.mem[place] = h
        return n


def collect_types(fn, out):
    for p in fn.params:
        out[p[0]] = p[2]

    def walk(x):
        if isinstance(x, list):
            if x and x[0] == "decl" and len(x) >= 6:
                out[x[2]] = x[4]
            elif x and x[0] == "rfor":
                out[x[2]] = x[4]
            elif x and x[0] == "lambda":
                for p in x[3]:
                    out[p[0]] = p[2]
            for y in x:
                walk(y)
    walk(fn.body)
