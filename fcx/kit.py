"""Vocabulary shared by the rule modules: hooks, facts, bounds, derivations."""
import re

from . import engine as en
from . import terms as tm
from .db import AnalysisError
from .engine import okness
from .framework import CheckRule
from .terms import mk, const, TRUE, FALSE, NULL, VOID, THIS, T

AnalysisError = AnalysisError


class R(CheckRule):
    """Rule assembled from callables: call, after, write, read, ret, enter,
    lam, branch, loop, iter, index, deref.  Each receives (rule, state, ...)."""
    call = after = write = read = ret = enter = lam = lamret = lamval = branch = loop = reach = iter = index = deref = move = acquire = None

    def on_call(self, eng, st, c):
        if self.call:
            self.call(self, st, c)

    def after_call(self, eng, st, c, ret):
        if self.after:
            self.after(self, st, c, ret)

    def on_write(self, eng, st, place, val, line, fr):
        if self.write:
            self.write(self, st, place, val, line, fr)

    def on_read(self, eng, st, field, base, line, fr, wr):
        if self.read:
            self.read(self, st, field, base, line, fr, wr)

    def on_return(self, eng, st, v, line, fr):
        if self.ret:
            self.ret(self, st, v, line, fr)

    def on_enter(self, eng, st, fr):
        if self.enter:
            self.enter(self, st, fr)

    def on_lambda(self, eng, st, fr, node):
        if self.lam:
            self.lam(self, st, fr, node)

    def on_sync_lambda(self, eng, st, v, fr, node):
        if self.lamval:
            self.eng = eng
            self.lamval(self, st, v, fr, node)

    def on_lambda_exit(self, eng, st, v, fr, node):
        if self.lamret:
            self.lamret(self, st, v, fr, node)

    def on_branch(self, eng, st, atom, pol, line, fr):
        if self.branch:
            self.branch(self, st, atom, pol, line, fr)

    def on_loop(self, eng, st, node, fr):
        if self.loop:
            self.loop(self, st, node, fr)

    def on_reach(self, eng, st, node, fr):
        if self.reach:
            self.reach(self, st, node, fr)

    def on_iter(self, eng, st, node, fr):
        if self.iter:
            self.iter(self, st, node, fr)

    def on_index(self, eng, st, base, idx, line, fr):
        if self.index:
            self.index(self, st, base, idx, line, fr)

    def on_deref(self, eng, st, base, line, fr, typ):
        if self.deref:
            self.deref(self, st, base, line, fr, typ)

    def on_move(self, eng, st, place, val, fr):
        if self.move:
            self.move(self, st, place, val, fr)

    def on_acquire(self, eng, st, lock, line, fr):
        if self.acquire:
            self.acquire(self, st, lock, line, fr)

    def need(self, cond, rid, at, msg, st=None):
        """cond True: obligation met; None: undecided; False: violated.
        at is (file, line) or a Call."""
        f, l = (at.file, at.line) if hasattr(at, "file") else at
        if cond is None:
            self.dunno(self.eng, rid, f, l, msg)
        elif cond:
            self.ok(self.eng, rid, f, l)
        else:
            self.bad(self.eng, rid, f, l, msg, st)
        return cond


# ---- names ------------------------------------------------------------------
def sn(name):
    return name.rsplit("::", 1)[-1]


def isname(c, *names):
    """Call/term whose (qualified or last) name is one of names."""
    n = c.name if hasattr(c, "name") else (c.args[0] if c.op in ("call", "ctor", "new", "upd", "list", "fld", "enum") else "")
    if not isinstance(n, str):
        return False
    n = re.sub(r"<.*>$", "", n)
    return n in names or sn(n) in names


def call_p(*names):
    return lambda t: t.op == "call" and isname(t, *names)


def fld_p(*names):
    return lambda t: t.op == "fld" and isname(t, *names)


def attr_p(name, owner=None):
    """Value of a property of an object: through its accessor or its field."""
    names = (name, name + "_", "get_" + name)

    def p(t):
        if t.op == "call" and t.args[1] is not None and isname(t, *names):
            o = t.args[1]
        elif t.op == "fld" and isname(t, *names):
            o = t.args[1]
        elif t.op == "call" and name in ("length", "size") and isname(t, "size", "length") and t.args[1] is not None:
            o = t.args[1]
        else:
            return False
        return owner is None or owner(o)
    return p


def enum_p(*names):
    return lambda t: t.op == "enum" and sn(t.args[0]) in names


def has_sub(t, pred):
    return isinstance(t, T) and any(pred(x) for x in tm.subterms(t))


def flows_from(t, pred):
    return isinstance(t, T) and any(pred(x) for x in tm.closure(t))


LOSSY = re.compile(r"^(substr|front|back|at|first|last|subspan|strlen|size|length|empty|hash|Hash|FingerPrint\w*|min|max|find\w*|compare|bit_width|operator\[\])$")


def whole(t, pred, seen=None):
    """A term satisfying pred goes into t without being cut down to a part of
    itself or to a summary on the way."""
    if seen is None:
        seen = set()
    todo = [t]
    while todo and len(seen) < 4000:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        if x.op == "idx" or x.op == "call" and LOSSY.match(sn(x.args[0])) or x.op == "arith" and x.args[0] in ("%", "/", ">>", "&"):
            continue
        todo.extend(x.args)
        todo.extend(tm.PROV.get(x) or ())
    return False


def full_count(st, i):
    """The loop counter i starts at nought and is bounded by a limit taken as it
    is: True; it leaves out the first or last: False; not recognised: None."""
    s = [x for x in tm.START.get(i, ()) if tm.is_int(x)]
    if len(s) == 1 and tm.cval(s[0]) > 0:
        return False
    got = None
    for k, p in st.facts.items():
        if k.op != "lt":
            continue
        a, b = k.args if p else (k.args[1], k.args[0])
        c, l = tm._lin(tm.add(b, a, -1))
        if l.get(i) == -1 and len(l) == 2 and list(l.values()).count(1) == 1:
            # a < b, or a <= b: i < limit + c
            c += 0 if p else 1
            got = c == 0 if got is None else got and c == 0
    return got if len(s) == 1 or got is False else None


def any_p(*preds):
    return lambda t: any(p(t) for p in preds)


# ---- facts ------------------------------------------------------------------
def fact(st, pred, pol=None):
    """First (atom, polarity) recorded on the path satisfying pred(atom, pol)."""
    for k, v in st.facts.items():
        if (pol is None or v is pol) and pred(k):
            return k, v
    return None


def ufact(st, pred, pol=None):
    for k, v in st.univ.items():
        if (pol is None or v is pol) and pred(k):
            return k, v
    return None


def _forms(atom, pol):
    """Linear consequences of an atom: list of (lin dict, const) with sum+const >= 0."""
    out = []
    if atom.op == "lt":
        a, b = atom.args
        if pol:
            d = tm.add(b, a, -1)
            c, m = tm._lin(d)
            out.append((m, c - 1))
        else:
            d = tm.add(a, b, -1)
            c, m = tm._lin(d)
            out.append((m, c))
    elif atom.op == "eq" and pol:
        a, b = atom.args
        if a.op == "enum" or (a.op == "c" and a.args[0] != "int"):
            return out
        for x, y in ((a, b), (b, a)):
            c, m = tm._lin(tm.add(x, y, -1))
            out.append((m, c))
    elif atom.op == "eq" and not pol and atom.args[0].op == "c" and atom.args[0].args[1] == 0 and tm._is_size(atom.args[1]):
        out.append(({atom.args[1]: 1}, -1))
    return out


def bounds(st, univ=False):
    """All recorded inequalities as (positive terms, negative terms, k):
    sum(pos) - sum(neg) + k >= 0."""
    src = st.univ if univ else st.facts
    for k, v in src.items():
        for m, c in _forms(k, v):
            yield m, c


def at_least(st, X, Y, k=0, univ=False):
    """Is  X - Y >= k  known?  X and Y are predicates over terms, terms, or
    integers.  Accepts any algebraic arrangement of the comparison."""
    off = 0
    fixed = {}
    if isinstance(X, T):
        c, m = tm._lin(X)
        off += c
        for t, q in m.items():
            fixed[t] = fixed.get(t, 0) + q
        X = None
    elif isinstance(X, int):
        off += X
        X = None
    if isinstance(Y, T):
        c, m = tm._lin(Y)
        off -= c
        for t, q in m.items():
            fixed[t] = fixed.get(t, 0) - q
        Y = None
    elif isinstance(Y, int):
        off -= Y
        Y = None
    for m, c in bounds(st, univ):
        rest = dict(m)
        for t, q in fixed.items():
            if rest.get(t) == q:
                del rest[t]
            else:
                rest = None
                break
        if rest is None:
            continue
        pos = [t for t, q in rest.items() if q == 1]
        neg = [t for t, q in rest.items() if q == -1]
        if len(pos) + len(neg) != len(rest):
            continue
        if len(pos) != (1 if X else 0) or len(neg) != (1 if Y else 0):
            continue
        if X and not X(pos[0]) or Y and not Y(neg[0]):
            continue
        # X - Y - off-free part + c >= 0   =>   X - Y >= off - c
        if off - c >= k:
            return True
    return False


def _eqdiff(st, X, Y, pol, univ=False):
    """A recorded (in)equality between X and Y (predicates, terms or ints)."""
    src = st.univ if univ else st.facts
    for a, v in src.items():
        if a.op != "eq" or v is not pol:
            continue
        x, y = a.args
        for p, q in ((x, y), (y, x)):
            if _side(X, p) and _side(Y, q):
                return True
        if x.op == "enum" or x.op == "c" and x.args[0] != "int":
            continue
        c0, m0 = tm._lin(tm.add(x, y, -1))
        off, fixed, X2, Y2 = 0, {}, None, None
        for s, Z in ((1, X), (-1, Y)):
            if isinstance(Z, T):
                c, m = tm._lin(Z)
                off += s * c
                for t, k in m.items():
                    fixed[t] = fixed.get(t, 0) + s * k
            elif isinstance(Z, int):
                off += s * Z
        for sg in (1, -1):
            rest = {t: sg * k for t, k in m0.items()}
            bad = False
            for t, k in fixed.items():
                if rest.get(t) == k:
                    del rest[t]
                else:
                    bad = True
            if bad or sg * c0 != off:
                continue
            pos = [t for t, k in rest.items() if k == 1]
            neg = [t for t, k in rest.items() if k == -1]
            if len(pos) + len(neg) != len(rest):
                continue
            cx, cy = callable(X) and not isinstance(X, T), callable(Y) and not isinstance(Y, T)
            if len(pos) == (1 if cx else 0) and len(neg) == (1 if cy else 0) and (not cx or X(pos[0])) and (not cy or Y(neg[0])):
                return True
    return False


def _side(Z, t):
    if isinstance(Z, T):
        return Z is t
    if isinstance(Z, int):
        return tm.is_const(t) and tm.cval(t) == Z
    return bool(Z(t))


def equal(st, X, Y, univ=False):
    return _eqdiff(st, X, Y, True, univ) or at_least(st, X, Y, 0, univ) and at_least(st, Y, X, 0, univ)


def differs(st, X, Y, univ=False):
    return _eqdiff(st, X, Y, False, univ) or at_least(st, X, Y, 1, univ) or at_least(st, Y, X, 1, univ)


def bool_cases(st, v):
    """(truth value, state) alternatives for a returned boolean."""
    a, p = tm.as_atom(v)
    if a is TRUE:
        return [(p, st)]
    k = st.known(a)
    if k is not None:
        return [(k == p, st)]
    out = []
    for pol in (True, False):
        s = st.copy()
        s.assume(a, pol)
        out.append((pol == p, s))
    return out


def size_p(pred):
    """Term is the size of something satisfying pred."""
    return lambda t: t.op == "call" and sn(t.args[0]) in ("size", "length", "len") and (
        (t.args[1] is not None and pred(t.args[1])) or (t.args[1] is None and t.args[2] and pred(t.args[2][0])))


def is_(t):
    return lambda x: x is t


def enum_is(st, pred, *names):
    """Known: some term satisfying pred equals one of the enumerators."""
    return fact(st, lambda a: a.op == "eq" and a.args[0].op == "enum" and sn(a.args[0].args[0]) in names and pred(a.args[1]), True)


def enum_not(st, pred, *names):
    if fact(st, lambda a: a.op == "eq" and a.args[0].op == "enum" and sn(a.args[0].args[0]) in names and pred(a.args[1]), False):
        return True
    # equal to a different enumerator
    return bool(fact(st, lambda a: a.op == "eq" and a.args[0].op == "enum" and sn(a.args[0].args[0]) not in names and pred(a.args[1]), True))


def joined(t):
    """A value that may come from several paths."""
    return t.op in ("hav", "unk")


def opaque(st, pred):
    """A path condition we cannot look into mentions a term satisfying pred:
    the result of a call (not a plain comparison of accessors)."""
    for k, v in list(st.facts.items()) + list(st.univ.items()):
        x = k
        while x.op in ("ok", "has", "not") and isinstance(x.args[0], T):
            x = x.args[0]
        if x.op in ("call", "quant", "unk") and (x.op != "call" or x.args[2]):
            if any(isinstance(a, T) and has_sub(a, pred) for a in (x.args[2] if x.op == "call" else x.args)):
                return True
    return False


def status_of(st, v):
    """True = OK, False = error, None = unknown, for a returned status-like value."""
    k = okness(v)
    if k is not None:
        return k
    if v.op == "stcode" and v.args[0].op == "call" and sn(v.args[0].args[0]) in ("code", "raw_code") and v.args[0].args[1] is not None:
        return status_of(st, v.args[0].args[1])
    return st.known(mk("ok", v))


def err_return(st, v):
    return status_of(st, v) is False


def root(t):
    """Strip accessors / indexing to the object a value was taken from."""
    while True:
        if t.op in ("idx", "elem"):
            t = t.args[0]
        elif t.op == "fld":
            if t.args[1] is None or t.args[1] is THIS:
                return t
            t = t.args[1]
        elif t.op == "call" and t.args[1] is not None:
            t = t.args[1]
        elif t.op == "upd":
            t = t.args[1]
        else:
            return t


def base_field(t):
    """Name of the field of `this` a value was read from, through updates."""
    r = root(t)
    return sn(r.args[0]) if r.op == "fld" else None


def recv_field(c):
    """Member the receiver expression of a call names (source level)."""
    n = c.node[2] if c.node and c.node[0] == "call" else None
    while n:
        if n[0] in ("deref", "addr", "move"):
            n = n[1]
        elif n[0] == "cast":
            n = n[2]
        elif n[0] == "call" and n[2] is not None and sn(n[1]) in ("get", "value", "operator->", "operator*"):
            n = n[2]
        else:
            break
    return sn(n[1]) if n and n[0] == "fld" else None


def entries(ctx, *names, files=None):
    out = []
    for n in names:
        fs = ctx.db.named(n) or [f for f in ctx.db.funcs.values() if f.name.endswith("::" + n)]
        if files:
            fs = [f for f in fs if re.search(files, f.rel())]
        if not fs:
            raise AnalysisError("anchor vanished: function %s" % n)
        out += fs
    return out


def methods(ctx, cls, public_only=False):
    """Functions of a class (by qualified or last name)."""
    out = []
    for f in ctx.db.funcs.values():
        c = f.cls or ""
        if (c == cls or sn(c) == cls) and f.body is not None:
            if not public_only or f.access == 0:
                out.append(f)
    if not out:
        raise AnalysisError("anchor vanished: class %s" % cls)
    return sorted(out, key=lambda f: (f.file, f.line))


def in_files(ctx, regex):
    fs = ctx.db.in_files(regex)
    if not fs:
        raise AnalysisError("anchor vanished: no functions in %s" % regex)
    return fs


def roots_of(ctx, funcs):
    """Functions of the list not called by another one of the list: analysing
    these (with inlining) covers the helpers in context."""
    called = set()
    keys = {f.key for f in funcs}
    for f in funcs:
        for n in walk(f.body):
            if n and n[0] == "call" and n[7] in keys and n[7] != f.key:
                called.add(n[7])
    return [f for f in funcs if f.key not in called]


def walk(x):
    """All IR nodes of a body."""
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            if isinstance(y, list):
                for z in walk(y):
                    yield z


def cut_short(node):
    """A walk over a whole collection that may end before its last element."""
    def look(x, top):
        if not isinstance(x, list):
            return False
        k = x[0] if x and isinstance(x[0], str) else None
        if k == "lambda" or k in ("for", "rfor", "while", "do", "switch") and not top:
            return False
        return k == "break" or any(look(y, False) for y in x)
    return node[0] == "rfor" and look(node, True)


def calls_in(fn, *names):
    for n in walk(fn.body):
        if n[0] == "call" and len(n) > 4 and (n[1] in names or sn(n[1]) in names):
            yield n


def admits(ctx, st, p, values):
    """Values of the integer satisfying p that the facts on this path allow.
    Returns (values allowed by facts that are all understood, values that some
    fact not understood leaves open)."""
    rel = [(a, pol) for a, pol in st.facts.items() if has_sub(a, p)]

    def ev(t, v):
        if p(t):
            return v
        if tm.is_const(t):
            x = tm.cval(t)
            return x if isinstance(x, (int, bool)) else None
        if t.op == "enum":
            x = enum_value(ctx, t)
            return x
        if t.op == "lin":
            s = t.args[0]
            for k, x in t.args[1]:
                y = ev(x, v)
                if y is None:
                    return None
                s += k * y
            return s
        if t.op == "arith":
            x, y = ev(t.args[1], v), ev(t.args[2], v)
            if x is None or y is None:
                return None
            r = tm.arith(t.args[0], tm.const(x), tm.const(y))
            return tm.cval(r) if tm.is_const(r) else None
        if t.op in ("eq", "lt"):
            x, y = ev(t.args[0], v), ev(t.args[1], v)
            if x is None or y is None:
                return None
            return x == y if t.op == "eq" else x < y
        if t.op == "not":
            x = ev(t.args[0], v)
            return None if x is None else not x
        return None
    sure, maybe = [], []
    for v in values:
        rs = [(ev(a, v), pol) for a, pol in rel]
        if any(x is not None and bool(x) != pol for x, pol in rs):
            continue
        (maybe if any(x is None for x, _ in rs) else sure).append(v)
    return sure, maybe


def enum_value(ctx, t):
    n = sn(t.args[0])
    for vs in ctx.db.enums.values():
        for e in vs:
            if isinstance(e, (list, tuple)) and len(e) >= 2 and e[0] == n:
                try:
                    return int(e[1])
                except (TypeError, ValueError):
                    return None
    return None
