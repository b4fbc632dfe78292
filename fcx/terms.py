"""Hash-consed value terms shared by all analyses.

A term is an immutable value number.  Two syntactically different expressions
that denote the same value (after copy propagation, operand ordering, negation
and a few library identities) get the same term, so rules can talk about "the
size of the received list" instead of about spelling.
"""


class T:
    __slots__ = ("op", "args", "uid", "_prov", "_sub")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        # by age, not by address: sets come out in the same order every time
        return self.uid


_table = {}
_next = [1]
PROV = {}          # havoc/phi term -> set of terms that may have flowed in


def mk(op, *args):
    if op == "ok":
        # a status made with the code of another one is OK exactly when that one is
        x = args[0]
        while isinstance(x, T) and x.op == "stcode" and isinstance(x.args[0], T) and x.args[0].op == "call" and x.args[0].args[1] is not None \
                and x.args[0].args[0].rsplit("::", 1)[-1] in ("code", "raw_code"):
            x = x.args[0].args[1]
        args = (x,)
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.uid = _next[0]
        t._sub = None
        _next[0] += 1
        _table[key] = t
    return t


def const(v):
    return mk("c", type(v).__name__, v)


TRUE = const(True)
FALSE = const(False)
NULL = mk("null")
VOID = mk("void")
THIS = mk("this")


def is_const(t):
    return t.op == "c" or t.op == "enum"


def cval(t):
    if t.op == "c":
        return t.args[1]
    if t.op == "enum":
        return t.args[1]
    return None


def is_int(t):
    return t.op == "c" and t.args[0] == "int" or t.op == "enum"


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t) if isinstance(t, str) else str(t)
    if depth > 7:
        return "…"
    s = lambda x: show(x, depth + 1)
    if t.op == "c":
        return repr(t.args[1]) if t.args[0] == "str" else str(t.args[1])
    if t.op == "enum":
        return t.args[0].split("::")[-1]
    if t.op == "null":
        return "null"
    if t.op == "this":
        return "this"
    if t.op == "param":
        return t.args[0]
    if t.op == "fld":
        b = s(t.args[1])
        n = t.args[0].split("::")[-1]
        return n if b == "this" else b + "." + n
    if t.op == "call":
        n = "::".join(t.args[0].split("::")[-1:])
        r = t.args[1]
        a = ", ".join(s(x) for x in t.args[2])
        return (s(r) + "." if r is not None else "") + n + "(" + a + ")"
    if t.op in ("eq", "lt"):
        return "(%s %s %s)" % (s(t.args[0]), {"eq": "==", "lt": "<"}[t.op], s(t.args[1]))
    if t.op == "lin":
        out = []
        for c, x in t.args[1]:
            out.append(("" if c == 1 else "-" if c == -1 else "%s*" % c) + s(x))
        if t.args[0] or not out:
            out.append(str(t.args[0]))
        return "(" + " + ".join(out) + ")"
    if t.op == "arith":
        return "(%s %s %s)" % (s(t.args[1]), t.args[0], s(t.args[2]))
    if t.op == "idx":
        return "%s[%s]" % (s(t.args[0]), s(t.args[1]))
    if t.op == "elem":
        return "each(" + s(t.args[0]) + ")"
    if t.op == "hav":
        return "~" + str(t.args[1] if not isinstance(t.args[1], T) else s(t.args[1]))
    if t.op == "ctor":
        return t.args[0].split("::")[-1] + "{" + ", ".join(s(x) for x in t.args[1]) + "}"
    return t.op + "(" + ", ".join(s(x) if isinstance(x, T) else
                                  ("[" + ", ".join(s(y) for y in x) + "]" if isinstance(x, tuple) else str(x))
                                  for x in t.args if x is not None) + ")"


def subterms(t):
    """All terms reachable structurally from t (including t)."""
    if t._sub is not None:
        return t._sub
    out = {t}
    for a in t.args:
        if isinstance(a, T):
            out |= subterms(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    out |= subterms(b)
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, T):
                            out |= subterms(c)
    t._sub = frozenset(out)
    return t._sub


def contains(t, x):
    return x in subterms(t)


def closure(t, limit=4000):
    """Structural subterms plus everything that may have flowed into havoced
    terms among them."""
    seen = set()
    todo = [t]
    while todo and len(seen) < limit:
        x = todo.pop()
        if x in seen:
            continue
        for y in subterms(x):
            if y not in seen:
                seen.add(y)
                p = PROV.get(y)
                if p:
                    todo.extend(p)
    return seen


# ---- arithmetic ---------------------------------------------------------
def _lin(t):
    if t.op == "lin":
        return t.args[0], dict((x, c) for c, x in t.args[1])
    if t.op == "c" and t.args[0] == "int":
        return t.args[1], {}
    return 0, {t: 1}


def _mklin(c, m):
    items = tuple(sorted(((k, x) for x, k in m.items() if k != 0), key=lambda p: p[1].uid))
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][0] == 1:
        return items[0][1]
    return mk("lin", c, items)


def add(a, b, sign=1):
    ca, ma = _lin(a)
    cb, mb = _lin(b)
    m = dict(ma)
    for x, k in mb.items():
        m[x] = m.get(x, 0) + sign * k
    return _mklin(ca + sign * cb, m)


def arith(op, a, b):
    if op == "+":
        if (a.op == "c" and a.args[0] in ("str", "float")) or (b.op == "c" and b.args[0] in ("str", "float")):
            return mk("arith", op, a, b)
        return add(a, b)
    if op == "-":
        return add(a, b, -1)
    if op == "*":
        if is_int(a) and b.op != "c":
            a, b = b, a
        if b.op == "c" and b.args[0] == "int":
            c, m = _lin(a)
            return _mklin(c * b.args[1], {x: k * b.args[1] for x, k in m.items()})
        if a.uid > b.uid:
            a, b = b, a
        return mk("arith", "*", a, b)
    if a.op == "c" and b.op == "c" and a.args[0] == "int" and b.args[0] == "int":
        x, y = a.args[1], b.args[1]
        try:
            if op == "/" and y:
                return const(int(x / y))
            if op == "%" and y:
                return const(x % y)
            if op == "<<" and 0 <= y < 200:
                return const(x << y)
            if op == ">>" and 0 <= y < 200:
                return const(x >> y)
            if op == "&":
                return const(x & y)
            if op == "|":
                return const(x | y)
        except Exception:
            pass
    return mk("arith", op, a, b)


# ---- atoms --------------------------------------------------------------
def neg(p):
    return (p[0], not p[1])


def _is_size(t):
    if t.op != "call":
        return False
    n = t.args[0].rsplit("::", 1)[-1]
    return n in ("size", "length", "len", "ByteSizeLong", "num_elements") or n.endswith("_size") or n == "count"


def atom_eq(a, b):
    """(term, polarity) for a == b; term may be a constant."""
    if a is b:
        return TRUE, True
    ca, cb = is_const(a), is_const(b)
    if ca and cb:
        return TRUE, (cval(a) == cval(b))
    if cb or b is NULL:
        a, b = b, a          # constant first
        ca, cb = cb, ca
    if a is NULL:
        return mk("has", b), False
    if ca:
        if a.op == "c" and a.args[0] == "bool":
            t, p = as_atom(b)
            return t, p == a.args[1]
        if a.op == "c" and a.args[0] == "int" and a.args[1] in (0, 1) and b.op in ("eq", "lt", "has", "ok", "haskey", "not"):
            t, p = as_atom(b)
            return t, p == bool(a.args[1])
    if not ca and a.uid > b.uid:
        a, b = b, a
    return mk("eq", a, b), True


def atom_lt(a, b):
    """(term, polarity) for a < b."""
    if a is b:
        return TRUE, False
    if is_const(a) and is_const(b):
        try:
            return TRUE, cval(a) < cval(b)
        except TypeError:
            return mk("lt", a, b), True
    # integer constants always on the left:  x < c  ==  !(c-1 < x)
    if b.op == "c" and b.args[0] == "int":
        return _ltc(b.args[1] - 1, a, False)
    if a.op == "c" and a.args[0] == "int":
        return _ltc(a.args[1], b, True)
    # keep integer offsets on one side: (x + c) < y
    return mk("lt", a, b), True


def _ltc(c, x, pol):
    if x.op == "lin":          # c < x + k  ==  c-k < x
        k, m = _lin(x)
        if k:
            x2 = _mklin(0, m)
            return _ltc(c - k, x2, pol)
    if c == 0 and _is_size(x):
        return mk("eq", const(0), x), not pol
    return mk("lt", const(c), x), pol


def as_atom(t):
    """Normalise a boolean-valued term to (atom, polarity)."""
    if t.op == "c":
        return TRUE, bool(t.args[1])
    if t.op == "null":
        return TRUE, False
    if t.op == "not":
        return neg(as_atom(t.args[0]))
    return t, True


# ---- loop variables ---------------------------------------------------------
START = {}      # loop variable -> its values when the loop is entered
STEP = {}       # loop variable -> its values after one iteration


def sweeps(h):
    """Does the loop variable visit every index from the first on?  True unless
    it visibly starts elsewhere or skips."""
    for v in START.get(h, ()):
        if v.op == "c" and v.args[0] == "int" and v.args[1] != 0:
            return False
    for v in STEP.get(h, ()):
        if v is h:
            continue
        c, m = _lin(v)
        if m == {h: 1} and c != 1 and not (c == -1 and all(not is_int(x) for x in START.get(h, ()))):
            return False
    return True
