"""Languages of regular expressions, compared without running them.

A pattern is parsed, turned into a nondeterministic automaton over the classes
of characters that the compared patterns distinguish, and two patterns are
compared by walking the product of their deterministic automata.
"""
import re

try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre


class Unsupported(Exception):
    pass


SAMPLE = [chr(c) for c in range(32, 127)] + ["\n", "\t", "\r", "\0", "\xe9", "中"]


def _cat(name, ch):
    n = str(name)
    r = {"CATEGORY_WORD": ch.isalnum() or ch == "_", "CATEGORY_DIGIT": ch.isdigit(), "CATEGORY_SPACE": ch.isspace()}
    if "_NOT_" in n:
        n = n.replace("_NOT_", "_")
        return not r[n]
    return r[n]


def _in(items, ch):
    neg, hit = False, False
    for op, av in items:
        op = str(op)
        if op == "NEGATE":
            neg = True
        elif op == "LITERAL":
            hit |= ord(ch) == av
        elif op == "RANGE":
            hit |= av[0] <= ord(ch) <= av[1]
        elif op == "CATEGORY":
            hit |= _cat(av, ch)
        else:
            raise Unsupported(op)
    return hit != neg


class NFA:
    def __init__(self):
        self.eps, self.arc, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n

    def build(self, seq, a):
        for op, av in seq:
            a = self.one(str(op), av, a)
        return a

    def one(self, op, av, a):
        if op in ("LITERAL", "NOT_LITERAL", "IN", "ANY"):
            b = self.new()
            test = {"LITERAL": lambda c: ord(c) == av, "NOT_LITERAL": lambda c: ord(c) != av,
                    "IN": lambda c: _in(av, c), "ANY": lambda c: c != "\n"}[op]
            self.arc.setdefault(a, []).append((test, b))
            return b
        if op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            if lo > 8 or (hi != sre.MAXREPEAT and hi > 8):
                raise Unsupported(op)
            for _ in range(lo):
                a = self.build(sub, a)
            if hi == sre.MAXREPEAT:
                s = self.new()
                self.eps.setdefault(a, []).append(s)
                e = self.build(sub, s)
                self.eps.setdefault(e, []).append(s)
                return s
            end = self.new()
            self.eps.setdefault(a, []).append(end)
            for _ in range(hi - lo):
                a = self.build(sub, a)
                self.eps.setdefault(a, []).append(end)
            return end
        if op == "SUBPATTERN":
            if av[1] or av[2]:
                raise Unsupported("flags")
            return self.build(av[3], a)
        if op == "BRANCH":
            end = self.new()
            for alt in av[1]:
                s = self.new()
                self.eps.setdefault(a, []).append(s)
                self.eps.setdefault(self.build(alt, s), []).append(end)
            return end
        if op == "AT" and str(av) in ("AT_BEGINNING_STRING", "AT_END_STRING", "AT_BEGINNING", "AT_END"):
            raise Unsupported(op)
        raise Unsupported(op)

    def close(self, s):
        s = set(s)
        todo = list(s)
        while todo:
            for y in self.eps.get(todo.pop(), ()):
                if y not in s:
                    s.add(y)
                    todo.append(y)
        return frozenset(s)

    def step(self, s, ch):
        return self.close({y for x in s for t, y in self.arc.get(x, ()) if t(ch)})


def _nfa(rx):
    n = NFA()
    a = n.new()
    e = n.build(_trim(list(sre.parse(rx))), a)
    return n, n.close({a}), e


def _trim(seq):
    """Anchors at the ends say nothing more when the whole text must match."""
    while seq and str(seq[0][0]) == "AT" and "BEGINNING" in str(seq[0][1]):
        seq = seq[1:]
    while seq and str(seq[-1][0]) == "AT" and "END" in str(seq[-1][1]):
        seq = seq[:-1]
    return seq


def same(rx, want):
    """Do two patterns match the same whole texts?  None: not decided."""
    try:
        (n, s, e), (m, t, f) = _nfa(rx), _nfa(want)
    except (Unsupported, KeyError, re.error, RecursionError):
        return None
    seen, todo = {(s, t)}, [(s, t)]
    while todo:
        s, t = todo.pop()
        if (e in s) != (f in t):
            return False
        if len(seen) > 2000:
            return None
        for ch in SAMPLE:
            p = (n.step(s, ch), m.step(t, ch))
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return True


def literal(rx):
    """The one text a pattern without alternatives matches, or None."""
    try:
        seq = list(sre.parse(rx))
    except re.error:
        return None
    if all(str(op) == "LITERAL" for op, _ in seq):
        return "".join(chr(av) for _, av in seq)
    return None
