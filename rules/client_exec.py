"""Rules for how a plan is executed on the device: dictionaries, example queries, engines."""

import re

from fcx.kit import *
from fcx.engine import STATUS_CODES, code_name, status_code_of
from rules.base import at, P_, const_of, of_type
from rules.client_run import proto_enum

DICT = r"^fcp/dictionary/dictionary\.cc$"
DI_UNITS = [DICT]


def replace(t, env):
    """The term with fields replaced by what the constructor set them to."""
    if t in env:
        return env[t]
    if not isinstance(t, T):
        return tuple(replace(x, env) if isinstance(x, (T, tuple)) else x for x in t) if isinstance(t, tuple) else t
    if t.op == "lin":
        out = const(t.args[0])
        for k, x in t.args[1]:
            out = tm.add(out, tm.arith("*", replace(x, env), const(k)))
        return out
    a = tuple(replace(x, env) if isinstance(x, (T, tuple)) else x for x in t.args)
    return t if a == t.args else mk(t.op, *a)


def leaves(t):
    """Arguments of nested maxima."""
    if t.op == "call" and isname(t, "max") or t.op in ("max", "list"):
        out = []
        for x in t.args:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T):
                    out += leaves(y)
        return out
    return [t]


def is_top(t):
    """Largest of the three special ids: the term, None if it cannot be told."""
    ls = leaves(t)
    names = {sn(x.args[0]) if x.op == "call" else None for x in ls if not tm.is_const(x)}
    if names == {"bos", "eos", "unk"}:
        return all(tm.cval(x) <= -1 for x in ls if tm.is_const(x))
    return None if has_sub(t, lambda x: x.op == "hav") else False


def split_top(t):
    """t = rest + k * top + c: (rest, k, c), or None."""
    c, m = tm._lin(t)
    tops = [x for x in m if is_top(x)]
    if len(tops) > 1:
        return None
    k = m[tops[0]] if tops else 0
    rest = {x: y for x, y in m.items() if x not in tops}
    return rest, k, c


def e06(ctx):
    fs = [f for f in ctx.db.in_files(DICT) if f.body is not None]
    mk_ = [f for f in fs if f.short == "Create"]
    impl = [f for f in fs if f.short == "TokenToId"]
    if not mk_ or not impl:
        raise AnalysisError("anchor vanished: making a dictionary or looking a token up")
    cls = impl[0].cls
    ctors = [f for f in fs if f.kind == "ctor" or f.short == sn(cls)]
    ctors = [f for f in ctors if f.cls == cls]
    env = {}

    def cwrite(r, st, place, val, line, fr):
        if place[0] == "f" and place[1] is THIS and not r.eng.muted and val.op not in ("param", "hav"):
            env[mk("fld", place[2], THIS, 0)] = val

    def ccall(r, st, c):
        if isname(c, "push_back", "emplace_back") and c.args and recv_field(c):
            a = c.args[0]
            if a.op == "elem":
                r.need(has_sub(a, call_p("id")), "blocklist-ids-kept", (c.file, c.line), "what is blocked besides special ids is not the description's list", st)
                st.ts["rest"] = True
            elif a.op == "hav":
                ok = any(x.op == "c" and tm.cval(x) == 0 for x in tm.START.get(a, ())) or not tm.START.get(a)
                r.need(ok and tm.sweeps(a), "special-ids-blocked", (c.file, c.line), "the blocked special ids do not run from the first on", st)
                up = [(k, p) for k, p in st.facts.items() if k.op == "lt" and a in k.args]
                good = any(k.args[1] is a and not p and is_top(replace(k.args[0], env)) for k, p in up) or \
                    any(k.args[0] is a and p and (lambda s: s and not s[0] and s[1] == 1 and s[2] == 1)(split_top(replace(k.args[1], env))) for k, p in up)
                r.need(good or (None if not up else False), "special-ids-blocked", (c.file, c.line), "the blocked special ids do not run up to the largest one", st)
                st.ts["spec"] = True

    def cret(r, st, v, line, fr):
        if fr.func in ctors and len(ctors) == 1:
            for n in ("bos", "eos", "unk"):
                f = fact(st, lambda a: a.op == "eq" and has_sub(a, call_p("has_" + n)) and has_sub(a, call_p(n)), True)
                r.need(f is not None, "special-id-valid", at(fr, line), "a negative special id is accepted as set (%s)" % n, st)
    for f in ctors:
        ctx.run(R(scope=DICT, write=cwrite, call=ccall, ret=cret), [f])

    def unk(t):
        return has_sub(t, lambda x: x.op == "hav")

    def rets(name, fn):
        for f in fs:
            if f.short == name and f.cls == cls:
                def ret(r, st, v, line, fr):
                    if fr.func is f:
                        fn(r, st, replace(v, env), line, fr, f)
                ctx.run(R(scope=DICT, ret=ret), [f])

    def inmap(st, key):
        f = fact(st, lambda a: a.op == "haskey" and has_sub(a.args[1], key))
        return None if f is None else f[1]

    def token(r, st, v, line, fr, f):
        p = P_(f, 0)
        if v.op == "call" and isname(v, "unk"):
            no = inmap(st, p) is False or fact(st, lambda a: a.op == "eq" and any(tm.is_const(x) and tm.cval(x) == -1 for x in a.args), True)
            return r.need(bool(no) or (None if inmap(st, p) is None else False), "unknown-token-gets-unk", at(fr, line), "a token of the vocabulary is taken for unknown", st)
        s = split_top(v)
        if s is None or unk(v):
            return r.need(None, "token-id", at(fr, line), "id not recognised", st)
        rest, k, c = s
        r.need(k == 1 and c == 1 and len(rest) == 1 and list(rest.values()) == [1] and has_sub(list(rest)[0], p), "token-id", at(fr, line),
               "the id of a token is not its position counted from behind the special ids: %s" % tm.show(v), st)
        r.need(inmap(st, p) in (True, None), "token-known", at(fr, line), "an id is given to a token that is not in the vocabulary", st)
    rets("TokenToId", token)

    def outside(a, pol, p):
        """The comparison shows that the position looked for is below zero or beyond the vocabulary."""
        d = tm.add(a.args[1], a.args[0], -1) if pol else tm.add(tm.add(a.args[0], a.args[1], -1), const(1))      # d > 0
        s = split_top(d)
        if s is None:
            return True
        me = [(x, k) for x, k in s[0].items() if p(x)]
        rest = [(x, k) for x, k in s[0].items() if not p(x)]
        if len(me) != 1:
            return True
        if not rest:
            return me[0][1] == -1 and s[1] == 1 and s[2] <= 1
        return len(rest) == 1 and _size(rest[0][0]) and me[0][1] == 1 and rest[0][1] == -1 and s[1] == -1 and s[2] <= 0

    def back(r, st, v, line, fr, f):
        p = P_(f, 0)
        idx = [x for x in tm.subterms(v) if x.op == "idx" or x.op == "at" or x.op == "index"]
        if tm.is_const(v):
            about = [(replace(a, env), pol) for a, pol in st.facts.items() if has_sub(a, p)]
            if about and all(a.op == "lt" for a, _ in about):
                r.need(any(outside(a, pol, p) for a, pol in about), "id-in-range", at(fr, line), "the id of a token of the vocabulary has no token", st)
            return
        idx = [x.args[1] for x in idx] if idx else []
        if not idx:
            return r.need(None, "token-of-id", at(fr, line), "token not recognised", st)
        i = idx[0]
        s = split_top(i)
        ok = s is not None and s[1] == -1 and s[2] == -1 and len(s[0]) == 1 and list(s[0].values()) == [1] and p(list(s[0])[0])
        r.need(ok or (None if unk(i) else False), "token-of-id", at(fr, line), "the token of an id is not at the position counted from behind the special ids: %s" % tm.show(i), st)
        if ok:
            lo = hi = False
            for a, pol in st.facts.items():
                a2 = replace(a, env)
                if a2.op == "lt":
                    x, y = a2.args
                    d = tm.add(y, x, -1)            # pol: d > 0, else d <= 0
                    e = tm.add(d, i, -1)            # d = i + e
                    if pol and tm.is_const(e) and tm.cval(e) <= 1:
                        lo = True
                    e = tm.add(d, i)
                    if not pol and tm.is_const(e) and tm.cval(e) >= 0:
                        lo = True
                    if pol and any(_size(z) and tm.add(z, i, -1) is d for z in tm.subterms(a2)):
                        hi = True
                    if not pol and any(_size(z) and tm.add(tm.add(z, i, -1), const(1), -1) is tm.arith("*", d, const(-1)) for z in tm.subterms(a2)):
                        hi = True
            r.need(lo, "id-in-range", at(fr, line), "ids of special entries or below zero are looked up in the vocabulary", st)
            r.need(hi, "id-in-range", at(fr, line), "ids beyond the vocabulary are looked up in it", st)
    rets("IdToToken", back)

    def size(r, st, v, line, fr, f):
        s = split_top(v)
        r.need(None if unk(v) or s is None else s[1] == 1 and s[2] == 1 and len(s[0]) == 1 and list(s[0].values()) == [1] and _size(list(s[0])[0]), "size-counts-all", at(fr, line),
               "the size is not the number of special ids and tokens: %s" % tm.show(v), st)
    rets("Size", size)

    def special(r, st, v, line, fr, f):
        p = P_(f, 0)
        ok = False
        for b, pol in ((v, True), (v.args[0], False)) if v.op == "not" else ((v, True),):
            if b.op == "lt":
                d = split_top(tm.add(b.args[1], b.args[0], -1))
                if d and len(d[0]) == 1 and p(list(d[0])[0]):
                    q = list(d[0].values())[0]
                    # id <= top: !(top < id) or id < top + 1
                    ok = ok or (not pol and q == 1 and d[1] == -1 and d[2] == 0) or (pol and q == -1 and d[1] == 1 and d[2] == 1)
        r.need(ok or (None if v.op not in ("lt", "not") else False), "special-id-told", at(fr, line), "special ids are not told from tokens: %s" % tm.show(v), st)
    rets("IsSpecialId", special)

    # making one
    for f in mk_:
        def call(r, st, c):
            if isname(c, "push_back", "emplace_back") and c.args and c.args[0].op == "elem" and has_sub(c.args[0], call_p("token")):
                r.need(fact(st, lambda a: a.op == "eq" and any(tm.is_const(x) and tm.cval(x) == 0 for x in a.args) and any(_size(x) and has_sub(x, lambda y: y is c.args[0]) for x in a.args) or
                            a.op == "call" and isname(a, "empty"), False) is not None, "token-not-empty", (c.file, c.line), "an empty token is accepted", st)
                st.ts["vec"] = st.ts.get("vec", 0) + 1

            if isname(c, "insert_or_assign", "emplace", "try_emplace", "insert") and c.args and has_sub(c.args[0], call_p("token")) and not st.ts.get("map"):
                if len(c.args) == 2:
                    entered(r, st, c.args[1], (c.file, c.line))
                else:
                    st.ts["map"] = 1

        def write(r, st, place, val, line, fr):
            if place[0] == "i" and has_sub(place[2], call_p("token")):
                entered(r, st, val, at(fr, line))

        def entered(r, st, val, where):
            if val.op == "hav":
                s = tm.START.get(val, ())
                ok = tm.sweeps(val) and not any(x.op == "c" and tm.cval(x) != 0 for x in s) and any(x.op == "lin" for x in tm.STEP.get(val, (mk("lin", 1, ()),)))
                r.need(ok, "tokens-numbered", where, "tokens are not numbered from 0 in their order", st)
            else:
                r.need(None if not tm.is_const(val) and not _size(val) else _size(val), "tokens-numbered", where, "tokens are not numbered in their order: %s" % tm.show(val), st)
            st.ts["map"] = st.ts.get("map", 0) + 1

        def iter_(r, st, node, fr):
            if st.ts.get("vec") or st.ts.get("map"):
                r.need(st.ts.get("vec") == st.ts.get("map") == 1, "both-directions", at(fr, node[1]), "a token is entered in one direction only", st)
                st.ts["vec"] = st.ts["map"] = 0
            hs = [x for a in st.facts for x in tm.subterms(a) if x.op == "call" and isname(x, "id") and x.args[2] or x.op == "idx"]
            hs = {x for x in hs if has_sub(x, call_p("output_blocklist_ids"))}
            cur = {x for x in hs if _arg(x).op == "hav"}
            for x in cur:
                h = _arg(x)
                if not any(fact(st, lambda a: a.op == "lt" and a.args[0] is h, True) for _ in (0,)):
                    continue
                r.need(tm.sweeps(h), "blocked-ids-all-checked", at(fr, node[1]), "not all blocked ids are looked at", st)
                above = any(a.op == "lt" and pol and a.args[1] is x and is_top(a.args[0]) for a, pol in st.facts.items())
                r.need(above, "blocked-ids-not-special", at(fr, node[1]), "a blocked id may be a special id", st)
                first = fact(st, lambda a: a.op == "eq" and h in a.args and any(tm.is_const(y) and tm.cval(y) == 0 for y in a.args), True) or \
                    fact(st, lambda a: a.op == "lt" and (tm.is_const(a.args[0]) and tm.cval(a.args[0]) <= 0 and a.args[1] is h), False) or \
                    fact(st, lambda a: a.op == "lt" and a.args[0] is h and tm.is_const(a.args[1]) and tm.cval(a.args[1]) <= 1, True)
                up = any(a.op == "lt" and pol and a.args[1] is x and a.args[0] in hs and _arg(a.args[0]) is tm.add(h, const(-1)) for a, pol in st.facts.items())
                r.need(bool(first) or up, "blocked-ids-ascending", at(fr, node[1]), "blocked ids may be repeated or out of order", st)
                st.ts["checked"] = True

        def ret(r, st, v, line, fr):
            if fr.func is f and not err_return(st, v):
                hb = fact(st, call_p("has_output_blocklist_ids"))
                r.need((hb is not None and hb[1] is False) or bool(st.ts.get("checked")) or fact(st, lambda a: a.op == "lt" and has_sub(a, call_p("output_blocklist_ids")), False) is not None,
                       "blocked-ids-checked", at(fr, line), "a dictionary is made without looking at the blocked ids", st)
                r.need(fact(st, call_p("has_index"), True) is not None, "vocabulary-present", at(fr, line), "a dictionary without vocabulary is made", st)
        ctx.run(R(scope=DICT, call=call, write=write, iter=iter_, ret=ret), [f])
    for n in ("token-id", "token-of-id", "size-counts-all", "tokens-numbered", "blocked-ids-not-special"):
        ctx.need(n, 1)


def _size(t):
    return t.op == "size" or t.op == "call" and isname(t, "size")


def _arg(t):
    if t.op == "idx":
        return t.args[1]
    a = t.args[2]
    return a[0] if isinstance(a, tuple) else a


# ---- E07: examples on their way into a computation ------------------------------------------
ENG = r"^fcp/client/engine/"
HELP = r"^fcp/client/engine/plan_engine_helpers\.cc$"
REC = r"^fcp/client/example_iterator_query_recorder\.(cc|h)$"
EX_UNITS = [HELP, REC, r"^fcp/client/engine/example_query_plan_engine\.cc$"]
OORANGE = lambda st, t: fact(st, lambda a: a.op == "eq" and enum_of(a, "kOutOfRange") and has_sub(a, lambda x: x is t))


def enum_of(a, *names):
    return any(x.op == "enum" and sn(x.args[0]) in names for x in a.args if isinstance(x, T)) or any(enum_name(x) in names for x in a.args if isinstance(x, T))


def enum_name(x):
    return sn(str(x.args[0])) if x.op in ("enum", "c", "gvar") and x.args else None


def ctor_fields(ctx, cls, scope):
    """Field -> position of the constructor parameter it is set from, and fields set to constants."""
    out, consts = {}, {}
    for f in ctx.db.funcs.values():
        if f.cls == cls and f.short == sn(cls) and f.body is not None and len(f.params) > 1:
            names = [p[1] for p in f.params]

            def write(r, st, place, val, line, fr):
                if place[0] == "f" and place[1] is THIS:
                    ps = [x.args[0] for x in tm.subterms(val) if x.op == "param" and x.args[0] in names]
                    if len(set(ps)) == 1:
                        out.setdefault(place[2], names.index(ps[0]))
                    elif tm.is_const(val):
                        consts[place[2]] = tm.cval(val)
            ctx.run(R(scope=scope, write=write), [f])
    return out, consts


def plain(t):
    """The object, whatever was called on it since."""
    while t is not None and t.op == "upd":
        t = t.args[1]
    return t


def e07(ctx):
    db = ctx.db
    nxt = [f for f in db.in_files(HELP) if f.short == "GetNext" and f.body is not None and list(calls_in(f, "Next"))]
    if not nxt:
        raise AnalysisError("anchor vanished: the iterator handed to computations")
    cls = nxt[0].cls
    fields, consts = ctor_fields(ctx, cls, HELP)
    by = {v: k for k, v in fields.items()}
    if len(nxt[0].params) != 0 or not {1, 2, 3, 4, 5, 6, 7} <= set(by):
        raise AnalysisError("anchor vanished: what the iterator handed to computations is made from")
    rec, tot, totb, stf, uri, coll = (by[i] for i in (2, 3, 4, 5, 6, 7))
    isf = lambda name: (lambda t: t.op == "fld" and t.args[0] == name)
    own = {}

    def size_of(v, n):
        c, m = tm._lin(v)
        return c == 0 and any(_size(x) and has_sub(x, lambda y: y is n) for x in m)

    # fields of its own: one counts examples, one bytes, one says the end was reached
    def scan(r, st, place, val, line, fr):
        if place[0] == "f" and place[1] is THIS and place[2] not in fields and val is not None:
            c, m = tm._lin(val)
            if tm.is_const(val) and tm.cval(val) is True:
                own["end"] = place[2]
            elif c == 1 and len(m) == 1 and any(isf(place[2])(x) for x in m):
                own["n"] = place[2]
            elif any(_size(x) for x in m) and any(isf(place[2])(x) for x in m):
                own["b"] = place[2]
    ctx.run(R(scope=HELP, write=scan, stops=["SetStatus$"]), [nxt[0]])

    def call(r, st, c):
        if isname(c, "Next") and not isname(c, "GetNext"):
            r.need(not st.ts.get("next"), "one-example-at-a-time", (c.file, c.line), "two examples are taken for one", st)
            if own.get("end"):
                r.need(fact(st, isf(own["end"]), False) is not None, "ended-stays-ended", (c.file, c.line), "an iterator that has ended is asked for more", st)
            st.ts["next"] = True
        if isname(c, "Increment"):
            st.ts["inc"] = st.ts.get("inc", 0) + 1
        if isname(c, "fetch_add", "operator++", "operator+=") and c.recv is not None and c.recv.op == "fld":
            write(r, st, ("f", THIS, c.recv.args[0]), tm.add(c.recv, const(1) if isname(c, "operator++") else c.args[0]), c.line, None)
        if isname(c, "Close"):
            st.ts["close"] = st.ts.get("close", 0) + 1
        if isname(c, "SetStatus"):
            st.ts["set"] = c.args[0] if c.args else None

    def after(r, st, c, ret):
        if isname(c, "Next") and not isname(c, "GetNext"):
            st.ts["nextv"] = ret

    def write(r, st, place, val, line, fr):
        if place[0] != "f" or place[1] is not THIS:
            return
        k = place[2]
        where = (nxt[0].rel(), line)
        if k == own.get("end"):
            st.ts["ended"] = True
        elif k in (tot, own.get("n")):
            c, m = tm._lin(val)
            r.need(c == 1 and len(m) == 1 and any(isf(k)(x) for x in m), "example-counted-once", where, "an example is not counted as one: %s" % tm.show(val), st)
            st.ts[k] = st.ts.get(k, 0) + 1
        elif k in (totb, own.get("b")):
            n = st.ts.get("nextv")
            c, m = tm._lin(val)
            r.need(c == 0 and len(m) == 2 and set(m.values()) == {1} and any(isf(k)(x) for x in m) and any(_size(x) and n is not None and has_sub(x, lambda y: y is n) for x in m),
                   "bytes-counted-once", where, "the size of an example is not added once: %s" % tm.show(val), st)
            st.ts[k] = st.ts.get(k, 0) + 1

    def ret(r, st, v, line, fr):
        if fr.func is not nxt[0]:
            return
        w = at(fr, line)
        n = st.ts.get("nextv")
        if n is None:
            r.need(err_return(st, v) and has_sub(v, lambda x: "OutOfRange" in str(x.args[0]) if x.args else False), "ended-stays-ended", w, "an iterator that has ended does not say so", st)
            return
        r.need(flows_from(v, lambda x: x is n), "example-handed-on", w, "what is handed on is not what was read", st)
        ok = status_of(st, n)
        oor = OORANGE(st, n)
        oor = None if oor is None else oor[1]
        if ok is True and oor is True:
            return
        if ok is True:
            c = fact(st, isf(coll))
            for k, what in ((tot, "examples of all collections"), (totb, "bytes of all collections"), (own.get("n"), "examples"), (own.get("b"), "bytes")):
                if k:
                    r.need((c is not None and st.ts.get(k, 0) == (1 if c[1] else 0)), "examples-counted", w, "an example is counted %d times among the %s" % (st.ts.get(k, 0), what), st)
            q = fact(st, lambda a: a.op == "has" and isf(rec)(a.args[0]))
            r.need(q is not None and st.ts.get("inc", 0) == (1 if q[1] else 0), "query-counted", w, "an example is recorded %d times for its query" % st.ts.get("inc", 0), st)
        else:
            r.need(not st.ts.get("inc") and not any(st.ts.get(k) for k in (tot, totb, own.get("n"), own.get("b")) if k), "only-examples-counted", w, "a failure is counted as an example", st)
            r.need(st.ts.get("set") is not None or oor is True, "failure-remembered", w, "a failure of the example source is not remembered", st)
            if oor is True:
                r.need(st.ts.get("close") == 1, "source-closed-at-end", w, "the example source is not closed at its end", st)
                r.need(bool(st.ts.get("ended")), "ended-stays-ended", w, "the end of the source is not remembered", st)
            else:
                r.need(not st.ts.get("ended"), "ended-only-at-end", w, "an iterator counts as ended after a failure", st)
    ctx.run(R(scope=HELP, call=call, after=after, write=write, ret=ret, stops=["SetStatus$"]), nxt)

    # statistics handed over at the end
    dt = [f for f in db.funcs.values() if f.cls == cls and f.kind == "dtor" or f.cls == cls and f.short.startswith("~")]
    for f in dt:
        def dcall(r, st, c):
            if isname(c, "UpdateDatasetStats"):
                st.ts["upd"] = st.ts.get("upd", 0) + 1
                a = c.args
                r.need(isf(uri)(a[0]) and isf(own.get("n"))(a[1]) and isf(own.get("b"))(a[2]), "statistics-own", (c.file, c.line), "the statistics of another collection or count are reported", st)

        def dret(r, st, v, line, fr):
            if fr.func is f:
                c = fact(st, isf(coll))
                r.need(None if c is None and not st.ts.get("upd") else c is not None and st.ts.get("upd", 0) == (1 if c[1] else 0), "statistics-reported", at(fr, line), "the statistics of a collection are reported %d times" % st.ts.get("upd", 0), st)
        ctx.run(R(scope=HELP, call=dcall, ret=dret), [f])

    # remembered failures
    for f in [f for f in db.in_files(HELP) if f.short == "SetStatus" and f.body is not None]:
        p = P_(f, 0)

        def swrite(r, st, place, val, line, fr):
            if place[0] == "f" and place[1] is THIS:
                ps = [x for x in tm.subterms(val) if p(x)]
                if not ps:
                    return r.need(None, "failure-kept", at(fr, line), "status not recognised", st)
                o = OORANGE(st, ps[0])
                r.need(status_of(st, ps[0]) is False and o is not None and not o[1], "failure-not-overwritten", at(fr, line), "a success or the end of the data replaces a failure", st)
                st.ts["w"] = True

        def sret(r, st, v, line, fr):
            if fr.func is f:
                ps = [x for a in st.facts for x in tm.subterms(a) if p(x)]
                o = OORANGE(st, ps[0]) if ps else None
                if not ps or status_of(st, ps[0]) is True or o is not None and o[1]:
                    return
                r.need(bool(st.ts.get("w")) or fact(st, lambda a: not has_sub(a, p)) is not None, "failure-kept", at(fr, line), "a failure of the example source is forgotten", st)
        ctx.run(R(scope=HELP, write=swrite, ret=sret), [f])

    # the right source
    for f in [f for f in db.in_files(HELP) if f.short == "FindExampleIteratorFactory" and f.body is not None]:
        def fret(r, st, v, line, fr):
            if fr.func is f and v is not NULL:
                r.need(None if v.op == "hav" or has_sub(v, call_p("find_if", "c_find_if")) else fact(st, lambda a: a.op == "call" and isname(a, "CanHandle") and plain(a.args[1]) is plain(v) and any(P_(f, 0)(x) for x in a.args[2]), True) is not None, "source-can-handle", at(fr, line), "a source is chosen that cannot handle the selection", st)

        def fiter(r, st, node, fr):
            r.need(fact(st, call_p("CanHandle"), True) is None, "first-source-taken", at(fr, node[1]), "a source that can handle the selection is passed over", st)
        ctx.run(R(scope=HELP, ret=fret, iter=fiter, stops=["CanHandle$"]), [f])

    def mcall(r, st, c):
        if isname(c, "FindExampleIteratorFactory"):
            st.ts["sel"] = c.args[0]
            st.ts["rec"] = 0
        if isname(c, "CreateExampleIterator") and c.args:
            r.need(_find(c.recv, st) is not False, "iterator-of-found-source", (c.file, c.line), "examples are read from another source than the one found", st)
            r.need(plain(c.args[0]) is plain(st.ts.get("sel")), "iterator-of-selection", (c.file, c.line), "another selection is read than asked for", st)
            r.need(fact(st, lambda a: a.op == "has" and (plain(a.args[0]) is plain(c.recv) or has_sub(a.args[0], call_p("FindExampleIteratorFactory"))), True) is not None, "source-found", (c.file, c.line), "examples are read although no source was found", st)
        if isname(c, "RecordQuery") and c.args:
            r.need(plain(c.args[0]) is plain(st.ts.get("sel")), "query-recorded", (c.file, c.line), "another selection is recorded than read", st)
            st.ts["rec"] = st.ts.get("rec", 0) + 1
        if isname(c, sn(cls)) and len(c.args) == 8:
            a = c.args
            r.need(has_sub(a[0], call_p("CreateExampleIterator")), "iterator-handed-on", (c.file, c.line), "another iterator is read from", st)
            r.need(any(status_of(st, x) is True for x in tm.subterms(a[0]) if x.op == "call" and isname(x, "CreateExampleIterator")), "iterator-handed-on", (c.file, c.line), "an iterator that could not be made is read from", st)
            r.need(has_sub(a[6], call_p("collection_uri")) and has_sub(a[6], lambda x: x is st.ts.get("sel")), "collection-own", (c.file, c.line), "examples are counted for another collection", st)
            r.need(None if a[7].op == "hav" else has_sub(a[7], call_p("ShouldCollectStats")), "statistics-if-wanted", (c.file, c.line), "statistics are collected without asking the source", st)
            q = fact(st, lambda a_: a_.op == "has" and re.search("query_recorder", tm.show(a_.args[0])) is not None)
            if q is not None and q[1]:
                r.need(st.ts.get("rec") == 1 and has_sub(a[2], call_p("RecordQuery")), "query-recorded", (c.file, c.line), "a query is not recorded", st)
        if c.name.endswith("FailingDatasetIterator") or isname(c, "FailingDatasetIterator"):
            st.ts["fails"] = c.line
        if isname(c, "SetStatus"):
            st.ts["set"] = c.args[0]

    def mlam(r, st, v, fr, e):
        if st.ts.get("fails"):
            r.need(st.ts.get("set") is not None, "failure-remembered", (fr.file, st.ts["fails"]), "a failure to read examples is not remembered", st)

    def _find(t, st):
        return has_sub(t, call_p("FindExampleIteratorFactory")) or (None if t.op == "hav" else False)
    mkr = [f for f in db.in_files(HELP) if f.short == "MakeDataset" and f.body is not None] + [f for f in db.in_files(r"^fcp/client/engine/example_query_plan_engine\.cc$") if f.short == "RunPlan" and f.body is not None]
    ctx.run(R(scope=ENG, call=mcall, lamret=mlam, stops=["CreateExampleIterator$", "FindExampleIteratorFactory$", "ShouldCollectStats$", "SetStatus$", "WriteCheckpoint$", "GenerateAggregationTensors$", "DatasetIterator::"]), mkr)

    # the key under which a computation finds its examples
    for f in [f for f in db.in_files(HELP) if f.short.startswith("AddDatasetToken") and f.body is not None]:
        def tcall(r, st, c):
            if isname(c, "Register"):
                st.ts["reg"] = True
            if isname(c, "emplace_back", "push_back", "emplace", "insert", "insert_or_assign") and st.ts.get("reg"):
                st.ts["put"] = True
                t = mk("list", *[x for x in c.args]) if c.args else None
                if t is not None:
                    r.need(has_sub(t, P_(f, 4)) or (None if has_sub(t, lambda x: x.op in ("hav", "obj", "upd")) else False), "token-under-its-name", (c.file, c.line), "the examples are offered under another name", st)

        def twrite(r, st, place, val, line, fr):
            if place[0] == "i" and st.ts.get("reg"):
                st.ts["put"] = True
                r.need(P_(f, 4)(place[2]), "token-under-its-name", at(fr, line), "the examples are offered under another name", st)
                r.need(has_sub(val, call_p("Register")), "token-of-registration", at(fr, line), "another registration's token is passed on", st)

        def tret(r, st, v, line, fr):
            if fr.func is f:
                r.need(bool(st.ts.get("put")), "token-passed-on", at(fr, line), "the computation is not given the token of its examples", st)
                r.need(None if v.op == "hav" else has_sub(v, call_p("Register")), "registration-kept", at(fr, line), "the registration ends before the computation runs", st)
        ctx.run(R(scope=HELP, call=tcall, write=twrite, ret=tret), [f])

    # recorded queries
    recs = [f for f in db.in_files(REC) if f.body is not None]
    for f in recs:
        if f.short == "RecordQuery":
            def rcall(r, st, c):
                if isname(c, "push_back", "emplace_back"):
                    st.ts["kept"] = c.args[0]

            def rret(r, st, v, line, fr):
                if fr.func is f:
                    k = st.ts.get("kept")
                    r.need(k is not None, "recorder-kept", at(fr, line), "a recorded query is forgotten", st)
                    r.need(None if v.op == "hav" or k is None else (k is v or has_sub(v, lambda x: x is k) or has_sub(k, lambda x: x is v) or has_sub(v, lambda x: x.op in ("hav", "out", "upd", "idx", "call"))), "recorder-own", at(fr, line), "another query's recorder is handed out", st)
                    if v.op == "new":
                        r.need(has_sub(v, P_(f, 0)), "recorder-of-selection", at(fr, line), "the recorder is for another selection", st)
            ctx.run(R(scope=REC, call=rcall, ret=rret), [f])
        elif f.short == "FinishRecordingAndGet" or f.short == "Increment":
            cnt = of_type(db, f.cls, r"\bint")

            def iwrite(r, st, place, val, line, fr):
                if place[0] == "f" and place[1] is THIS and place[2] in cnt:
                    st.ts["w"] = st.ts.get("w", 0) + 1
                    if f.short == "Increment":
                        c, m = tm._lin(val)
                        r.need(c == 1 and len(m) == 1, "query-count-up", at(fr, line), "an example is not counted as one", st)
                    else:
                        r.need(tm.is_const(val) and tm.cval(val) == 0, "query-count-reset", at(fr, line), "the count does not start again at 0", st)

            def icall(r, st, c):
                if isname(c, "set_collection_uri"):
                    r.need(has_sub(c.args[0], call_p("collection_uri")), "query-as-asked", (c.file, c.line), "another collection is reported", st)
                    st.ts["uri"] = True
                if isname(c, "mutable_criteria"):
                    st.ts["crit"] = True
                if isname(c, "set_example_count"):
                    st.ts["cnt"] = True
                    r.need(any(x.op == "fld" and x.args[0] in cnt for x in tm.subterms(c.args[0])) and c.args[0].op == "fld", "query-count-reported", (c.file, c.line), "another count is reported: %s" % tm.show(c.args[0]), st)

            def iret(r, st, v, line, fr):
                if fr.func is f:
                    r.need(st.ts.get("w") == 1, "query-count-up" if f.short == "Increment" else "query-count-reset", at(fr, line), "the count is changed %d times" % st.ts.get("w", 0), st)
                    if f.short != "Increment":
                        r.need(bool(st.ts.get("uri") and st.ts.get("cnt")), "query-as-asked", at(fr, line), "a reported query lacks its collection or count", st)
                        r.need(bool(st.ts.get("crit")) or (None if has_sub(v, lambda x: x.op == "hav") else False), "query-as-asked", at(fr, line), "a reported query lacks its criteria", st)
            ctx.run(R(scope=REC, write=iwrite, call=icall, ret=iret), [f])
        elif f.short == "StopRecordingAndGetQueries":
            def scall(r, st, c):
                if isname(c, "FinishRecordingAndGet"):
                    own_ = has_sub(c.recv, lambda x: x.op in ("elem", "hav") or x.op == "idx" and not tm.is_const(x.args[1]))
                    r.need(own_, "all-queries-reported", (c.file, c.line), "the same query is reported again and again", st)
                    st.ts["cur"] = True
                if isname(c, "clear"):
                    st.ts["clear"] = True
                if isname(c, "mutable_selector_context"):
                    st.ts["sc"] = True

            def swr(r, st, place, val, line, fr):
                if place[0] == "f" and place[1] is THIS:
                    st.ts["clear"] = True

            def siter(r, st, node, fr):
                r.need(bool(st.ts.get("cur")), "all-queries-reported", at(fr, node[1]), "a recorded query is not reported", st)
                st.ts["cur"] = False

            def sret(r, st, v, line, fr):
                if fr.func is f:
                    r.need(bool(st.ts.get("clear")), "queries-reported-once", at(fr, line), "reported queries are reported again the next time", st)
                    r.need(bool(st.ts.get("sc")), "context-reported", at(fr, line), "the queries are reported without their context", st)
            ctx.run(R(scope=REC, call=scall, write=swr, iter=siter, ret=sret, stops=["FinishRecordingAndGet$"]), [f])
    for n in ("examples-counted", "iterator-of-selection", "source-can-handle", "all-queries-reported", "failure-not-overwritten"):
        ctx.need(n, 1)


# ---- E08: results of example queries ---------------------------------------------------------
QRY = r"^fcp/client/engine/example_query_plan_engine\.cc$"
VALS = re.compile(r"^(\w+)_values$")


def kinds(t):
    return {(m.group(1), x.args[1]) for x in tm.closure(t) if x.op == "call" and x.args[1] is not None for m in [VALS.match(sn(x.args[0]))] if m and not m.group(1).startswith("has_")}


def elems(t):
    return {x for x in tm.subterms(t) if x.op == "elem"}


def e08(ctx):
    db = ctx.db
    types = proto_enum(ctx, "DataType") if False else {"int32": 1, "int64": 2, "bool": 3, "float": 4, "double": 5, "bytes": 6, "string": 7}
    fs = [f for f in db.in_files(QRY) if f.body is not None]
    writers = [f for f in fs if f.short != "RunPlan" and not f.cls and any("ExampleQueryResult" in str(p[2]) and "vector" in str(p[2]) for p in f.params)]
    if not writers:
        raise AnalysisError("anchor vanished: functions that write the results of example queries")

    for f in writers:
        def call(r, st, c):
            w = (c.file, c.line)
            if isname(c, "ConvertNumericTensor") and len(c.args) == 3:
                ks = {k for k, _ in kinds(c.args[2])}
                dt = next((sn(str(x.args[0])) for x in tm.subterms(c.args[0]) if x.op == "enum"), None)
                if dt and len(ks) == 1:
                    r.need(dt == "DT_" + next(iter(ks)).upper(), "tensor-type-own", w, "values of one type become a tensor of another", st)
            if isname(c, "emplace_back", "push_back", "emplace", "insert", "try_emplace", "insert_or_assign") and c.args and has_sub(c.args[-1], call_p("output_vector_specs")) and \
                    (any(has_sub(a, call_p("vector_name")) for a in c.args) or len(c.args) == 2 and isname(c.args[-1], "make_tuple", "make_pair", "tuple", "pair")):
                rt = str(c.node[9] if len(c.node) > 9 else "")
                listed(r, st, c.args[0], c.args[-1], w, "map" in rt.split("<")[0] and "multi" not in rt.split("<")[0])
            if not isname(c, "Add") or len(c.args) < 2 or not ("SliceWriter" in c.name or "CheckpointBuilder" in c.name):
                return
            ks = set()
            for a in c.args[1:]:
                ks |= kinds(a)
            names = {k for k, _ in ks}
            if not names:
                return r.need(None, "values-of-one-kind", w, "values not recognised", st)
            r.need(len(names) == 1, "values-of-one-kind", w, "the sizes and values written come from different kinds of values: %s" % ", ".join(sorted(names)), st)
            if len(names) != 1:
                return
            k = next(iter(names))
            bases = mk("list", "?", tuple(sorted((b for _, b in ks), key=lambda x: x.uid)), 0)
            r.need(fact(st, lambda a: a.op == "call" and isname(a, "has_%s_values" % k) and any(a.args[1] is b for _, b in ks), True) is not None or
                   (None if fact(st, lambda a: has_sub(a, call_p("values_case", "Values_case"))) else False), "kind-present", w, "%s values are written without being present" % k, st)
            dts = [a for a, p in st.facts.items() if p and a.op == "eq" and has_sub(a, call_p("data_type"))]
            good = [a for a in dts if any(tm.is_const(x) and tm.cval(x) == types.get(k) or x.op == "enum" and (x.args[1] == types.get(k) or sn(str(x.args[0])) == k.upper()) for x in a.args if isinstance(x, T))]
            r.need(bool(good), "declared-type-checked", w, "%s values are written although the query may declare another type" % k, st)
            es = elems(c.args[0])
            if es:
                r.need(bool(elems(bases) & es) or (None if has_sub(bases, lambda x: x.op == "hav") and not elems(bases) else False), "values-under-own-name", w, "values are written under another output's name", st)
                if good:
                    r.need(bool(elems(good[0]) & es), "declared-type-own", w, "the declared type of another output is checked", st)
            q = st.ts.get("q")
            keys = {x.args[1] for x in tm.subterms(bases) if x.op == "idx" and P_(f, 1)(root(x))}
            if q is not None and keys:
                r.need(q in keys, "query-and-result-match", w, "the outputs of one query are taken from the result of another", st)
            st.ts["added"] = st.ts.get("added", 0) + 1

        def after(r, st, c, ret):
            if isname(c, "Add") and ("SliceWriter" in c.name or "CheckpointBuilder" in c.name):
                st.ts["last"] = ret

        def write(r, st, place, val, line, fr):
            if place[0] == "i" and has_sub(val, call_p("output_vector_specs")):
                listed(r, st, place[2], val, at(fr, line), True)

        def listed(r, st, key, val, w, single):
            """An output noted together with the vector it names, alone under that name or beside others."""
            e1, e2 = elems(key), elems(val)
            r.need(e1 == e2 and has_sub(key, call_p("vector_name")), "outputs-by-vector", w, "an output is listed under another output's vector", st)
            if has_sub(key, call_p("vector_name")):
                r.need(not single, "outputs-all-kept", w, "of several outputs that name the same vector only one is written", st)
            qs = [x.args[1] for x in tm.subterms(val) if x.op == "idx" and has_sub(x.args[0], call_p("example_queries"))]
            qs += [x.args[2][0] for x in tm.subterms(val) if x.op == "call" and isname(x, "example_queries") and x.args[2]]
            if qs:
                st.ts["q"] = qs[0]

        loops = [x for x in walk(f.body) if x[0] in ("for", "rfor", "while") and any(y[0] == "call" and re.search(r"_values$", str(y[1])) for y in walk(x))]
        inner = [x for x in loops if not any(y is not x for y in walk(x) if y in loops and any(z[0] == "if" for z in walk(y)))]
        inner = [x for x in inner if any(y[0] == "call" and re.search(r"::find$|_values$|::contains$", str(y[1])) for y in walk(x)) and any(y[0] == "if" for y in walk(x))]

        def branch(r, st, atom, pol, line, fr):
            if atom.op == "call" and pol:
                m = re.match(r"has_(\w+)_values$", sn(atom.args[0]))
                if m:
                    st.ts["kind"] = m.group(1)

        def it(r, st, node, fr):
            if fr.func is f and any(node is x for x in loops):
                t = st.ts.get("last")
                if t is not None:
                    r.need(st.known(mk("ok", t)) is True, "write-error-reported", at(fr, node[1]), "a failure to write values is passed over", st)
                if not any(node is x for x in inner):
                    st.ts["q"] = None
                else:
                    st.ts["kind"] = None
                    r.need(st.ts.get("added", 0) >= 1, "every-output-written", at(fr, node[1]), "an output is left out", st)
                    st.ts["added"] = 0
                st.ts["last"] = None

        def fin(r, st, c):
            call(r, st, c)
            if isname(c, "Finish"):
                st.ts["fin"] = True

        def ret(r, st, v, line, fr):
            if fr.func is f and status_of(st, v) is not False:
                t = st.ts.get("last")
                r.need(t is None or st.known(mk("ok", t)) is True, "write-error-reported", at(fr, line), "a failure to write values is passed over", st)
                if "TensorSliceWriter" in str(f.body):
                    r.need(bool(st.ts.get("fin")) and (has_sub(v, call_p("Finish")) or fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("Finish")), True) is not None), "file-finished", at(fr, line), "the checkpoint is not finished, or its failure not reported", st)
        ctx.run(R(scope=QRY, call=fin, after=after, write=write, branch=branch, iter=it, ret=ret, stops=["Convert\\w*Tensor$"]), [f])

    for f in [f for f in fs if f.short == "RunPlan"]:
        wn = {w.short for w in writers}

        def pcall(r, st, c):
            w = (c.file, c.line)
            if isname(c, *wn):
                st.ts["w"] = True
            if isname(c, "FindExampleIteratorFactory"):
                st.ts["q1"] = True
            if isname(c, "push_back", "emplace_back") and not st.ts.get("w") and c.args:
                st.ts["pushed"] = st.ts.get("pushed", 0) + 1
                r.need(fact(st, call_p("ParseFromString", "ParseFromArray", "ParseFromCord"), True) is not None, "result-parsed", w, "a result is used that could not be read", st)
            if c.name.endswith("PlanResult") and len(c.args) == 2:
                o = sn(str(c.args[0].args[0])) if c.args[0].op == "enum" else None
                s = status_of(st, c.args[1])
                if o == "kSuccess":
                    r.need(s, "success-is-ok", w, "a success carries an error", st)
                elif o is not None:
                    r.need(s is False, "failure-is-error", w, "a failure carries no error", st)

        def pafter(r, st, c, ret):
            if isname(c, *wn) or isname(c, "Build"):
                st.ts["oks"] = st.ts.get("oks", ()) + (ret,)

        def pwrite(r, st, place, val, line, fr):
            if place[0] == "f" and sn(place[2]) == "federated_compute_checkpoint":
                r.need(fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("Build")), True) is not None and has_sub(val, call_p("Build")), "checkpoint-built", at(fr, line), "a checkpoint that could not be built is handed on", st)
                st.ts["cp"] = True

        def piter(r, st, node, fr):
            if fr.func is f and st.ts.get("q1"):
                r.need(st.ts.get("pushed", 0) == 1, "one-result-per-query", at(fr, node[1]), "a query has %d results" % st.ts.get("pushed", 0), st)
                st.ts["pushed"] = 0

        def pret(r, st, v, line, fr):
            if fr.func is not f:
                return
            o = next((sn(str(x.args[0])) for x in tm.subterms(v) if x.op == "enum" and "PlanOutcome" in str(x.args[0])), None)
            if o == "kSuccess":
                oks = st.ts.get("oks", ())
                r.need(bool(oks) and all(st.known(mk("ok", t)) is True for t in oks), "success-only-when-written", at(fr, line), "a success is reported although the results were not written", st)
                if any(has_sub(t, call_p("Build")) for t in oks) or len(oks) == 2:
                    r.need(bool(st.ts.get("cp")), "checkpoint-handed-on", at(fr, line), "the checkpoint is not handed on", st)
        ctx.run(R(scope=QRY, call=pcall, after=pafter, write=pwrite, iter=piter, ret=pret, stops=[n + "$" for n in wn] + ["CreateExampleIterator$", "FindExampleIteratorFactory$"]), [f])
    for n in ("values-of-one-kind", "declared-type-checked", "success-only-when-written", "values-under-own-name"):
        ctx.need(n, 1)


# ---- E09: outcomes of computations -----------------------------------------------------------
CMN = r"^fcp/client/engine/common\.cc$"
TFW = r"^fcp/client/engine/tf_wrapper\.cc$"
LITE = r"^fcp/client/engine/tflite_wrapper\.cc$"
PE = r"^fcp/client/engine/(simple|tflite)_plan_engine\.cc$"
PO_UNITS = [CMN, TFW, LITE, PE, HELP]


def outcome_of(v):
    return next((sn(str(x.args[0])) for x in tm.subterms(v) if x.op == "enum" and "PlanOutcome" in str(x.args[0])), None)


def code_is(st, t, name):
    """Known to be a status with this code."""
    k = code_name(t)
    if k is not None:
        return k == name
    return st.known(mk("eq", mk("enum", "absl::StatusCode::k" + name, STATUS_CODES.index(name)), mk("call", "absl::Status::code", t, (), 0))) is True or \
        fact(st, lambda a: a.op == "eq" and enum_of(a, "k" + name) and any(status_code_of(x) is t for x in a.args if isinstance(x, T)), True) is not None


def e09(ctx):
    db = ctx.db
    fs = lambda regex, *names: [f for f in db.in_files(regex) if f.body is not None and f.short in names]

    # every outcome keeps its meaning
    for f in fs(CMN, "ConvertPlanOutcomeToStatus", "ConvertPlanOutcomeToPhaseOutcome"):
        def ret(r, st, v, line, fr):
            if fr.func is not f:
                return
            o = {sn(str(x.args[0])) for a, p in st.facts.items() if p and a.op == "eq" for x in a.args if isinstance(x, T) and x.op == "enum"}
            if len(o) != 1:
                return r.need(None, "outcome-kept", at(fr, line), "outcome not recognised", st)
            o = next(iter(o))
            if "Status" in f.short:
                good = status_of(st, v) is True if o == "kSuccess" else code_is(st, v, "Cancelled") if o == "kInterrupted" else status_of(st, v) is False and not code_is(st, v, "Cancelled")
            else:
                n = sn(str(v.args[0])) if v.op == "enum" else None
                good = None if n is None else re.sub(r".*_", "", n) == {"kSuccess": "COMPLETED", "kInterrupted": "INTERRUPTED"}.get(o, "ERROR")
            r.need(good, "outcome-kept", at(fr, line), "the outcome %s is passed on as another one" % o, st)
        ctx.run(R(scope=CMN, ret=ret), [f])

    # declared inputs and outputs
    for f in fs(CMN, "ValidateTensorflowSpec"):
        def vret(r, st, v, line, fr):
            if fr.func is f and status_of(st, v) is not False:
                for what in ("input_tensor_specs", "output_tensor_specs"):
                    r.need(fact(st, lambda a: a.op == "eq" and has_sub(a, call_p(what)) and all(_size(x) for x in a.args), True) is not None, "declared-%s-counted" % what.split("_")[0], at(fr, line), "a computation with other %s than declared is accepted" % what.split("_")[0], st)

        def viter(r, st, node, fr):
            if fr.func is f and node[0] == "rfor":
                r.need(fact(st, lambda a: a.op == "haskey" and has_sub(a, lambda x: x.op == "elem"), True) is not None, "declared-names-known", at(fr, node[1]), "a declared name that is not among those given is accepted", st)
        ctx.run(R(scope=CMN, ret=vret, iter=viter), [f])

    # failures of the example source come first
    for f in fs(HELP, "CreateComputationErrorPlanResult"):
        it_, co = P_(f, 0), P_(f, 1)

        def cret(r, st, v, line, fr):
            if fr.func is not f:
                return
            o = outcome_of(v)
            its = [x for a in st.facts for x in tm.subterms(a) if it_(x)] or [x for x in tm.subterms(v) if it_(x)]
            if o is None or not its:
                return r.need(None, "error-cause", at(fr, line), "outcome not recognised", st)
            i = its[0]
            fine = status_of(st, i) is True or code_is(st, i, "OutOfRange")
            if o == "kTensorflowError":
                r.need(fine and has_sub(v, co), "error-cause", at(fr, line), "a failure of the example source is reported as one of the computation", st)
            elif o == "kInterrupted":
                r.need(code_is(st, i, "Cancelled") and has_sub(v, it_), "error-cause", at(fr, line), "a failure is reported as an interruption", st)
            elif o == "kExampleIteratorError":
                r.need(status_of(st, i) is False and not fine and not code_is(st, i, "Cancelled") and has_sub(v, it_) and
                       fact(st, lambda a: a.op == "eq" and enum_of(a, "kCancelled")) is not None, "error-cause", at(fr, line), "a failure of the computation or an interruption is reported as one of the example source", st)
            else:
                r.need(False, "error-cause", at(fr, line), "a failure is reported as %s" % o, st)
        ctx.run(R(scope=HELP, ret=cret), [f])

    # engines
    runs = fs(PE, "RunPlan")
    if len(runs) < 2:
        raise AnalysisError("anchor vanished: engines that run plans")
    for f in runs:
        outs = [P_(f, i) for i, p in enumerate(f.params) if "vector" in str(p[2]) and "Tensor" not in str(p[2])]
        tf = "simple" in f.rel()
        is_run = lambda c: c.name.endswith("TensorFlowWrapper::Run") or isname(c, "RunTfLiteModelThreadSafe")

        def call(r, st, c):
            w = (c.file, c.line)
            if is_run(c):
                r.need(fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("ValidateTensorflowSpec")), True) is not None, "inputs-checked-first", w, "a computation is run without checking its declared inputs and outputs", st)
                r.need(st.ts.get("token"), "examples-offered", w, "a computation is run without access to its examples", st)
                r.need(not st.ts.get("closed"), "session-open", w, "a computation is run in a closed session", st)
                ns = [a for a in c.args if any(o(x) for o in outs for x in tm.subterms(a))]
                r.need(bool(ns), "outputs-as-asked", w, "other outputs are computed than asked for", st)
                st.ts["run"] = True
            if sn(c.name).startswith("AddDatasetTokenToInputs"):
                st.ts["token"] = True
                r.need(any(x.op == "call" and isname(x, "dataset_token_tensor_name") for a in c.args for x in tm.subterms(a)), "examples-under-declared-name", w, "the examples are offered under another name than declared", st)
            if isname(c, "CloseAndRelease"):
                st.ts["closed"] = True
            if isname(c, "push_back", "emplace_back", "insert", "emplace", "insert_or_assign", "try_emplace") and has_sub(mk("list", "?", tuple(c.args), 0), call_p("constant_inputs")):
                t = mk("list", "?", tuple(c.args), 0)
                r.need(fact(st, lambda a: a.op == "call" and isname(a, "FromProto"), True) is not None, "constants-converted", w, "a constant input that could not be read is used", st)
                r.need(len(elems(t)) == 1 and any(x.op == "get" or x.op == "call" and "get" in str(x.args[0]) or x.op == "fld" for x in tm.subterms(t)), "constants-under-own-name", w, "a constant input is given under another name", st)
                st.ts["const"] = True

        def write(r, st, place, val, line, fr):
            if place[0] == "i" and has_sub(place[2], call_p("constant_inputs")):
                st.ts["const"] = True
            if place[0] == "f" and sn(place[2]) in ("output_names", "output_tensors") and "PlanResult" in str(place[2]):
                st.ts[sn(place[2])] = True
                if sn(place[2]) == "output_names":
                    r.need(any(o(x) for o in outs for x in tm.closure(val)) or (None if val.op == "hav" else False), "names-as-asked", at(fr, line), "the outputs are reported under other names", st)
                else:
                    r.need(has_sub(val, lambda x: x.op == "call" and is_run_t(x)) or (None if has_sub(val, lambda x: x.op == "hav") else False), "tensors-computed", at(fr, line), "other values than those computed are reported", st)

        def branch(r, st, atom, pol, line, fr):
            if atom.op == "call" and isname(atom, "FromProto"):
                st.ts["conv"] = pol

        def it(r, st, node, fr):
            if node[0] == "rfor" and has_sub_node(node, "constant_inputs") or node[0] == "rfor" and st.ts.get("conv") is not None:
                r.need(bool(st.ts.get("const")), "constants-given", at(fr, node[1]), "a constant input is left out", st)
                st.ts["const"] = False
                st.ts["conv"] = None

        def is_run_t(x):
            return x.args[0].endswith("TensorFlowWrapper::Run") or isname(x, "RunTfLiteModelThreadSafe")

        def ret(r, st, v, line, fr):
            if fr.func is not f:
                return
            o = outcome_of(v)
            if has_sub(v, call_p("CreateComputationErrorPlanResult")):
                o = "error"
            if o is None:
                return r.need(None, "outcome-known", at(fr, line), "outcome not recognised", st)
            rs = {x for a in st.facts for x in tm.subterms(a) if x.op == "call" and is_run_t(x)}
            okr = any(status_of(st, x) is True or code_is(st, x, "OutOfRange") for x in rs) or any(fact(st, lambda a: a.op == "ok" and a.args[0].op == "out" and has_sub(a, lambda y: y is x), True) is not None for x in rs)
            if o == "kSuccess":
                r.need(bool(st.ts.get("run")) and okr and not any(status_of(st, x) is False and not code_is(st, x, "OutOfRange") for x in rs), "success-only-when-run", at(fr, line), "a success is reported although the computation failed", st)
                r.need(bool(st.ts.get("output_names") and st.ts.get("output_tensors")), "outputs-reported", at(fr, line), "a success is reported without its outputs", st)
            elif o == "kInterrupted":
                r.need(any(code_is(st, x, "Cancelled") for x in rs), "interrupted-only-when-cancelled", at(fr, line), "a failure is reported as an interruption", st)
            elif o in ("error", "kTensorflowError") and st.ts.get("run"):
                r.need(not any(code_is(st, x, "Cancelled") for x in rs), "interruption-reported", at(fr, line), "an interruption is reported as a failure", st)
            if tf and st.ts.get("run"):
                r.need(bool(st.ts.get("closed")), "session-closed", at(fr, line), "the session stays open after the computation", st)
        ctx.run(R(scope=PE, call=call, write=write, branch=branch, iter=it, ret=ret, stops=["ValidateTensorflowSpec$", "CreateComputationErrorPlanResult$", "TensorFlowWrapper::", "RunTfLiteModelThreadSafe$", "AddDatasetToken"]), [f])

    # the wrapped session
    wr = fs(TFW, "Run")
    closed = of_type(db, wr[0].cls, r"\bbool\b") if wr else ()
    for f in wr:
        def rcall(r, st, c):
            if c.name.endswith("InterruptibleRunner::Run"):
                r.need(fact(st, lambda a: a.op == "fld" and a.args[0] in closed, False) is not None, "no-run-after-close", (c.file, c.line), "a computation is run in a closed session", st)
            if c.name.endswith("Session::Close"):
                st.ts["close"] = True
            if isname(c, "reset", "release") and recv_field(c) == "session_":
                r.need(False, "session-kept-while-used", (c.file, c.line), "the session is freed while the computation may still be using it", st)

        def rwrite(r, st, place, val, line, fr):
            if place[0] == "f" and place[1] is THIS and place[2] in closed:
                st.ts["closed"] = tm.cval(val) if tm.is_const(val) else None
            elif place[0] == "f" and place[1] is THIS and val is NULL:
                r.need(False, "session-kept-while-used", at(fr, line), "the session is freed while the computation may still be using it", st)

        def rlam(r, st, v, fr, e):
            w = (fr.file, e[1])
            if st.ts.get("close"):
                r.need(st.ts.get("closed") is True, "abort-closes", w, "an aborted session does not count as closed", st)
            run = st.ts.get("srun")
            if run is not None and isinstance(v, T):
                s = status_of(st, v)
                r.need(None if s is None else not s or status_of(st, run) is True, "run-failure-reported", w, "a failed computation counts as successful", st)

        def rafter(r, st, c, ret):
            if c.name.endswith("Session::Run"):
                st.ts["srun"] = ret
        ctx.run(R(scope=TFW, call=rcall, after=rafter, write=rwrite, lamret=rlam), [f])

    for f in fs(TFW, "CloseAndRelease"):
        def kcall(r, st, c):
            if c.name.endswith("Session::Close"):
                st.ts["close"] = True
                r.need(fact(st, lambda a: a.op == "fld" and a.args[0] in closed, False) is not None, "closed-once", (c.file, c.line), "a closed session is closed again", st)

        def kwrite(r, st, place, val, line, fr):
            if place[0] == "f" and place[1] is THIS and place[2] in closed:
                st.ts["closed"] = True
            elif place[0] == "f" and place[1] is THIS and val is NULL:
                st.ts["freed"] = True
                r.need(bool(st.ts.get("closed")) or fact(st, lambda a: a.op == "fld" and a.args[0] in closed, True) is not None, "closed-before-freed", at(fr, line), "an open session is freed", st)

        def kret(r, st, v, line, fr):
            if fr.func is f and status_of(st, v) is not False:
                was = fact(st, lambda a: a.op == "fld" and a.args[0] in closed, True)
                r.need(was is not None or bool(st.ts.get("close") and st.ts.get("closed")), "close-closes", at(fr, line), "a session that is to be closed stays open", st)
                r.need(bool(st.ts.get("freed")) or fact(st, lambda a: a.op == "has", False) is not None, "close-frees", at(fr, line), "a session that is to be freed is kept", st)
        ctx.run(R(scope=TFW, call=kcall, write=kwrite, ret=kret), [f])

    for f in fs(TFW, "ToFcpStatus"):
        p = P_(f, 0)

        def sret(r, st, v, line, fr):
            ps = [x for a in st.facts for x in tm.subterms(a) if p(x)]
            if fr.func is f and ps:
                s = ps[0]
                good = status_of(st, v) is True if status_of(st, s) is True else code_is(st, v, "OutOfRange") if code_is(st, s, "OutOfRange") else code_is(st, v, "InvalidArgument")
                r.need(good, "session-status-kept", at(fr, line), "a status of the session is passed on as another one", st)
        ctx.run(R(scope=TFW, ret=sret), [f])

    for f in fs(TFW, "Create"):
        def wcall(r, st, c):
            if c.name.endswith("InterruptibleRunner") or c.name.endswith("::TensorFlowWrapper"):
                r.need(fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("NewSession")), True) is not None, "session-made", (c.file, c.line), "a session that could not be made is used", st)
                r.need(fact(st, call_p("ParseFromString", "ParseFromArray", "ParseFromCord"), True) is not None, "graph-parsed", (c.file, c.line), "a graph that could not be read is used", st)
                r.need(fact(st, lambda a: a.op == "ok" and has_sub(a, lambda x: x.op == "call" and x.args[0].endswith("Session::Create")), True) is not None, "graph-loaded", (c.file, c.line), "a session without its graph is used", st)
        ctx.run(R(scope=TFW, call=wcall), [f])

    # the wrapped interpreter
    thr = fs(LITE, "RunTfLiteModelThreadSafe")
    for f in thr:
        def tcall(r, st, c):
            w = (c.file, c.line)
            if isname(c, "Invoke"):
                r.need(bool(st.ts.get("held")), "abort-reaches-run", w, "a running computation cannot be aborted", st)
                st.ts["inv"] = True
            if isname(c, "store") and "atomic" in c.name or isname(c, "operator=") and "atomic" in c.name:
                null = bool(c.args) and c.args[0] is NULL
                st.ts["held"] = not null
            if isname(c, "Cancel"):
                st.ts["cancel"] = True
                r.need(fact(st, lambda a: a.op == "has" or a.op == "eq" and NULL in a.args) is not None, "abort-only-running", w, "an abort uses a delegate that may not exist", st)
            if sn(c.name) == "CreateTfTensorFromTfLiteTensor":
                r.need(fact(st, lambda a: a.op == "eq" and all(_size(x) for x in a.args) and has_sub(a, call_p("outputs")), True) is not None, "outputs-counted", w, "outputs are matched with names although their numbers differ", st)

        def tret(r, st, v, fr, e):
            if st.ts.get("inv"):
                r.need(st.ts.get("held") is False, "abort-ends-with-run", (fr.file, e[1]), "an abort after the computation has ended uses a delegate that is gone", st)
                res = [a for a in st.facts if a.op == "eq" and enum_of(a, "kTfLiteOk") and has_sub(a, call_p("Invoke"))]
                if res and status_of(st, v) is True:
                    r.need(any(st.facts[a] for a in res if isinstance(a.args[1], T) and a.args[1].op == "call" and isname(a.args[1], "Invoke")), "lite-failure-reported", (fr.file, e[1]), "a failed computation counts as successful", st)
        ctx.run(R(scope=LITE, call=tcall, lamret=tret), [f])
        # what an abort looks at exists from the start
        for x in walk(f.body):
            if x[0] == "decl" and "atomic" in str(x[4]):
                ctx.check("abort-state-initialised", f.rel(), x[1], bool(x[5]) and str(x[5]) != "None" and not (isinstance(x[5], list) and x[5][0] in ("ctor", "construct") and not x[5][2]), "an abort may look at a value that was never set")

    for f in fs(LITE, "ConvertTfLiteStatusInternal"):
        def lret(r, st, v, line, fr):
            if fr.func is not f:
                return
            oks = fact(st, lambda a: a.op == "eq" and enum_of(a, "kTfLiteOk"))
            s = status_of(st, v)
            if oks is not None and s is not None:
                r.need(s == oks[1], "lite-status-kept", at(fr, line), "a status of the interpreter is passed on as another one", st)
            can = fact(st, call_p("HasCancelled"))
            if can is not None:
                r.need(code_is(st, v, "Cancelled") == can[1], "lite-cancellation-kept", at(fr, line), "a cancelled computation is reported as failed, or a failed one as cancelled", st)
        ctx.run(R(scope=LITE, ret=lret), [f])

    for f in fs(LITE, "InitializeInterpreter"):
        def icall(r, st, c):
            if isname(c, "AssignStringInput"):
                r.need(fact(st, lambda a: a.op == "haskey" and has_sub(a, call_p("GetInputName")), True) is not None, "input-given", (c.file, c.line), "an input is filled that was not given", st)
                st.ts["in"] = True
                if len(c.args) >= 2:
                    r.need(has_sub(c.args[1], call_p("GetInputName")) or (None if c.args[1].op == "hav" else False), "input-by-name", (c.file, c.line), "an input is filled with another one's value", st)

        def iret(r, st, v, line, fr):
            if fr.func is f and status_of(st, v) is not False:
                bad = [a for a, p in st.facts.items() if a.op == "eq" and enum_of(a, "kTfLiteOk") and p is False]
                r.need(not bad, "setup-failure-reported", at(fr, line), "an interpreter that could not be set up is used", st)
                for step in ("operator()", "ModifyGraphWithDelegate", "AllocateTensors"):
                    r.need(any(p and a.op == "eq" and enum_of(a, "kTfLiteOk") and any(x.op == "call" and isname(x, step) for x in a.args if isinstance(x, T)) for a, p in st.facts.items()), "setup-failure-reported", at(fr, line), "an interpreter is used without a successful %s" % step, st)
        def iiter(r, st, node, fr):
            if fr.func is f and node[0] == "rfor":
                r.need(bool(st.ts.get("in")), "every-input-filled", at(fr, node[1]), "an input is left unset", st)
                st.ts["in"] = False
        ctx.run(R(scope=LITE, call=icall, ret=iret, iter=iiter, stops=["AssignStringInput$"]), [f])
    for n in ("outcome-kept", "error-cause", "success-only-when-run", "no-run-after-close", "abort-ends-with-run", "abort-state-initialised"):
        ctx.need(n, 1)


def has_sub_node(node, name):
    return any(x[0] == "call" and str(x[1]).endswith("::" + name) for x in walk(node[:6]))
