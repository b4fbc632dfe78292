"""Tracing: spans, recorders, traits (G01) and the generator of traits (G02)."""
import os
import re

from fcx.db import REPO
from fcx.kit import *
from rules.base import at, P_, of_type

TR = r"^fcp/tracing/(?!test_)[^/]*\.(cc|h)$"
UNITS = [r"^fcp/tracing/[^/]*\.cc$", r"^@inst/tracing\.cc$"]


def g01(ctx):
    db = ctx.db
    fs = lambda cls, *names: [f for f in db.in_files(TR) if f.body is not None and sn(f.cls or "") == cls and (f.short in names) and not f.dep]
    rec = lambda *n: fs("TracingRecorderImpl", *n)
    for n in ("InstallAsGlobal", "UninstallAsGlobal", "InstallAsThreadLocal", "UninstallAsThreadLocal", "GetCurrent"):
        if not rec(n):
            raise AnalysisError("anchor vanished: TracingRecorderImpl::" + n)

    # which places hold the recorder of the process and of the thread
    slots = {}
    for n in ("InstallAsGlobal", "InstallAsThreadLocal"):
        def look(r, st, place, val, line, fr):
            if place[0] in ("f", "g") and val is THIS:
                slots[n] = place
            elif place[0] == "f" and place[1] is not THIS and tm.is_const(val) and tm.cval(val) is True:
                slots["flag"] = place
            elif place[0] in ("f", "g") and place[1] is not THIS and val.op == "lin":
                slots["count"] = place
        ctx.run(R(scope=TR, write=look), rec(n))
    if "count" not in slots:
        def look(r, st, place, val, line, fr):
            if place[0] in ("f", "g") and place[1] is not THIS and val.op == "lin":
                slots["count"] = place
        ctx.run(R(scope=TR, write=look), rec("UninstallAsThreadLocal"))
    if "InstallAsGlobal" not in slots or "InstallAsThreadLocal" not in slots:
        raise AnalysisError("anchor vanished: where the current recorder is kept")
    sp = lambda key: slots[key][-1] if key in slots else None
    at_slot = lambda key: lambda t: t.op == "fld" and t.args[0] == sp(key) or t.op == "gvar" and t.args[0] == sp(key)
    G, L, U, N = at_slot("InstallAsGlobal"), at_slot("InstallAsThreadLocal"), at_slot("flag"), at_slot("count")
    is_null = lambda st, p: fact(st, lambda a: a.op == "has" and p(a.args[0]), False) is not None
    is_this = lambda st, p, pol=True: fact(st, lambda a: a.op == "eq" and THIS in a.args and any(p(x) for x in a.args if isinstance(x, T)), pol) is not None
    no_this = lambda st: fact(st, lambda a: a.op == "has" and a.args[0] is THIS, False) is not None

    def place_is(place, key):
        return key in slots and place[0] == slots[key][0] and place[-1] == slots[key][-1]

    def mode(which):
        def write(r, st, place, val, line, fr):
            w = at(fr, line)
            if no_this(st):
                return
            for key in ("InstallAsGlobal", "InstallAsThreadLocal", "flag", "count"):
                if place_is(place, key):
                    r.need(bool(st.locks), "changed-under-lock", w, "the current recorder is changed without holding the lock", st)
                    r.need(not any(x[0] == "decl" and "ReaderMutexLock" in str(x[4]) or x[0] == "call" and sn(str(x[1])) == "ReaderLock" for x in walk(fr.func.body)), "changed-under-lock", w, "the current recorder is changed while others may be reading it", st)
            if place_is(place, "InstallAsGlobal"):
                st.ts["g"] = "this" if val is THIS else "null" if val is NULL else "?"
                if val is NULL:
                    mine = fact(st, lambda a: a.op == "fld" and a.args[1] is THIS, True) is not None or is_this(st, G) or st.ts.get("was")
                    r.need(bool(mine), "own-recorder-removed", w, "a recorder removes another one that is installed for the process", st)
                if val is THIS:
                    r.need(is_null(st, G), "one-global-recorder", w, "a global recorder replaces another one", st)
                    if "flag" in slots:
                        r.need(fact(st, U, False) is not None, "no-mixed-recorders", w, "a global recorder is installed besides thread local ones", st)
            if place_is(place, "InstallAsThreadLocal"):
                st.ts["l"] = "this" if val is THIS else "null" if val is NULL else "?"
                if val is THIS:
                    r.need(is_null(st, G), "no-mixed-recorders", w, "a thread local recorder is installed besides a global one", st)
                    r.need(is_null(st, L) or is_this(st, L), "one-recorder-per-thread", w, "a thread local recorder replaces another one", st)
                elif val is NULL:
                    r.need(is_this(st, L), "own-recorder-removed", w, "another recorder than the given one is removed", st)
                    if "count" in slots:
                        r.need(fact(st, lambda a: a.op == "eq" and has_sub(a, N) and has_sub(a, lambda x: tm.is_const(x) and tm.cval(x) in (0, 1)), True) is not None or at_least(st, 0, N, -1), "removed-with-last-use", w,
                               "a thread local recorder is removed while it is still installed elsewhere", st)
            if place_is(place, "count"):
                d = [k for x, k in ((x, tm._lin(val)[0]) for x in tm.subterms(val) if N(x))]
                st.ts["n"] = st.ts.get("n", 0) + (d[0] if d else 0)
            if place_is(place, "flag"):
                st.ts["u"] = tm.cval(val) if tm.is_const(val) else None
                if tm.is_const(val) and tm.cval(val) is False:
                    other = fact(st, lambda a: has_sub(a, lambda x: x.op == "fld" and x.args[0] not in [s[-1] for s in slots.values()] and x.args[1] is not THIS))
                    r.need(False if other is None else None, "thread-local-noticed", w, "recorders of other threads are no longer looked up", st)
            if place[0] == "f" and place[1] is THIS and tm.is_const(val) and isinstance(tm.cval(val), bool):
                if fact(st, lambda a: a.op == "fld" and a.args[0] == place[2] and a.args[1] is THIS, True) is not None:
                    st.ts["was"] = True
                st.ts["own"] = tm.cval(val)

        def ret(r, st, v, line, fr):
            f = fr.func
            if f.short != which or no_this(st):
                return
            w = at(fr, line)
            if which == "InstallAsGlobal":
                r.need(st.ts.get("g") == "this" and st.ts.get("own") is True, "installed", w, "a recorder that was installed is not the current one", st)
            if which == "UninstallAsGlobal":
                r.need(st.ts.get("g") == "null" and st.ts.get("own") is False, "uninstalled", w, "a recorder that was removed remains the current one", st)
            if which == "InstallAsThreadLocal":
                r.need(st.ts.get("l") == "this" or is_this(st, L), "installed", w, "a recorder that was installed is not the current one of its thread", st)
                if "count" in slots:
                    r.need(st.ts.get("n") == 1, "uses-counted", w, "the uses of a thread local recorder are miscounted", st)
                if "flag" in slots:
                    r.need(st.ts.get("u") is True or fact(st, U, True) is not None, "thread-local-noticed", w, "thread local recorders are not looked up after one was installed", st)
            if which == "UninstallAsThreadLocal":
                r.need(is_this(st, L), "own-recorder-removed", w, "another recorder than the given one is removed", st)
                if "count" in slots:
                    r.need(st.ts.get("n") == -1, "uses-counted", w, "the uses of a thread local recorder are miscounted", st)
                    r.need(fact(st, lambda a: a.op == "lt" and has_sub(a, N), True) is not None or at_least_one(st, N), "uses-counted", w, "a thread local recorder is removed more often than installed", st)
                    if st.ts.get("l") != "null":
                        more = fact(st, lambda a: a.op == "eq" and has_sub(a, N) and has_sub(a, lambda x: tm.is_const(x)), False) is not None or at_least(st, N, 0, 2)
                        r.need(more, "uninstalled", w, "a recorder that was removed remains the current one of its thread", st)
        return dict(write=write, ret=ret)

    def at_least_one(st, p):
        ts = {x for a in st.facts for x in tm.subterms(a) if p(x)}
        return any(at_least(st, lambda t: t is x, lambda t: tm.is_const(t) and tm.cval(t) == 0, 1) for x in ts)

    for n in ("InstallAsGlobal", "UninstallAsGlobal", "InstallAsThreadLocal", "UninstallAsThreadLocal"):
        ctx.run(R(scope=TR, **mode(n)), rec(n))

    # what is kept per thread is kept per thread
    tls = {}
    for f in db.in_files(TR):
        for x in walk(f.body or []):
            if x[0] == "decl" and x[6]:
                tls[x[7]] = (x[6] == 2, f.rel(), x[1])
    for n, g in db.globals.items():
        tls.setdefault(n, (len(g) > 4 and bool(g[4]), os.path.relpath(g[2], REPO) if g[2] else "", g[3]))
    own = slots["InstallAsThreadLocal"]
    base = own[1] if own[0] == "f" else mk("gvar", own[1], 0)
    if isinstance(base, T) and base.op == "gvar" and base.args[0] in tls:
        k, file, line = tls[base.args[0]]
        ctx.check("per-thread", file, line, k, "the recorder of a thread is shared between threads")

    # the current recorder
    def cret(r, st, v, line, fr):
        if fr.func.short != "GetCurrent":
            return
        w = at(fr, line)
        ul = fact(st, U)
        if has_sub(v, L):
            r.need(("flag" not in slots or ul is not None and ul[1]) and fact(st, lambda a: a.op == "has" and L(a.args[0]), True) is not None, "current-recorder", w, "a recorder is returned that is not installed", st)
        elif has_sub(v, G):
            r.need(("flag" not in slots or ul is not None and not ul[1]) and fact(st, lambda a: a.op == "has" and G(a.args[0]), True) is not None, "current-recorder", w, "a recorder is returned that is not installed", st)
        else:
            r.need(is_null(st, L) if ul is not None and ul[1] else is_null(st, G), "current-recorder", w, "the default recorder is returned although another one is installed", st)

    def ccall(r, st, c):
        if isname(c, "shared_from_this") and (L(c.recv) or G(c.recv)):
            r.need(bool(st.locks), "looked-up-under-lock", c, "the current recorder is looked up without holding the lock", st)
    ctx.run(R(scope=TR, ret=cret, call=ccall), rec("GetCurrent"))

    # a recorder that goes away is no longer current
    dt = [f for f in db.in_files(TR) if f.kind == "dtor" and sn(f.cls) == "TracingRecorderImpl" and f.body is not None]
    ctx.check("destroyed-not-current", "fcp/tracing/tracing_recorder_impl.h", 1, bool(dt), "a recorder can go away while it is the current one")
    for f in dt:
        def dwrite(r, st, place, val, line, fr):
            if place_is(place, "InstallAsGlobal"):
                st.ts["g"] = "null" if val is NULL else "?"
            if place_is(place, "InstallAsThreadLocal"):
                st.ts["l"] = "null" if val is NULL else "?"

        def dret(r, st, v, line, fr):
            if fr.func is f and not no_this(st):
                w = at(fr, line)
                r.need(st.ts.get("g") == "null" or is_this(st, G, False), "destroyed-not-current", w, "a recorder goes away while it is the global one", st)
                r.need(st.ts.get("l") == "null" or is_this(st, L, False) or fact(st, U, False) is not None, "destroyed-not-current", w, "a recorder goes away while it is the one of its thread", st)
        ctx.run(R(scope=TR, write=dwrite, ret=dret), [f])

    # the stack of spans
    top = {}

    def tret(r, st, v, line, fr):
        if v.op == "gvar":
            top["t"] = v.args[0]
    ctx.run(R(scope=TR, ret=tret), fs("TracingSpanImpl", "Top"))
    if not top:
        raise AnalysisError("anchor vanished: top of the stack of spans")
    T_ = lambda t: t.op == "gvar" and t.args[0] == top["t"]
    if top["t"] in tls:
        k, file, line = tls[top["t"]]
        ctx.check("per-thread", file, line, k, "the spans of a thread are shared between threads")
    ptr = of_type(db, "TracingSpanImpl", r"TracingSpanImpl \*")
    for f in fs("TracingSpanImpl", "Push"):
        def pw(r, st, place, val, line, fr):
            if place[0] == "g" and place[1] == top["t"]:
                st.ts["top"] = val
            if place[0] == "f" and place[1] is THIS and place[2] in ptr:
                r.need(T_(val), "push-remembers", at(fr, line), "entering a span forgets the one around it", st)
                st.ts["prev"] = True

        def pr(r, st, v, line, fr):
            if fr.func is f:
                r.need(st.ts.get("top") is THIS and bool(st.ts.get("prev")), "push-enters", at(fr, line), "entering a span does not make it the current one", st)
        ctx.run(R(scope=TR, write=pw, ret=pr), [f])
    for f in fs("TracingSpanImpl", "Pop"):
        def qw(r, st, place, val, line, fr):
            if place[0] == "g" and place[1] == top["t"]:
                st.ts["top"] = True
                r.need(val.op == "fld" and val.args[0] in ptr and val.args[1] is THIS, "pop-restores", at(fr, line), "leaving a span does not restore the one around it", st)
                r.need(is_this(st, T_), "pop-only-top", at(fr, line), "a span is left that is not the current one", st)

        def qr(r, st, v, line, fr):
            if fr.func is f:
                r.need(bool(st.ts.get("top")), "pop-restores", at(fr, line), "a span that was left remains the current one", st)
        ctx.run(R(scope=TR, write=qw, ret=qr), [f])

    # scopes enter once and leave
    for f in [f for f in db.in_files(TR) if sn(f.cls or "") in ("TracingSpan", "ScopedTracingRecorder") and f.body is not None and f.kind in ("ctor", "dtor") and (not f.dep or sn(f.cls) == "TracingSpan")]:
        want = {("TracingSpan", "ctor"): "Push", ("TracingSpan", "dtor"): "Pop", ("ScopedTracingRecorder", "ctor"): "InstallAsThreadLocal", ("ScopedTracingRecorder", "dtor"): "UninstallAsThreadLocal"}[sn(f.cls), f.kind]

        def sc(r, st, c):
            if isname(c, want):
                st.ts["n"] = st.ts.get("n", 0) + 1

        def sr(r, st, v, line, fr):
            if fr.func is f:
                r.need(st.ts.get("n") == 1, "scope-entered-and-left", at(fr, line), "a scope does not %s exactly once" % want, st)
        ctx.run(R(scope=TR, call=sc, ret=sr, stops=["::(Push|Pop)$", "AsThreadLocal$"]), [f])

    # where things are recorded
    for f in [f for f in db.in_files(TR) if f.name in ("fcp::Trace", "fcp::UnscopedTracingSpan::UnscopedTracingSpan") and f.body is not None and not f.dep]:
        given = [i for i, p in enumerate(f.params) if "TracingSpanRef" in str(p[2])]
        sref = P_(f, given[0]) if given else None

        def wc(r, st, c):
            if not isname(c, "TraceImpl", "CreateChildSpan"):
                return
            st.ts["n"] = st.ts.get("n", 0) + 1
            if sref:
                r.need(has_sub(c.recv, sref), "recorded-in-given-span", c, "something is recorded by another recorder than that of the given span", st)
                r.need(bool(c.args) and has_sub(c.args[0], sref) and has_sub(c.args[0], call_p("span_id")) or (None if c.args and c.args[0].op == "hav" else False), "recorded-in-given-span", c, "something is recorded in another span than the given one", st)
            elif f.short == "Trace":
                t = fact(st, lambda a: a.op == "has" and (a.args[0].op == "call" and isname(a.args[0], "Top") or T_(a.args[0])))
                if t is None:
                    r.need(None, "recorded-in-current-span", c, "span not recognised", st)
                else:
                    tops = call_p("Top")(c.recv) or T_(c.recv)
                    r.need(tops if t[1] else has_sub(c.recv, call_p("GetRootSpan")) and has_sub(c.recv, call_p("GetCurrent")), "recorded-in-current-span", c, "an event is not recorded in the current span", st)
            else:
                r.need(has_sub(c.recv, call_p("Top")), "recorded-in-current-span", c, "a span does not begin within the current one", st)
                r.need(bool(c.args) and has_sub(c.args[0], call_p("span_id")) and has_sub(c.args[0], call_p("Top")) or (None if c.args and c.args[0].op == "hav" else False), "recorded-in-current-span", c, "a span does not begin within the current one", st)
            r.need(any(has_sub(a, call_p("BuildFlatBuffer", "Release")) for a in c.args), "recorded-as-given", c, "something else is recorded than given", st)

        def wr(r, st, v, line, fr):
            if fr.func is f:
                r.need(st.ts.get("n") == 1, "recorded-once", at(fr, line), "an event or span is not recorded exactly once", st)
        ctx.run(R(scope=TR, call=wc, ret=wr, stops=["::Top$", "::GetCurrent$", "::GetRootSpan$", "::recorder$", "::span_id$", "::TraceImpl$", "::CreateChildSpan$", "BuildFlatBuffer$"]), [f])

    for f in [f for f in db.in_files(TR) if f.short == "BuildFlatBuffer" and not f.dep]:
        def bc(r, st, c):
            if isname(c, "Finish"):
                r.need(len(c.args) >= 2 and [k for k in range(4) if has_sub(c.args[1], lambda x: x.op == "idx" and tm.is_const(x.args[1]) and tm.cval(x.args[1]) == k and has_sub(x, lambda y: y.op == "gvar" and sn(y.args[0]) == "kTag"))] == [0, 1, 2, 3]
                       or len(c.args) >= 2 and not has_sub(c.args[1], lambda x: x.op == "list") and (None if has_sub(c.args[1], lambda x: x.op in ("hav", "call")) else False), "tagged", c, "an event is not marked with its own tag", st)
                if len(c.args) >= 2 and c.args[1].op == "list":
                    ks = [tm.cval(x.args[1]) for x in c.args[1].args[1] if isinstance(x, T) and x.op == "idx" and tm.is_const(x.args[1])]
                    r.need(ks == [0, 1, 2, 3], "tagged", c, "the letters of a tag are mixed up", st)
        ctx.run(R(scope=TR, call=bc), [f])

    for f in fs("TracingSpanRef", "Top"):
        def rret(r, st, v, line, fr):
            if fr.func is f:
                t = fact(st, lambda a: a.op == "has" and (T_(a.args[0]) or call_p("Top")(a.args[0])))
                if t is None:
                    return r.need(None if has_sub(v, lambda x: T_(x) or x.op == "hav") else False, "current-span", at(fr, line), "another span than the current one is referred to", st)
                r.need(has_sub(v, lambda x: T_(x) or call_p("Top")(x)) if t[1] else has_sub(v, call_p("GetRootSpan")), "current-span", at(fr, line), "another span than the current one is referred to", st)
        ctx.run(R(scope=TR, ret=rret, stops=["::GetCurrent$", "::GetRootSpan$", "::Ref$"]), [f])

    # ids
    for f in [f for f in db.in_files(TR) if f.short == "NextUniqueId"]:
        def iw(r, st, place, val, line, fr):
            # a counter moved by one operation
            if place[0] in ("g", "f") and val.op == "lin" and any(x[0] == "asg" and x[1] in ("+=", "-=") for x in walk(f.body)):
                st.ts["old"] = place[-1]

        def ir(r, st, v, line, fr):
            if fr.func is f and st.ts.get("old") is not None:
                r.need(has_sub(v, lambda x: x.op in ("gvar", "fld") and x.args[0] == st.ts["old"]) and "atomic" in str((db.globals.get(st.ts["old"]) or db.fields.get(st.ts["old"]) or ["atomic"] * 2)[0:2]), "ids-unique", at(fr, line), "two spans can get the same id", st)
            elif fr.func is f:
                a = [x for x in tm.subterms(v) if x.op == "call" and isname(x, "fetch_add", "operator++")]
                if has_sub(v, lambda x: x.op == "arith" and any(has_sub(x, lambda y: y is z) for z in a)):
                    r.need(False, "ids-unique", at(fr, line), "only a part of the counter makes the id, so that ids come again", st)
                for z in a[:1]:
                    n = z.args[1]
                    g = db.globals.get(n.args[0]) if n is not None and n.op == "gvar" else None
                    ini = [x[1] for x in walk(g[1]) if x[0] == "int"] if g and isinstance(g[1], list) else []
                    if len(ini) == 1 and not isname(z, "operator++"):
                        r.need(ini[0] != 0, "ids-unique", at(fr, line), "the first span gets the id of root spans", st)
                r.need(bool(a) and (isname(a[0], "operator++") or bool(a[0].args[2]) and tm.is_const(a[0].args[2][0]) and tm.cval(a[0].args[2][0]) != 0), "ids-unique", at(fr, line), "two spans can get the same id", st)
        ctx.run(R(scope=TR, write=iw, ret=ir), [f])
    W = {"int": 32, "long": 64, "long long": 64, "short": 16, "unsigned int": 32, "unsigned long": 64, "std::int64_t": 64, "int64_t": 64, "std::uint64_t": 64, "uint64_t": 64}
    for f in [f for f in db.in_files(TR) if f.kind == "ctor" and sn(f.cls) == "TracingSpanId" and f.params]:
        fld = [x for c in db.classes.values() if sn(c["name"]) == "TracingSpanId" for x in c["fields"]]
        have, keep = W.get(str(f.params[0][2])), W.get(fld[0][1]) if fld else None
        if have and keep:
            ctx.check("ids-not-cut", f.rel(), f.line, have >= keep and keep == 64, "ids are cut to %d bits, so that later spans get the ids of earlier ones" % have)
    for f in [f for f in db.in_files(TR) if f.short in ("operator==", "operator!=", "operator<") and "TracingSpanId" in str(f.params)]:
        def er(r, st, v, line, fr):
            if fr.func is not f:
                return
            a, b = (v.args[0], v.args[1]) if v.op in ("eq", "lt") and len(v.args) > 1 else (v.args[0].args[0], v.args[0].args[1]) if v.op == "not" and v.args[0].op in ("eq", "lt") else (None, None)
            if a is None:
                return r.need(None, "ids-compared", at(fr, line), "comparison not recognised", st)
            op = ("not " if v.op == "not" else "") + (v.op if v.op != "not" else v.args[0].op)
            want = {"operator==": "eq", "operator!=": "not eq", "operator<": "lt"}[f.short]
            inorder = P_(f, 0)(root(a)) and P_(f, 1)(root(b))
            either = {id(root(a)), id(root(b))} and (inorder or P_(f, 1)(root(a)) and P_(f, 0)(root(b)))
            r.need(op == want and (inorder if want == "lt" else either), "ids-compared", at(fr, line), "ids of spans are compared wrongly", st)
        ctx.run(R(scope=TR, ret=er), [f])

    # the text recorder
    text = lambda *n: fs("TextTracingRecorderImpl", *n)
    for f in text("TraceImpl"):
        pid, pbuf, ptr_ = P_(f, 0), P_(f, 1), P_(f, 2)

        def xc(r, st, c):
            if isname(c, "operator<<"):
                for a in c.args:
                    if isinstance(a, T):
                        if pid(root(a)) and not has_sub(a, call_p("operator<<")):
                            st.ts["id"] = True
                        x = a
                        if has_sub(x, call_p("TextFormat")) and not has_sub(x, call_p("operator<<")):
                            st.ts["text"] = has_sub(x, pbuf)
                        if has_sub(x, call_p("Severity")) and not has_sub(x, call_p("operator<<")):
                            st.ts["sev"] = True
                        if has_sub(x, call_p("Name")) and not has_sub(x, call_p("operator<<")):
                            st.ts["name"] = True

        def xr(r, st, v, line, fr):
            if fr.func is f:
                for k, what in (("id", "span"), ("text", "contents"), ("sev", "severity"), ("name", "name")):
                    r.need(bool(st.ts.get(k)), "event-written", at(fr, line), "an event is written without its %s" % what, st)
        ctx.run(R(scope=TR, call=xc, ret=xr, stops=["::TextFormat$", "::Name$", "::Severity$", "::SeverityString$", "TracingSpanId.*operator<<"]), [f])
    for f in text("BeginSpan", "EndSpan"):
        begin = f.short == "BeginSpan"
        pid, ppar, pn = P_(f, 0), P_(f, 1), P_(f, 2 if begin else 1)

        def yc(r, st, c):
            if isname(c, "operator<<"):
                for a in c.args:
                    if isinstance(a, T) and not has_sub(a, call_p("operator<<")):
                        if pid(root(a)):
                            st.ts["id"] = True
                        if pn(root(a)):
                            st.ts["name"] = True
                        if begin and ppar(root(a)):
                            st.ts["par"] = True
                        s = tm.cval(a) if tm.is_const(a) else None
                        if isinstance(s, str) and ("BEGIN" in s or "END" in s):
                            r.need(("BEGIN" in s) == begin, "begin-and-end", c, "the begin and end of spans are mixed up", st)
                            st.ts["be"] = True

        def yr(r, st, v, line, fr):
            if fr.func is f:
                w = at(fr, line)
                r.need(bool(st.ts.get("id") and st.ts.get("be")), "span-written", w, "a span is written without its id", st)
                named = fact(st, lambda a: a.op == "eq" and has_sub(a, pn))
                if named is None or not named[1]:
                    r.need(bool(st.ts.get("name")), "span-written", w, "a span is written without its name", st)
                if begin:
                    rootspan = fact(st, lambda a: a.op == "eq" and has_sub(a, pid))
                    if rootspan is None or not rootspan[1]:
                        r.need(bool(st.ts.get("par")), "parent-written", w, "a span is written without the one around it", st)
        ctx.run(R(scope=TR, call=yc, ret=yr), [f])
    for f in text("CreateChildSpan"):
        def zr(r, st, v, line, fr):
            if fr.func is f and v.op == "new":
                a = v.args[1]
                r.need(any(has_sub(x, call_p("NextUniqueId")) for x in a), "child-id-new", at(fr, line), "a new span gets the id of another one", st)
                r.need(len(a) >= 2 and P_(f, 0)(root(a[-1])) and not P_(f, 0)(root(a[-2])), "child-of-parent", at(fr, line), "a new span is put under another parent", st)
                r.need(has_sub(a[0], call_p("shared_from_this")), "recorder-outlives-span", at(fr, line), "a span can outlive its recorder", st)
        ctx.run(R(scope=TR, ret=zr, stops=["NextUniqueId$"]), [f])
    for f in [f for f in db.in_files(TR) if sn(f.cls or "") == "TextTracingSpanImpl" and f.body is not None]:
        ids, recs = of_type(db, "TextTracingSpanImpl", "TracingSpanId"), of_type(db, "TextTracingSpanImpl", r"TextTracingRecorderImpl")
        idf = lambda t: t.op == "fld" and t.args[0] in ids and t.args[1] is THIS

        def sc2(r, st, c):
            if f.short == "TraceImpl" and isname(c, "TraceImpl"):
                st.ts["n"] = st.ts.get("n", 0) + 1
                r.need(idf(c.args[0]), "own-id", c, "an event is recorded in another span", st)
                r.need(has_sub(c.recv, lambda x: x.op == "fld" and x.args[0] in recs and x.args[1] is THIS) or (None if has_sub(c.recv, lambda x: x.op == "hav") else False), "own-recorder", c, "an event is recorded by another recorder than that of its span", st)
            if f.kind == "dtor" and isname(c, "EndSpan"):
                st.ts["n"] = st.ts.get("n", 0) + 1
                r.need(idf(c.args[0]), "own-id", c, "the end of another span is recorded", st)
            if f.kind == "ctor" and isname(c, "BeginSpan"):
                st.ts["n"] = st.ts.get("n", 0) + 1
                if len(f.params) > 1:
                    r.need(P_(f, len(f.params) - 2)(c.args[0]) and P_(f, len(f.params) - 1)(c.args[1]), "own-id", c, "the begin of another span is recorded", st)
                    shown = lambda n: any(has_sub(a, call_p(n)) for a in c.args[2:]) or (None if any(has_sub(a, lambda x: x.op == "hav") for a in c.args[2:]) else False)
                    r.need(shown("Name"), "span-written", c, "a span is reported without its name", st)
                    r.need(shown("TextFormat"), "span-written", c, "a span is reported without its contents", st)

        def sw2(r, st, place, val, line, fr):
            if f.kind == "ctor" and place[0] == "f" and place[2] in ids and len(f.params) > 1:
                r.need(P_(f, len(f.params) - 2)(val), "own-id", at(fr, line), "a span takes the id of another one", st)
            if f.kind == "ctor" and place[0] == "f" and val.op == "list":
                cl = [c for c in db.classes.values() if c["name"] == str(val.args[0])]
                for i, x in enumerate(val.args[1]):
                    if cl and i < len(cl[0]["fields"]) and has_sub(x, call_p("TextFormat")):
                        r.need("string_view" not in cl[0]["fields"][i][1] and "*" not in cl[0]["fields"][i][1], "text-kept", at(fr, line), "a span refers to a text that is gone when it ends", st)
            if f.kind == "ctor" and place[0] == "f" and place[2] in recs and "shared_ptr" in str(db.fields[place[2]][1]):
                st.ts["keep"] = P_(f, 0)(val)

        def sr2(r, st, v, line, fr):
            if fr.func is not f:
                return
            if f.short == "TraceImpl" or f.kind in ("ctor", "dtor"):
                r.need(st.ts.get("n") == 1, "span-reported", at(fr, line), "an event, begin or end is not recorded exactly once", st)
            if f.kind == "ctor" and len(f.params) > 1:
                r.need(bool(st.ts.get("keep")), "recorder-outlives-span", at(fr, line), "a span can outlive its recorder", st)
            if f.short == "Ref":
                r.need(has_sub(v, idf) and has_sub(v, lambda x: x.op == "fld" and x.args[0] in recs), "own-id", at(fr, line), "a reference names another span", st)
        ctx.run(R(scope=TR, call=sc2, write=sw2, ret=sr2, stops=["TextTracingRecorderImpl::", "::Name$", "::TextFormat$"]), [f])
    # the root span reports its end while the output is still open
    for c in db.classes.values():
        if sn(c["name"]) == "TextTracingRecorderImpl":
            pos = {x[0]: i for i, x in enumerate(c["fields"])}
            spans = [pos[x[0]] for x in c["fields"] if "TracingSpanImpl" in x[1]]
            others = [(pos[x[0]], x) for x in c["fields"] if "TracingSpanImpl" not in x[1]]
            for i, x in others:
                ctx.check("root-span-ends-first", os.path.relpath(c["file"], REPO), x[3], all(i < s for s in spans), "the output goes away before the end of the root span is written to it")

    # traits
    for f in [f for f in db.in_files(TR) if f.short == "SeverityString"]:
        def vr(r, st, v, line, fr):
            if fr.func is f:
                e = fact(st, lambda a: a.op == "eq" and any(isinstance(x, T) and x.op == "enum" for x in a.args), True)
                s = tm.cval(v) if tm.is_const(v) else None
                if e is None or not isinstance(s, str):
                    return r.need(None, "severity-name", at(fr, line), "severity not recognised", st)
                n = next(sn(str(x.args[0])) for x in e[0].args if isinstance(x, T) and x.op == "enum")
                r.need(n.lower() == "k" + s.lower(), "severity-name", at(fr, line), "a severity is called by the name of another one", st)
        ctx.run(R(scope=TR, ret=vr), [f])
    for f in fs("TracingTraitsBase", "Lookup"):
        def lr(r, st, v, line, fr):
            if fr.func is f:
                k = fact(st, lambda a: a.op == "haskey" and P_(f, 0)(a.args[1]))
                if k is None:
                    return r.need(None, "traits-by-tag", at(fr, line), "lookup not recognised", st)
                found = has_sub(v, lambda x: P_(f, 0)(x)) or has_sub(v, call_p("begin", "rbegin", "front"))
                r.need(found == k[1], "traits-by-tag", at(fr, line), "a tag is answered with the traits of another one", st)
        ctx.run(R(scope=TR, ret=lr), [f])
    for f in fs("TracingTraitsBase", "Register"):
        def gw(r, st, place, val, line, fr):
            if place[0] == "i":
                st.ts["n"] = P_(f, 0)(place[2]) and flows_from(val, P_(f, 1))

        def gc(r, st, c):
            if isname(c, "insert", "emplace", "try_emplace"):
                st.ts["first"] = True
            if isname(c, "insert_or_assign"):
                st.ts["n"] = True

        def gr(r, st, v, line, fr):
            if fr.func is f:
                r.need(bool(st.ts.get("n")) and not st.ts.get("first"), "last-registration-wins", at(fr, line), "the last traits registered for a tag are not the ones found for it", st)
        ctx.run(R(scope=TR, write=gw, call=gc, ret=gr), [f])

    # references, roots, front ends
    for f in [f for f in db.in_files(TR) if sn(f.cls or "") == "TracingSpanRef" and f.kind == "ctor" and len(f.params) == 2]:
        def kw(r, st, place, val, line, fr):
            if fr.func is f and place[0] == "f" and place[1] is THIS and place[2] in db.fields:
                i = 0 if "Recorder" in str(db.fields[place[2]][1]) else 1
                r.need(flows_from(val, P_(f, i)) or (None if has_sub(val, lambda x: x.op == "hav") else False), "reference-as-given", at(fr, line), "a reference names another span or recorder than given", st)
        ctx.run(R(scope=TR, write=kw), [f])
    for f in text("GetRootSpan"):
        def kr(r, st, v, line, fr):
            if fr.func is f:
                r.need(has_sub(v, lambda x: x.op == "fld" and x.args[1] is THIS) or (None if has_sub(v, lambda x: x.op == "hav") else False), "own-root", at(fr, line), "another span is given out as the root", st)
        ctx.run(R(scope=TR, ret=kr), [f])
    four = ("InstallAsGlobal", "UninstallAsGlobal", "InstallAsThreadLocal", "UninstallAsThreadLocal")
    for f in fs("TextTracingRecorder", *four):
        def fc(r, st, c):
            if isname(c, *four) and c.name != f.name:
                r.need(isname(c, f.short), "passed-through", c, "a recorder is not %s as asked" % ("removed" if f.short.startswith("Un") else "installed"), st)
                st.ts["n"] = st.ts.get("n", 0) + 1

        def fr_(r, st, v, line, fr):
            if fr.func is f:
                r.need(st.ts.get("n") == 1, "passed-through", at(fr, line), "a recorder is not %s as asked" % ("removed" if f.short.startswith("Un") else "installed"), st)
        ctx.run(R(scope=TR, call=fc, ret=fr_, stops=["::(Uni|I)nstallAs"]), [f])
    for f in [f for f in db.in_files(TR) if f.name == "fcp::TraceError" and f.body is not None and not f.dep]:
        def ec(r, st, c):
            if isname(c, "Trace", "TraceImpl"):
                st.ts["n"] = st.ts.get("n", 0) + 1
                r.need(len(c.args) == len(f.params) and all(P_(f, i)(root(a)) for i, a in enumerate(c.args)) if isname(c, "Trace") else None, "recorded-as-given", c, "another error is recorded than given", st)

        def ee(r, st, v, line, fr):
            if fr.func is f:
                r.need(st.ts.get("n") == 1, "recorded-once", at(fr, line), "an error is not recorded exactly once", st)
        ctx.run(R(scope=TR, call=ec, ret=ee, stops=["fcp::Trace$", "::TraceImpl$"]), [f])
    for f in [f for f in db.in_files(TR) if f.short in ("operator==", "operator!=") and str(f.params).count("TracingTag") >= 2]:
        def tr_(r, st, v, line, fr):
            if fr.func is not f or tm.is_const(v):
                return
            e = v.args[0] if v.op == "not" else v
            ks = {tm.cval(x.args[1]) for a in list(st.facts) + [e] for x in tm.subterms(a) if x.op == "idx" and tm.is_const(x.args[1])}
            if e.op in ("and", "or") and ks:
                return r.need(None if ks == {0, 1, 2, 3} else False, "tags-compared", at(fr, line), "only a part of the tags is compared", st)
            if e.op != "eq" or len(e.args) < 2:
                return r.need(None, "tags-compared", at(fr, line), "comparison not recognised", st)
            sides = [x for x in e.args if isinstance(x, T)][:2]
            if all(x.op == "fld" and root(x) is not x for x in sides) and sn(str(sides[0].args[0])) == "value":
                return r.need((v.op == "not") == (f.short == "operator!=") and {P_(f, 0)(root(sides[0])), P_(f, 1)(root(sides[1]))} <= {True} or P_(f, 1)(root(sides[0])) and P_(f, 0)(root(sides[1])) and (v.op == "not") == (f.short == "operator!="),
                              "tags-compared", at(fr, line), "tags are compared wrongly", st)
            r.need(False if ks and ks < {0, 1, 2, 3} or any(x.op == "arith" for x in sides) else None, "tags-compared", at(fr, line), "only a part of the tags is compared", st)
        ctx.run(R(scope=TR, ret=tr_), [f])
        parts = {x[2][1] for x in walk(f.body) if x[0] == "idx" and isinstance(x[2], list) and x[2][0] == "int"}
        if parts and not any(x[0] == "fld" and sn(str(x[1])) == "value" for x in walk(f.body)):
            ctx.check("tags-compared", f.rel(), f.line, parts >= {0, 1, 2, 3}, "only a part of the tags is compared")
    for f in fs("TracingTag", "FromFlatbuf"):
        for x in walk(f.body):
            if x[0] == "idx" and any(y[0] == "call" and sn(str(y[1])) == "data" for y in walk(x)) and x[2][0] == "int":
                ctx.check("tag-place", f.rel(), f.line, x[2][1] == 4, "the tag of an event is read from another place than it is written to")

    # contexts carried by messages
    for f in [f for f in db.in_files(TR) if f.short == "SetTracingContextOnMessage"]:
        def mc(r, st, c):
            if isname(c, "SetString"):
                w = c
                r.need(fact(st, lambda a: a.op == "has" and has_sub(a, call_p("FindFieldByName")), True) is not None, "context-field-exists", w, "a context is stored in a message without a place for it", st)
                r.need(fact(st, lambda a: a.op == "eq" and has_sub(a, lambda x: x.op == "enum" and sn(str(x.args[0])) in ("TYPE_BYTES", "TYPE_STRING")), True) is not None, "context-field-type", w, "a context is stored in a field of another type", st)
                r.need(len(c.args) >= 3 and has_sub(c.args[2], P_(f, 0)) and P_(f, 1)(root(c.args[0])), "context-stored", w, "another context than the given one is stored", st)
                st.ts["n"] = True

        def mr(r, st, v, line, fr):
            if fr.func is f:
                r.need(bool(st.ts.get("n")) or fact(st, lambda a: a.op == "has" and has_sub(a, call_p("FindFieldByName")), False) is not None, "context-stored", at(fr, line), "a context is not stored", st)
        ctx.run(R(scope=TR, call=mc, ret=mr), [f])
    for f in [f for f in db.in_files(TR) if f.short == "GetContextFromMessage" and not f.dep]:
        def nr(r, st, v, line, fr):
            if fr.func is f:
                p = fact(st, call_p("ParseFromString"), True)
                if p is None:
                    e = fact(st, lambda a: a.op == "has" and has_sub(a, call_p("FindFieldByName")), False) or fact(st, lambda a: a.op == "eq" and has_sub(a, call_p("GetString")), True)
                    r.need(e is not None and not has_sub(v, call_p("GetString")), "context-read", at(fr, line), "the context of a message is not read", st)
                else:
                    r.need(has_sub(v, call_p("GetString")) and has_sub(v, P_(f, 0)), "context-read", at(fr, line), "another context than that of the message is returned", st)
        ctx.run(R(scope=TR, ret=nr), [f])
    keys = set()
    for f in [f for f in db.in_files(TR) if f.short in ("SetTracingContextOnMessage", "GetContextFromMessage") and not f.dep]:
        def kc(r, st, c):
            if isname(c, "FindFieldByName") and c.args and tm.is_const(c.args[0]):
                keys.add(tm.cval(c.args[0]))
        ctx.run(R(scope=TR, call=kc), [f])
    if keys:
        ctx.check("context-same-field", "fcp/tracing/tracing_context_utils.h", 1, len(keys) == 1, "a context is read from another field than it is stored in")
    for n in ("installed", "current-recorder", "push-enters", "pop-restores", "recorded-once", "ids-unique", "event-written", "traits-by-tag"):
        ctx.need(n, 1)


GEN = r"^fcp/tracing/tools/[^/]*(?<!_test)\.cc$"
GEN_UNITS = [GEN]
KINDS = {"String": ("absl::string_view", "std::string_view"), "Byte": ("std::int8_t", "int8_t"), "UByte": ("std::uint8_t", "uint8_t"), "Bool": ("bool",), "Short": ("std::int16_t", "int16_t"),
         "UShort": ("std::uint16_t", "uint16_t"), "Int": ("std::int32_t", "int32_t", "int"), "UInt": ("std::uint32_t", "uint32_t"), "Float": ("float",),
         "Long": ("std::int64_t", "int64_t"), "ULong": ("std::uint64_t", "uint64_t"), "Double": ("double",)}


def g02(ctx):
    db = ctx.db
    mains = [f for f in db.in_files(GEN) if f.short == "main" and f.body is not None]
    if not mains:
        raise AnalysisError("anchor vanished: generator of tracing traits")
    text = lambda t: tm.cval(t) if tm.is_const(t) and isinstance(tm.cval(t), str) else None
    table = lambda t: t.op == "elem" and has_sub(t.args[0], call_p("objects")) and not has_sub(t.args[0], lambda x: x.op == "elem")
    of_table = lambda what: lambda t: t.op == "call" and isname(t, what) and t.args[1] is not None and table(t.args[1])
    attr = lambda t: t.op == "elem" and has_sub(t.args[0], of_table("attributes"))
    key_of = lambda st, k: fact(st, lambda a: a.op == "eq" and has_sub(a, lambda x: x.op == "call" and isname(x, "key") and x.args[1] is not None and attr(x.args[1])) and has_sub(a, lambda x: text(x) == k))
    hav_of = lambda place: lambda t: t.op == "hav" and place is not None and tuple(t.args[1]) == tuple(place[1:3])
    item = lambda t: t.op == "elem" or t.op == "idx" and not tm.is_const(t.args[1])
    is_string = lambda st: fact(st, lambda a: a.op == "eq" and has_sub(a, lambda x: x.op == "enum" and sn(str(x.args[0])) == "String") and has_sub(a, item))
    field_name = lambda t: t.op == "call" and str(t.args[0]).endswith("get<0>") and has_sub(t, item) or t.op == "fld" and sn(str(t.args[0])) in ("first", "name") and has_sub(t, item)
    places = {}

    for f in mains:
        def loop_of(node):
            return {sn(str(x[1])) for x in walk(node) if x[0] == "call"}

        def strings(node):
            return [x[1] for x in walk(node) if x[0] == "str" and isinstance(x[1], str)]

        def out(r, st, c, v):
            t = text(v)
            tail = st.ts.get("tail", "")
            newline = tm.is_const(v) and tm.cval(v) == 10 or t is not None and t.endswith("\n") or v.op in ("fn", "gvar") and "endl" in str(v)
            named = has_sub(v, of_table("name"))
            if t is None and not newline:
                if tail.endswith('TracingTag("'):
                    st.ts["tag"] = True
                    tagged = hav_of(places.get("tag"))
                    r.need(tagged(v) or has_sub(v, attr) or (None if places.get("tag") is None else False), "own-tag", c, "another tag than that of the table is written", st)
                    r.need(fact(st, lambda a: a.op == "call" and isname(a, "empty") and a.args[1] is v, False) is not None or fact(st, lambda a: a.op == "eq" and v in tm.subterms(a) and has_sub(a, lambda x: text(x) == "" or tm.is_const(x) and tm.cval(x) == 0), False) is not None
                           or fact(st, lambda a: a.op == "eq" and has_sub(a, lambda x: tm.is_const(x) and tm.cval(x) == 4) and v in tm.subterms(a), True) is not None or st.ts.get("t4"),
                           "tag-present", c, "a table without a tag gets traits", st)
                    once = fact(st, lambda a: has_sub(a, lambda x: x.op == "call" and isname(x, "insert", "emplace") and v in tm.subterms(x)), True) or fact(st, lambda a: has_sub(a, lambda x: x.op in ("call", "haskey") and v in tm.subterms(x)) and has_sub(a, lambda x: x.op == "haskey" or x.op == "call" and isname(x, "contains", "count", "find")), False)
                    r.need(once is not None, "tag-unique", c, "two tables can get the same tag", st)
                elif any(tail.endswith(x) for x in ("TracingTraits<", 'return "', "Offset<", "TracingTraitsRegistrar<", 'SetRootType("', "MakeTuple(const ", "buf.data(), ", "registrar_", "Create")):
                    st.ts["n:" + next(x for x in ("TracingTraits<", 'return "', "Offset<", "TracingTraitsRegistrar<", 'SetRootType("', "MakeTuple(const ", "buf.data(), ", "registrar_", "Create") if tail.endswith(x))] = True
                    r.need(True if named else None if has_sub(v, lambda x: x.op == "hav") else False, "own-name", c, "traits are written for another name than that of the table", st)
                    if tail.endswith(("registrar_", "Create")) and named and v.op == "call" and isname(v, "ClippedSubstr", "substr"):
                        n = [x for x in tm.subterms(v) if x.op == "call" and isname(x, "find_last_of", "rfind")]
                        a = v.args[2]
                        r.need(bool(n) and (a[1] if len(a) > 1 else None) is tm.add(n[0], tm.const(1)) if isname(v, "ClippedSubstr") else None, "own-name", c, "the name of a table is cut at another place than its last colon", st)
                elif tail.endswith("#ifndef "):
                    st.ts["guard"] = v
                elif tail.endswith("#define ") and st.ts.get("guard") is not None:
                    r.need(st.ts["guard"] is v, "guarded", c, "the header is not protected against being included twice", st)
                elif tail.endswith('#include "'):
                    r.need(has_sub(v, P_(f, 1)) and has_sub(v, lambda x: tm.is_const(x) and tm.cval(x) == 1), "includes-schema", c, "the traits do not include the types they describe", st)
                elif tail.endswith('fbs_file = "'):
                    r.need(has_sub(v, P_(f, 1)) and has_sub(v, lambda x: tm.is_const(x) and tm.cval(x) == 3), "own-schema", c, "events are formatted with another schema", st)
                if tail.endswith("("):
                    st.ts["args"] = True
                if field_name(v) and st.ts.get("fbb"):
                    st.ts["passed"] = "bare"
                if field_name(v) and st.ts.get("params"):
                    st.ts["named"] = True
                if v.op == "fld" and sn(str(v.args[0])) == "cpp_type" and st.ts.get("params"):
                    st.ts["typed"] = True
                st.ts["tail"] = tail + "\0" if len(tail) < 200 else "\0"
            if t is not None:
                if st.ts.get("made") and re.search(r"\.(data|c_str)\(\)", t):
                    st.ts["cut"] = True
                if re.search(r"(size|length)\(\)", t):
                    st.ts.pop("cut", None)
                if "CreateString(" in t:
                    st.ts["made"] = True
                    s = is_string(st) or st.ts.get("isstr")
                    r.need(None if s is None else s[1], "strings-copied", c, "a value that is no text is copied as one", st)
                if t.startswith("__") and st.ts.get("fbb") and st.ts.get("passed"):
                    st.ts["passed"] = "copy"
                if "*fbb" in t:
                    st.ts["fbb"] = True
                if t.endswith("Create("):
                    st.ts["params"] = True
                full = tail + t
                if "kTag" in full:
                    st.ts["n:kTag"] = True
                sev = re.search(r"TracingSeverity::k(\w+)$", t)
                if sev:
                    s = fact(st, lambda a: a.op == "eq" and has_sub(a, lambda x: x.op == "enum" and sn(str(x.args[0])) == "k" + sev.group(1)), True)
                    other = fact(st, lambda a: a.op == "eq" and has_sub(a, lambda x: x.op == "enum" and re.match(r"k[A-Z]", sn(str(x.args[0]))) and sn(str(x.args[0])) != "k" + sev.group(1)), True)
                    r.need(True if s is not None else False if other is not None else None, "own-severity", c, "another severity than that of the table is written", st)
                    st.ts["n:sev" + ("2" if "kSeverity" not in full else "")] = True
                if tail.endswith("kIsSpan = ") and t in ("true", "false"):
                    s = fact(st, hav_of(places.get("span"))) if places.get("span") is not None else None
                    r.need(None if s is None else s[1] == (t == "true"), "own-kind", c, "a table is described as a span if it is none", st)
                    st.ts["n:span"] = True
                st.ts["tail"] = full[-60:] if not newline else ""
            if newline:
                if st.ts.pop("cut", None):
                    r.need(False, "strings-copied", c, "a text is copied up to its first zero only", st)
                st.ts["tail"] = ""
                for k in ("fbb", "args", "params"):
                    st.ts.pop(k, None)

        def call(r, st, c):
            if isname(c, "operator<<") and len(c.args) == 2:
                if any(x[0] == "gvar" and x[1] == "std::cout" for x in walk(c.node)):
                    out(r, st, c, c.args[1])
            if isname(c, "is_struct") and c.recv is not None and table(c.recv):
                st.ts["table"] = True
            if isname(c, "emplace_back", "push_back", "insert") and c.args and c.args[-1].op == "elem" and has_sub(c.args[-1].args[0], of_table("fields")):
                st.ts["unordered"] = True
            if isname(c, "reverse", "shuffle", "rotate", "random_shuffle", "c_reverse", "swap") and any(x[0] == "var" and x[2] in kept["fields"] for x in walk(c.node)):
                r.need(False, "fields-by-number", c, "fields are passed on in another order than they are accepted", st)
            if isname(c, "insert", "emplace") and tags_p(c):
                kept["tags"].add(c.node[2][2])
            if isname(c, "resize", "erase", "append", "push_back", "pop_back", "operator+=") and isinstance(c.node[2], list) and c.node[2][0] == "var" and places.get("tag") is not None and c.node[2][2] == places["tag"][2]:
                r.need(False, "own-tag", c, "a tag is changed before it is looked at", st)
            if isname(c, "LoadFile") and c.args:
                k = [tm.cval(x.args[1]) for x in tm.subterms(c.args[0]) if x.op == "idx" and tm.is_const(x.args[1]) and P_(f, 1)(x.args[0])]
                r.need(k[0] == 2 if k else None, "own-schema", c, "another file than the schema is read", st)
            if isname(c, "Verifier") and len(c.args) >= 2:
                n = c.args[1]
                r.need(False if has_sub(n, lambda x: x.op == "call" and isname(x, "capacity", "max_size") or x.op == "arith") or tm.is_const(n) else None if has_sub(n, lambda x: x.op == "hav") else True, "whole-schema", c, "more or less than the schema is verified", st)
            if isname(c, "sort", "stable_sort", "c_sort", "c_stable_sort"):
                st.ts.pop("unordered", None)
            if isname(c, "emplace_back", "push_back") and c.args and has_sub(c.args[0], call_p("name")):
                whole = c.args
                of = [x.args[1] for a in whole for x in tm.subterms(a) if x.op == "call" and isname(x, "name", "type", "base_type", "index") and x.args[1] is not None and item(x.args[1])]
                names = [x.args[1] for a in whole[:1] for x in tm.subterms(a) if x.op == "call" and isname(x, "name") and x.args[1] is not None and item(x.args[1])]
                if names:
                    n = names[0]
                    if isinstance(c.node[2], list) and c.node[2][0] == "var":
                        kept["fields"].add(c.node[2][2])
                    if isinstance(c.node[2], list) and c.node[2][0] == "gvar":
                        again = any(x[0] == "call" and sn(str(x[1])) in ("clear", "operator=") and isinstance(x[2], list) and x[2][:2] == c.node[2][:2] for x in walk(f.body))
                        r.need(None if again else False, "each-table-anew", c, "a table takes over the fields of an earlier one", st)
                    if any(has_sub(a, lambda x: x.op == "call" and isname(x, "enums")) for a in whole):
                        last = whole[-1]
                        plain = [x for x in tm.subterms(last) if x.op == "call" and isname(x, "StrReplaceAll")]
                        if not has_sub(last, lambda x: x.op == "hav"):
                            r.need(bool(plain) and not has_sub(last, call_p("ClippedSubstr", "substr", "find_last_of", "rfind")), "enum-types", c, "the type of an enum is not called by its full name", st)
                    st.ts["described"] = True
                    r.need(all(x is n for x in of), "field-own-type", c, "a field gets the type of another one", st)
                    r.need(fact(st, lambda a: a.op == "call" and isname(a, "deprecated") and a.args[1] is n, False) is not None, "deprecated-left-out", c, "a deprecated field is passed on", st)
                    direct = n.args[0].op == "call" and isname(n.args[0], "fields")
                    r.need(not direct and not st.ts.get("unordered"), "fields-by-number", c, "fields are passed on in another order than they are accepted", st)
                    for x in tm.subterms(whole[-1]):
                        if x.op == "call" and isname(x, "Get", "GetAs", "operator[]") and x.args[1] is not None and has_sub(x.args[1], call_p("enums")) and not has_sub(x.args[1], lambda y: y.op == "elem"):
                            r.need(bool(x.args[2]) and has_sub(x.args[2][0], lambda y: y.op == "call" and isname(y, "index") and has_sub(y, lambda z: z is n)), "enum-types", c, "a field gets the type of another enum", st)
                    enum = fact(st, lambda a: a.op in ("eq", "lt") and has_sub(a, lambda x: x.op == "call" and isname(x, "index")) and has_sub(a, lambda x: tm.is_const(x) and tm.cval(x) == -1))
                    uses_enum = any(has_sub(a, lambda x: x.op == "call" and isname(x, "enums")) for a in whole)
                    if enum is not None:
                        r.need(uses_enum == (not enum[1]) if enum[0].op == "eq" else None, "enum-types", c, "a field gets a type that is not that of its values", st)
                    else:
                        r.need(False, "enum-types", c, "it is not asked whether the type of a field is an enum", st)
                    found = fact(st, lambda a: has_sub(a, lambda x: x.op == "haskey" or x.op == "call" and isname(x, "find", "contains", "count")) and has_sub(a, call_p("base_type")))
                    r.need(found is not None, "unsupported-refused", c, "a field of an unsupported type is passed on", st)
            if isname(c, "pair") and len(c.args) == 2 and c.args[0].op == "enum" and text(c.args[1]) is not None and "BaseType" in str(c.args[0].args[0]) + str(c.node):
                k = sn(str(c.args[0].args[0]))
                seen.setdefault(k, set()).add(text(c.args[1]))
                r.need(k in KINDS and text(c.args[1]) in KINDS[k], "type-of-values", c, "a field of type %s becomes one of type %s" % (k, text(c.args[1])), st)

        def write(r, st, place, val, line, fr):
            if fr.func is not f:
                return
            w = at(fr, line)
            if place[0] == "v" and has_sub(val, lambda x: x.op == "call" and isname(x, "str", "c_str", "string_view") and has_sub(x, attr)) and not has_sub(val, call_p("key")):
                k = key_of(st, "tag")
                r.need(k is not None and k[1], "own-tag", w, "another attribute than the tag is taken for it", st)
                places["tag"] = place
                r.need(not has_sub(val, call_p("substr", "ClippedSubstr", "resize", "AsciiStrToLower", "AsciiStrToUpper", "StripAsciiWhitespace", "erase", "StrCat")), "own-tag", w, "a tag is changed before it is looked at", st)
                st.ts["got"] = "tag"
                st.ts["tagval"] = val
            if place[0] == "v" and val.op == "enum" and sn(str(val.args[0])) in ("kWarning", "kError"):
                n = sn(str(val.args[0]))[1:].lower()
                k = key_of(st, n)
                r.need(k is not None and k[1], "own-severity", w, "another attribute decides about the severity", st)
                places["severity"] = place
                st.ts["got"] = n
            if place[0] == "v" and tm.is_const(val) and tm.cval(val) is True and any(key_of(st, x) is not None for x in ("span", "warning", "error", "tag")):
                k = key_of(st, "span")
                r.need(k is not None and k[1], "own-kind", w, "another attribute decides about spans", st)
                places["span"] = place
                st.ts["got"] = "span"
            if place[0] == "i" and val.op == "elem" and has_sub(val.args[0], call_p("fields")):
                r.need(place[2].op == "call" and isname(place[2], "id") and place[2].args[1] is val, "fields-by-number", w, "fields are not ordered by their number", st)
                st.ts["placed"] = True
            if place[0] == "v" and has_sub(val, lambda x: text(x) == "table->"):
                r.need(False if has_sub(val, lambda x: x.op == "fld" and sn(str(x.args[0])) in ("first", "name") and has_sub(x, lambda y: y.op == "idx" and tm.is_const(y.args[1]))) else True, "tuple-types", w, "a field is read in place of another one", st)
            if place[0] == "v":
                add = [x for x in tm.subterms(val) if text(x) in ("->str()", "std::string")]
                if add and has_sub(val, lambda x: x.op == "hav"):
                    s = is_string(st) or st.ts.get("isstr")
                    r.need(None if s is None else s[1], "tuple-types", w, "a value that is no text is read as one", st)
                    st.ts["tuple" + ("1" if text(add[0]) == "std::string" else "2")] = True
                if has_sub(val, lambda x: x.op == "fld" and sn(str(x.args[0])) == "cpp_type"):
                    s = is_string(st) or st.ts.get("isstr")
                    r.need(None if s is None else not s[1], "tuple-types", w, "texts are given out as views of a buffer that is gone", st)

        def branch(r, st, atom, pol, line, fr):
            if fr.func is f and atom.op == "eq" and has_sub(atom, lambda x: x.op == "enum" and sn(str(x.args[0])) == "String") and has_sub(atom, item):
                st.ts["isstr"] = (None, pol)

        def it(r, st, node, fr):
            if fr.func is f:
                it_(r, st, node, fr)
                st.ts.pop("isstr", None)

        def partly(node):
            ends = [x for x in walk(node) if x[0] == "op" and x[1] in ("<", "<=", "!=", ">", ">=") and any(y[0] == "call" and sn(str(y[1])) in ("size", "length") for y in walk(x))]
            return any(z[0] == "op" and z[1] in ("+", "-") and any(k[0] == "int" and k[1] for k in z[2:4] if isinstance(k, list)) for x in ends[:1] for z in walk(x))

        def it_(r, st, node, fr):
            if fr.func is not f or node[0] not in ("for", "rfor", "while"):
                return
            w = (f.rel(), node[1])
            names = loop_of(node)
            if "is_struct" in names:
                struct = fact(st, lambda a: a.op == "call" and isname(a, "is_struct"))
                if struct is not None and not struct[1] or struct is None:
                    miss = [k for k in ("tag", "n:kTag", "n:sev", "n:span", "n:TracingTraits<", "n:TracingTraitsRegistrar<", "n:Offset<", "n:MakeTuple(const ") if not st.ts.get(k)]
                    r.need(not miss, "every-table", w, "a table gets no complete traits", st)
                elif struct[1]:
                    r.need(not st.ts.get("n:TracingTraits<"), "structs-skipped", w, "a struct gets traits", st)
                for k in [k for k in st.ts if str(k).startswith("n:") or k in ("tag", "table", "described", "got", "t4", "tagval", "unordered", "made", "passed")]:
                    st.ts.pop(k, None)
            elif "key" in names:
                for k in ("warning", "error", "span", "tag"):
                    x = key_of(st, k)
                    if x is not None and x[1]:
                        r.need(st.ts.get("got") == k, "attribute-used", w, "the attribute %s of a table is ignored" % k, st)
                        if k == "tag" and st.ts.get("got") == "tag":
                            v = st.ts["tagval"]
                            r.need(fact(st, lambda a: a.op == "eq" and has_sub(a, lambda x: tm.is_const(x) and tm.cval(x) == 4) and has_sub(a, lambda x: x is v or x.op == "call" and has_sub(x, attr)), True) is not None or bool(equal(st, lambda x: x.op == "call" and isname(x, "size", "length") and has_sub(x, attr), 4)), "tag-of-four", w, "a tag of another length is accepted", st)
                st.ts.pop("got", None)
                st.ts.pop("tagval", None)
            elif "id" in names and "fields" in names and "deprecated" not in names and any(x[0] == "asg" for x in walk(node)):
                r.need(bool(st.ts.get("placed")), "every-field", w, "a field is left out", st)
                st.ts.pop("placed", None)
            elif "deprecated" in names:
                d = fact(st, lambda a: a.op == "call" and isname(a, "deprecated"))
                if d is not None and not d[1]:
                    r.need(bool(st.ts.get("described")), "every-field", w, "a field is left out", st)
                st.ts.pop("described", None)
            elif any("CreateString" in s for s in strings(node)):
                s = is_string(st) or st.ts.get("isstr")
                if s is not None:
                    r.need(bool(st.ts.get("made")) == s[1], "strings-copied", w, "a text is not copied into the event", st)
                st.ts.pop("made", None)
            elif (st.ts.get("fbb") or st.ts.get("params")) and node[0] == "for" and partly(node):
                r.need(False, "every-field", w, "the last fields are left out", st)
            elif st.ts.get("fbb"):
                s = is_string(st) or st.ts.get("isstr")
                r.need((None if st.ts.get("isstr") else False) if s is None else st.ts.get("passed") == ("copy" if s[1] else "bare"), "every-field", w, "a field is not passed on as it was given", st)
                st.ts.pop("passed", None)
            elif st.ts.get("params"):
                r.need(bool(st.ts.get("named")) and bool(st.ts.get("typed")), "every-field", w, "a field is not among the parameters", st)
                st.ts.pop("named", None)
                st.ts.pop("typed", None)
            elif any("->str()" in s for s in strings(node)):
                s = is_string(st) or st.ts.get("isstr")
                if s is not None:
                    r.need(bool(st.ts.get("tuple1")) == s[1] and bool(st.ts.get("tuple2")) == s[1], "tuple-types", w, "a text is not read as one", st)
                st.ts.pop("tuple1", None)
                st.ts.pop("tuple2", None)

        def ret(r, st, v, line, fr):
            if fr.func is not f or not tm.is_const(v):
                return
            w = at(fr, line)
            if tm.cval(v) in (0, False):
                r.need(not st.ts.get("table"), "failure-noticed", w, "the generator stops at a faulty table and reports success", st)
                for p, m in ((lambda a: a.op == "eq" and has_sub(a, P_(f, 0)), "of a wrong call"), (call_p("LoadFile"), "if the schema cannot be read"), (call_p("VerifySchemaBuffer"), "for a damaged schema")):
                    x = fact(st, p)
                    r.need(x is not None and x[1], "failure-noticed", w, "success is reported " + m, st)
        seen = {}
        kept = {"fields": set(), "tags": set()}
        tags_p = lambda c: isinstance(c.node[2], list) and c.node[2][0] == "var" and "set" in str(c.node[9] if len(c.node) > 9 else "")
        ctx.run(R(scope=GEN, call=call, write=write, branch=branch, iter=it, ret=ret), [f])
        # what belongs to one table starts anew with the next, what belongs to all does not
        for loop in [x for x in walk(f.body) if x[0] in ("for", "rfor", "while") and "is_struct" in loop_of(x)]:
            decls = {x[2] for x in walk(loop) if x[0] == "decl" and not x[6]}
            for i in kept["tags"]:
                ctx.check("tag-unique", f.rel(), loop[1], i not in decls, "the tags of earlier tables are forgotten")
            inner = [x for x in walk(loop) if x is not loop and x[0] in ("for", "rfor", "while") and "key" in loop_of(x)]
            late = {id(y) for x in inner for y in walk(x)}
            for k, i in [(k, places[k][2]) for k in ("tag", "span", "severity") if places.get(k) is not None] + [("list of fields", i) for i in kept["fields"]]:
                anew = i in decls or any(x[0] == "asg" and x[2] == ["var", x[2][1], i] and id(x) not in late for x in walk(loop) if len(x) > 2 and isinstance(x[2], list) and len(x[2]) > 1) \
                    or any(x[0] == "call" and sn(str(x[1])) in ("clear", "operator=") and isinstance(x[2], list) and x[2][0] == "var" and x[2][2] == i and id(x) not in late for x in walk(loop))
                ctx.check("each-table-anew", f.rel(), loop[1], anew, "a table takes over the %s of an earlier one" % k)
            for x in inner:
                keys = {s for s in strings(x)} & {"tag", "span", "warning", "error"}
                if len(keys) > 1:
                    ctx.check("attribute-used", f.rel(), x[1], not cut_short(x), "the attributes after one are ignored")
        if seen:
            miss = sorted(set(KINDS) - set(seen))
            ctx.check("every-type", f.rel(), f.line, not miss, "fields of type %s are refused" % ", ".join(miss))
    for n in ("own-tag", "tag-unique", "tag-of-four", "own-name", "own-severity", "every-table", "every-field", "fields-by-number", "failure-noticed"):
        ctx.need(n, 1)
