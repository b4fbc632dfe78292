"""Rules for the Python demo server."""
import ast
import glob
import os
import re

from fcx import lang, py
from fcx.db import AnalysisError, REPO
from fcx.py import show, sub


def files():
    """All modules of the demo (tests aside)."""
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "fcp/demo/*.py"))):
        if not p.endswith("_test.py"):
            out.append(os.path.relpath(p, REPO))
    return out


HERR = "fcp.demo.http_actions.HttpError"
INCL = "num_inputs_aggregated_and_included"
MINC = "minimum_clients_in_server_published_aggregate"
NAMES = r"\w+(/\w+)*"       # words joined by single slashes


class Q(py.Rule):
    def __init__(self, ctx, anyraise=False, **hooks):
        self.ctx, self.anyraise = ctx, anyraise
        for k, h in hooks.items():
            setattr(self, k, self.bind(h))

    def bind(self, h):
        return lambda *a: h(self, *a)

    def need(self, rule, st, file, line, cond, msg):
        """True: discharged; False: violation; None: not decided."""
        if cond is None:
            self.ctx.unknown(rule, file, line, msg)
        elif cond:
            self.ctx.ob(rule, file, line)
        else:
            self.ctx.viol(rule, file, line, msg, st)


def go(ctx, fns, anyraise=False, ts=None, **hooks):
    for f in fns:
        e = py.Eng(ctx.py, Q(ctx, anyraise, **hooks))
        e.run(f, ts=ts)
        ctx.funcs |= e.analysed
        ctx.stats["py_steps"] = ctx.stats.get("py_steps", 0) + e.steps


def classes_with(ctx, *meths):
    return [c for c in ctx.py.classes.values() if all(m in c.methods for m in meths)]


def method(ctx, name, need=True, mod=None):
    out = [c.methods[name] for c in ctx.py.classes.values() if name in c.methods and (mod is None or c.mod.name.endswith(mod))]
    if need and not out:
        raise AnalysisError("no method %s in the demo server" % name)
    return out


def handlers(ctx, deco="proto_action"):
    """Request handlers: remote method name (or pattern) -> function."""
    out = {}
    for f in ctx.py.funcs.values():
        d = f.deco(deco)
        if isinstance(d, ast.Call):
            kw = {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)}
            out[kw.get("method") if deco == "proto_action" else kw.get("pattern")] = f
    return out


def handler(ctx, name):
    h = handlers(ctx).get(name)
    if h is None:
        raise AnalysisError("no handler for %s" % name)
    return h


def tail(t):
    """Last attribute name of a term."""
    return t[2] if t and t[0] == "a" else None


def kwof(t, key):
    if t and t[0] in ("new", "exc"):
        for k, v in t[2]:
            if k == key:
                return v
    if t and t[0] == "call":
        for k, v in t[4]:
            if k == key:
                return v
    return None


def isreq(t, field):
    """request.<field> of the handled request."""
    return t is not None and t[0] == "a" and t[2] == field and t[1][0] == "p"


def callname(t):
    return t[1].rsplit(".", 1)[-1] if t and t[0] == "call" else None


def unk(t):
    return t is None or any(x[0] == "hav" for x in sub(t))


def hascall(t, *names):
    return any(x[0] == "call" and x[1].rsplit(".", 1)[-1] in names for x in sub(t))


def fresh(t):
    """An unguessable fresh name: built from a whole random uuid."""
    def rnd(t):
        return any(x[0] == "call" and x[1] in ("uuid.uuid4", "secrets.token_hex", "secrets.token_urlsafe") for x in sub(t))

    def cut(x):
        """Only part of a random name."""
        if x[0] == "i":
            return x[1][0] != "list" and rnd(x[1]) and not any(y[0] in ("comp", "list", "hav") for y in sub(x[1]))
        if x[0] == "op" and x[1] in ("Mod", "FloorDiv", "RShift", "BitAnd", "%", "//"):
            return rnd(x)
        return x[0] == "a" and x[1][0] == "call" and x[1][1] == "uuid.uuid4" and x[2] not in ("hex", "urn", "bytes", "int")
    return t is not None and rnd(t) and not any(cut(x) for x in sub(t))


def const(ctx, f, t):
    """Value of a string constant of the function's module."""
    if t[0] == "c":
        return t[1] if isinstance(t[1], str) else None
    n = t[1].split(".")[-1]
    for x in f.mod.tree.body:
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and any(isinstance(y, ast.Name) and y.id == n for y in x.targets):
            return x.value.value if isinstance(x.value.value, str) else None
    return None


def code(exc):
    """HTTP status name of an HttpError value."""
    v = kwof(exc, "code")
    if v is None:
        v = kwof(exc, 0)
    if v and v[0] == "g":
        return v[1].rsplit(".", 1)[-1]
    return None


NC = lambda t: t == ("c", None)


# ---------------------------------------------------------------------------
# F01: results are released only for enough clients
def lin(t):
    """(term, constant) of a sum with a constant."""
    if t[0] == "op" and t[1] in ("Add", "Sub", "+", "-") and len(t) == 4:
        if t[3][0] == "c" and isinstance(t[3][1], int):
            b, k = lin(t[2])
            return b, k + (t[3][1] if t[1] in ("Add", "+") else -t[3][1])
        if t[2][0] == "c" and isinstance(t[2][1], int) and t[1] in ("Add", "+"):
            b, k = lin(t[3])
            return b, k + t[2][1]
    return t, 0


def threshold(st, a, pol):
    """Remember what a comparison says about contributions and the minimum."""
    if not (any(tail(x) == INCL for x in sub(a)) and any(tail(x) == MINC for x in sub(a))):
        return
    if a[0] not in ("<", "=="):
        st.ts["thr"] = "unk"
        return
    (x, i), (y, j) = lin(a[1]), lin(a[2])
    if tail(x) == INCL and tail(y) == MINC:
        d = j - i           # included < minimum + d
        if a[0] == "==":
            if pol:
                st.ts["thr"] = "ok" if d >= 0 else "short"
        elif not pol:
            st.ts["thr"] = "ok" if d >= 0 else "short"
        else:
            st.ts["thr"] = "below" if d <= 0 else st.ts.get("thr")
    elif tail(y) == INCL and tail(x) == MINC:
        d = i - j           # minimum + d < included
        if a[0] == "==":
            if pol:
                st.ts["thr"] = "ok" if d >= 0 else "short"
        elif pol:
            st.ts["thr"] = "ok" if d >= -1 else "short"
        else:
            st.ts["thr"] = "below" if d < 0 else st.ts.get("thr")
    else:
        lossy = lambda t: any(z[0] == "op" and z[1] in ("Add", "Sub", "Mult", "FloorDiv", "Div", "+", "-", "*", "//", "/") or z[0] == "pure" and z[1] in ("min", "max", "sum") for z in sub(t))
        st.ts["thr"] = "short" if lossy(a[1]) or lossy(a[2]) else "unk"


def tri(v, good):
    return True if v == good else (None if v == "unk" else False)


def f01(ctx):
    for f in method(ctx, "complete_session"):
        sid = f.params()[1]

        def branch(q, e, st, a, pol, line, fr):
            threshold(st, a, pol)
            if a[0] == "==" and tail(a[1]) == "status" and a[2][0] == "g":
                narrowed(st, {a[2][1]}, pol)
            if a[0] == "in" and tail(a[1]) == "status" and a[2][0] in ("tuple", "list", "set") and all(x[0] == "g" for x in a[2][1:]):
                narrowed(st, {x[1] for x in a[2][1:]}, pol)

        def narrowed(st, names, pol):
            """The states a session may still be in."""
            names = {x.rsplit(".", 1)[-1] for x in names}
            left = set(st.ts.get("left", ("PENDING", "COMPLETED", "FAILED", "ABORTED")))
            left = left & names if pol else left - names
            st.ts["left"] = tuple(sorted(left))
            st.ts["pend"] = left == {"PENDING"}

        def popped(st, base, key):
            if key and key[0] == "p" and key[1] == sid and base[0] == "a" and st.locks:
                st.ts["pop"] = True

        def after(q, e, st, c, v):
            if c.short == "pop" and c.args:
                popped(st, c.recv, c.args[0])

        def delete(q, e, st, p, line, fr):
            if p[0] == "i":
                popped(st, p[1], p[2])

        def raises(q, e, st, c):
            if c.short in ("Complete", "GetResult", "Abort") and c.name[:1] == ".":
                return ["pybind11_abseil.status.StatusNotOk"]
            if c.short == "pop" and c.args and not (c.args[0][0] == "p" and c.args[0][1] == sid):
                return []
            return None

        def call(q, e, st, c):
            if c.name in (".Complete", ".GetResult"):
                q.need("result-computed-for-enough", st, c.file, c.line, tri(st.ts.get("thr"), "ok"),
                       "the aggregate is computed on a path where the number of included contributions was not found to reach the minimum")
                q.need("result-only-while-pending", st, c.file, c.line, st.ts.get("pend") is True or (None if "pend" not in st.ts and unk_status(st) else False),
                       "the aggregate is computed for a session that is not known to be pending")
                q.need("session-closed-first", st, c.file, c.line, st.ts.get("pop") is True, "the aggregate is computed while the session can still be completed a second time")
            if c.name == ".GetResult":
                q.need("result-after-closing", st, c.file, c.line, st.ts.get("closed") is True, "the result is taken before the aggregation was completed")
            if c.name == ".Complete":
                st.ts["closed"] = True
            if c.name == ".Abort":
                st.ts["abort"] = True

        def unk_status(st):
            return False

        def exit(q, e, st, kind, v, line, fn):
            file = fn.rel()
            if kind == "raise":
                if st.ts.get("pop"):
                    q.need("failure-is-reported-as-failed", st, file, line, False, "a session that was taken out of service ends in an exception instead of a failed status (%s)" % v[1])
                return
            if v[0] != "tuple" or len(v) != 3:
                q.need("result-released-for-enough", st, file, line, None, "returned value not recognised")
                return
            s = kwof(v[1], "status")
            done = s is not None and s[0] == "g" and s[1].endswith(".COMPLETED")
            if NC(v[2]):
                q.need("no-completed-without-result", st, file, line, not done, "a session without a result is reported as completed")
                if st.ts.get("thr") == "below":
                    q.need("too-few-discards", st, file, line, st.ts.get("abort") is True, "contributions of a session below the minimum are not discarded")
                    q.need("too-few-fails", st, file, line, None if s is None or s[0] != "g" else s[1].endswith(".FAILED"), "a session below the minimum is not reported as failed")
                return
            q.need("result-released-for-enough", st, file, line, tri(st.ts.get("thr"), "ok"),
                   "a result is returned on a path where the number of included contributions was not found to reach the minimum")
            q.need("result-is-the-aggregate", st, file, line, None if unk(v[2]) else callname(v[2]) == "GetResult", "the returned result is not the session's aggregate: %s" % show(v[2]))
            q.need("result-is-not-an-error", st, file, line, any(a[0] == "truth" and a[1][0] == "isinst" and a[1][1] == v[2] and not b for a, b in st.facts.items()),
                   "an error status can be returned as the result")
            q.need("completed-with-result", st, file, line, None if s is None else done, "a released result is not reported as completed")

        go(ctx, [f], branch=branch, after=after, delete=delete, raises=raises, call=call, exit=exit)
    for r in ("result-computed-for-enough", "result-released-for-enough", "result-only-while-pending", "session-closed-first"):
        ctx.need(r, 1)

    # the minimum is the number of clients asked for
    for f in method(ctx, "run_computation"):
        def call(q, e, st, c):
            if c.short == "create_session":
                a = c.arg(0)
                m = kwof(a, MINC)
                q.need("minimum-as-asked", st, c.file, c.line, None if m is None or unk(m) else m[0] == "p" and m[1] == "number_of_clients",
                       "a session is created with another minimum than the number of clients asked for: %s" % show(m or a))
                st.ts["sid"] = True

        def follow(q, e, st, c, g):
            return g.cls is None or g.name not in ("create_session", "complete_session", "abort_session", "wait", "add_task", "remove_task", "add", "create_download_group", "finalize")

        def branch(q, e, st, a, pol, line, fr):
            x = a[1]
            if a[0] == "==" and tail(x) == "status" and a[2][0] == "g" and hascall(x, "complete_session"):
                st.ts["comp"] = pol and a[2][1].endswith(".COMPLETED")
            if a[0] == "is" and NC(a[2]) and hascall(x, "complete_session"):
                st.ts["some"] = not pol
            if a[0] == "truth" and hascall(x, "complete_session"):
                st.ts["some"] = pol

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return" and v is not None and not NC(v):
                r = [x for x in sub(v) if x[0] == "i" and hascall(x, "complete_session")]
                q.need("computation-result-complete", st, fn.rel(), line, None if not r else st.ts.get("comp") is True and st.ts.get("some") is True,
                       "a computation's result is returned although its session was not found completed with a result")

        go(ctx, [f], call=call, follow=follow, branch=branch, exit=exit)
    ctx.need("minimum-as-asked", 1)

    # clients asked for: what the caller selected
    for f in method(ctx, "select"):
        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                k = kwof(v, "num_clients")
                p = fn.params()[1]
                if k is None or unk(k):
                    return q.need("selected-number", st, fn.rel(), line, None, "selection not recognised")
                ok = k[0] == "p" and k[1] == p
                pos = any(a[0] == "<" and ((a[1] == ("c", 0) and a[2] == k and b) or (a[1] == k and a[2] == ("c", 1) and not b)) for a, b in st.facts.items())
                q.need("selected-number", st, fn.rel(), line, ok, "a selection is made with another number of clients than asked for: %s" % show(k))
                q.need("selected-number-positive", st, fn.rel(), line, pos, "a selection of no clients is possible")
        go(ctx, [f], exit=exit)
    def call(q, e, st, c):
        if c.short == "run_computation":
            n = c.arg(4, "number_of_clients")
            q.need("selected-number-used", st, c.file, c.line, None if n is None or unk(n) else tail(n) == "num_clients", "a computation runs with another number of clients than selected")
            ck = c.arg(3, "task_assignment_mode")
            q.need("selected-mode-used", st, c.file, c.line, None if ck is None or unk(ck) else tail(ck) == "task_assignment_mode", "a computation runs with another assignment mode than selected")
    go(ctx, [f for f in method(ctx, "_run_computation", need=False)], call=call, follow=lambda q, e, st, c, g: False)


# ---------------------------------------------------------------------------
# F02: one contribution per authorisation
TOK = {"StartAggregationDataUpload": "authorization_token", "SubmitAggregationResult": "client_token", "AbortAggregation": "client_token"}
PROTO = {"AddClients", "CloseClient", "ReceiveClientMessage", "PollServerMessage"}


def is_session(t):
    """A session found under the request's aggregation id."""
    return t is not None and any(x[0] in ("i", "popped") and isreq(x[2], "aggregation_id") or x[0] == "call" and x[1] == ".get" and x[3] and isreq(x[3][0], "aggregation_id") for x in sub(t))


def f02(ctx):
    for mname, tok in TOK.items():
        f = handler(ctx, mname)

        def take(q, e, st, c):
            """Call that removes the token from a table of the session."""
            if c.short not in ("remove", "pop", "discard") or c.name[:1] != "." or not c.args:
                return None
            if not (isreq(c.args[0], "authorization_token") or isreq(c.args[0], "client_token")):
                return None
            return c.args[0][2]

        def call(q, e, st, c):
            t = take(q, e, st, c)
            if t is not None:
                known = st.facts.get(("in", c.args[0], c.recv))
                st.ts["sure"] = known is True or (c.short in ("remove", "pop") and len(c.args) == 1)
                st.ts["dflt"] = c.short == "pop" and len(c.args) == 2 and NC(c.args[1])
                q.need("token-from-own-session", st, c.file, c.line, is_session(c.recv), "a token is looked up in another session than the request names: %s" % show(c.recv))
                q.need("token-taken-under-lock", st, c.file, c.line, bool(st.locks), "a token is redeemed without the lock: two requests can redeem it")
                return
            if c.short in PROTO and c.name[:1] == "." or c.short in ("register_upload", "finalize_upload"):
                q.need("token-before-effect", st, c.file, c.line, st.ts.get("tok") == tok or (None if st.ts.get("tok") == "unk" else False),
                       "%s is reached without a valid %s having been redeemed" % (c.short, tok.replace("_", " ")))
                if c.short in ("CloseClient", "ReceiveClientMessage", "PollServerMessage"):
                    a = c.arg(0)
                    q.need("own-client", st, c.file, c.line, None if a is None or unk(a) else any(x[0] == "popped" and isreq(x[2], tok) for x in sub(a)) or
                           any(x[0] == "i" and isreq(x[2], tok) for x in sub(a)), "the aggregation is told about another client than the one whose token was redeemed: %s" % show(a))
                if c.short in ("AddClients",):
                    q.need("one-client-per-token", st, c.file, c.line, None if unk(c.arg(0)) else c.arg(0) == ("c", 1), "a redeemed token adds %s clients" % show(c.arg(0)))
                    st.ts["added"] = st.ts.get("added", 0) + 1
                    q.need("one-client-per-token", st, c.file, c.line, st.ts["added"] == 1, "a redeemed token adds a client twice")
                if c.short == "ReceiveClientMessage":
                    st.ts["recv"] = st.ts.get("recv", 0) + 1
                    q.need("contribution-once", st, c.file, c.line, st.ts["recv"] == 1, "a contribution is passed on twice for one token")
                    m = c.arg(1)
                    fin = [x for x in sub(m)] if m else []
                    up = any(x[0] == "popped" for x in fin) or hascall(m, "finalize_upload")
                    q.need("own-upload", st, c.file, c.line, None if unk(m) else up, "what is aggregated is not what the client uploaded: %s" % show(m))
                    q.need("upload-present", st, c.file, c.line, st.ts.get("some", None) is True or any(b is False and a[0] == "is" and NC(a[2]) and up_of(a[1]) for a, b in st.facts.items()),
                           "a contribution that was never uploaded can be aggregated")
                if c.short == "finalize_upload" and tok == "client_token":
                    a = c.arg(0)
                    own = tail(a) == "resource_name" and any(x[0] in ("popped", "i") and isreq(x[2], tok) for x in sub(a))
                    same = isreq(a, "resource_name") and any(b is True and a2[0] == "==" and a in a2[1:] and any(tail(x) == "resource_name" and x != a for x in a2[1:]) for a2, b in st.facts.items())
                    q.need("own-resource", st, c.file, c.line, None if unk(a) else own or same, "an upload other than the one given to this client can be taken: %s" % show(a))

        def up_of(t):
            return any(x[0] == "popped" for x in sub(t)) or hascall(t, "finalize_upload")

        def branch(q, e, st, a, pol, line, fr):
            val = st.ts.get("val")
            if val is not None and (a == ("is", val[0], ("c", None)) and not pol or a == ("truth", val[0]) and pol):
                st.ts["tok"] = val[1]
            elif val is not None and a[0] not in ("is", "truth") and any(x == val[0] for x in sub(a)) and st.ts.get("tok") is None:
                st.ts["tok"] = "unk"
            if a[0] == "truth" and up_of(a[1]) and a[1][0] in ("popped", "call"):
                st.ts["some"] = pol

        def after(q, e, st, c, v):
            t = take(q, e, st, c)
            if t is not None:
                st.ts["tok"] = t if st.ts.get("sure") else None
                if st.ts.get("dflt"):
                    st.ts["val"] = (v, t)

        def raises(q, e, st, c):
            if c.short == "pop" and c.args and fresh(c.args[0]):
                return []   # a name made up here and not handed out yet
            return None

        def exit(q, e, st, kind, v, line, fn):
            if kind == "raise":
                q.need("refusal-is-an-http-error", st, fn.rel(), line, v[1] == HERR or (None if v[1] == "*" else False), "a request ends in %s instead of an HTTP error" % v[1])
                if v[1] != HERR:
                    return
                cd = code(v)
                for a, b in st.facts.items():
                    if a[0] == "in" and b is False and isreq(a[1], "aggregation_id") and "tok" not in st.ts:
                        q.need("unknown-session-not-found", st, fn.rel(), line, None if cd is None else cd == "NOT_FOUND", "a request for an unknown session is answered %s" % cd)
                    if a[0] == "in" and b is False and a[1][0] == "a" and a[1][2] in ("authorization_token", "client_token") and "tok" not in st.ts:
                        q.need("unknown-token-unauthorized", st, fn.rel(), line, None if cd is None else cd in ("UNAUTHORIZED", "FORBIDDEN"), "a request with an unknown token is answered %s" % cd)
            else:
                q.need("accepted-only-with-token", st, fn.rel(), line, st.ts.get("tok") == tok or (None if st.ts.get("tok") == "unk" else False), "a request is accepted without a valid token")

        go(ctx, [f], call=call, after=after, exit=exit, branch=branch, raises=raises)
    for r in ("token-before-effect", "token-from-own-session", "token-taken-under-lock", "accepted-only-with-token", "own-client", "own-upload", "unknown-token-unauthorized", "unknown-session-not-found"):
        ctx.need(r, 1)

    # what a started client is given
    f = handler(ctx, "StartAggregationDataUpload")

    def write(q, e, st, p, v, line, fr):
        if p[0] == "i" and v[0] == "new" and is_session(p[1]):
            st.ts["entry"] = (p[2], v)
            q.need("client-token-fresh", st, fr.fn.rel(), line, None if unk(p[2]) else fresh(p[2]), "a client's token is not a fresh random name: %s" % show(p[2]))
            q.need("client-entry-complete", st, fr.fn.rel(), line, None if unk(v) else hascall(v, "AddClients") and any(fresh(x) for _, x in v[2]) if not hascall(v, "register_upload") else hascall(v, "AddClients"),
                   "the client's entry does not hold its own client number and upload: %s" % show(v))

    def call(q, e, st, c):
        if c.short == "StartAggregationDataUploadResponse":
            en = st.ts.get("entry")
            ct = kwof2(c, "client_token")
            rn = None
            for k, v in c.kw:
                if k == "resource":
                    rn = kwof(v, "resource_name")
            q.need("client-told-its-token", st, c.file, c.line, None if en is None or ct is None or unk(ct) else ct == en[0], "the client is told another token than the one registered for it")
            q.need("client-told-its-upload", st, c.file, c.line, None if en is None or rn is None or unk(rn) else any(x == rn for _, x in en[1][2]),
                   "the client is told another upload than the one registered for it")

    go(ctx, [f], write=write, call=call)
    ctx.need("client-token-fresh", 1)
    ctx.need("client-told-its-token", 1)

    for f in method(ctx, "pre_authorize_clients"):
        def write(q, e, st, p, v, line, fr):
            if p[0] == "v":
                return
            st.ts["added"] = v
            q.need("tokens-added-under-lock", st, fr.fn.rel(), line, bool(st.locks), "authorisations are added without the lock")

        def call(q, e, st, c):
            if c.short in ("update", "add") and c.name[:1] == "." and c.args:
                st.ts["added"] = c.args[0]

        def exit(q, e, st, kind, v, line, fn):
            if kind != "return":
                return
            q.need("tokens-fresh", st, fn.rel(), line, None if unk(v) else fresh(v), "authorisations handed out are not fresh random names: %s" % show(v))
            n = fn.params()[2]
            cs = [x for x in sub(v) if x[0] == "comp" and x[1] in ("gen", "list", "set")]
            if cs:
                it = cs[0][3]
                q.need("tokens-counted", st, fn.rel(), line, it[0] == "pure" and it[1] == "range" and len(it[2]) == 1 and it[2][0][0] == "p" and it[2][0][1] == n and fresh(cs[0][2]) and not cs[0][4],
                       "the number of authorisations is not the one asked for: %s" % show(it))
            elif any(x[0] == "op" and x[1] in ("Mult", "*") for x in sub(v)):
                q.need("tokens-counted", st, fn.rel(), line, False, "one authorisation is handed out several times: %s" % show(v))
            a = st.ts.get("added")
            q.need("tokens-registered", st, fn.rel(), line, False if a is None else (True if any(x in list(sub(a)) for x in ([cs[0]] if cs else [v])) else None), "authorisations handed out are not the ones registered")
        go(ctx, [f], write=write, call=call, exit=exit)
    ctx.need("tokens-fresh", 1)


def kwof2(c, k):
    for a, v in c.kw:
        if a == k:
            return v
    return None


# ---------------------------------------------------------------------------
# F03: requests of other populations
def blurred(t):
    """A name of which something was dropped."""
    return any(x[0] in ("call", "pure") and x[1].rsplit(".", 1)[-1] in ("lower", "upper", "casefold", "strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition", "removeprefix", "removesuffix", "replace", "len", "hash")
               or x[0] == "i" and any(y[0] == "op" and y[1] == "slice" for y in x[2:]) for x in sub(t))


def regexes(ctx, mod, t):
    """The pattern a match is made with, when it is a constant of its module."""
    t = t[2] if t[2] is not None else ("g", t[1].rsplit(".", 1)[0])
    if t[0] != "g":
        return None
    n = t[1].split(".")[-1]
    for m in ctx.py.mods.values():
        if t[1].rsplit(".", 1)[0] not in (m.name, "") and m is not mod:
            continue
        for x in m.tree.body:
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and any(isinstance(y, ast.Name) and y.id == n for y in (x.targets if isinstance(x, ast.Assign) else [x.target])):
                v = x.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "compile" and len(v.args) == 1 and isinstance(v.args[0], ast.Constant) and isinstance(v.args[0].value, str):
                    return v.args[0].value
    return None


def f03(ctx):
    hs = handlers(ctx)
    n = 0
    for c in ctx.py.classes.values():
        init = c.methods.get("__init__")
        if init is None or "population_name" not in init.params():
            continue
        mine = [f for f in c.methods.values() if f in hs.values()]
        if not mine:
            continue
        # the attribute holding the service's population
        attr = {}

        def write(q, e, st, p, v, line, fr):
            if p[0] == "a" and v[0] == "p" and v[1] == "population_name":
                attr[p[2]] = line
        go(ctx, [init], write=write)
        if not attr:
            ctx.unknown("population-checked", c.mod.path, init.line, "the population of the service is not kept in an attribute")
            continue

        for f in mine:
            n += 1

            def branch(q, e, st, a, pol, line, fr):
                if a[0] == "==" and any(isreq(x, "population_name") for x in a[1:]):
                    if any(x[0] == "a" and x[2] in attr for x in a[1:]):
                        st.ts["pop"] = "same" if pol else "other"
                    elif not any(x[0] == "c" for x in a[1:]):
                        st.ts["pop"] = "unk"
                elif a[0] == "in" and a[2][0] == "a" and a[2][2] in attr or a[0] in ("==", "<") and any(blurred(x) for x in a[1:]):
                    pass        # part of a name, or a name up to something
                elif a[0] not in ("truth", "is") and any(isreq(x, "population_name") for x in sub(a)):
                    st.ts["pop"] = "unk"

            def call(q, e, st, c):
                if c.name.startswith("fcp.demo.") and c.target is not None or c.short == "pre_authorize_clients":
                    if st.ts.get("pop") != "same" and c.target is not None and c.target.name not in ("__init__",) and (c.short in ("pre_authorize_clients", "create_session") or c.target.deco("property")):
                        q.need("population-before-effect", st, c.file, c.line, None if st.ts.get("pop") == "unk" else False, "%s is reached before the request's population was checked" % c.short)

            def exit(q, e, st, kind, v, line, fn):
                if kind == "return":
                    q.need("population-checked", st, fn.rel(), line, {"same": True, "unk": None}.get(st.ts.get("pop"), False), "a request is answered without its population having been found to be this server's")
                elif st.ts.get("pop") == "other":
                    q.need("other-population-not-found", st, fn.rel(), line, None if v[1] == HERR and code(v) is None else v[1] == HERR and code(v) == "NOT_FOUND",
                           "a request for another population is answered %s" % (code(v) or v[1]))
            go(ctx, [f], branch=branch, call=call, exit=exit)
    ctx.need("population-checked", 2)
    ctx.need("other-population-not-found", 1)

    # names are validated where the server and the data source are set up
    for f in [c.methods["__init__"] for c in ctx.py.classes.values() if "__init__" in c.methods and any(b and b.startswith("tff.program.Federated") for b in c.bases)
              and "population_name" in c.methods["__init__"].params()]:
        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                ok = False
                for a, b in st.facts.items():
                    t = a[1] if a[0] in ("truth", "is") else None
                    if t and t[0] == "call" and t[1].rsplit(".", 1)[-1] in ("fullmatch", "match", "search"):
                        arg = t[3][-1] if t[3] else None
                        if arg and arg[0] == "p" and arg[1] == "population_name":
                            good = b if a[0] == "truth" else not b
                            ok = good and t[1].endswith("fullmatch")
                            rx = regexes(ctx, fn.mod, t)
                            if rx is not None:
                                q.need("population-name-form", st, fn.rel(), line, lang.same(rx, NAMES), "names of another form are allowed: %s" % rx)
                q.need("population-name-valid", st, fn.rel(), line, ok, "a malformed population name is accepted")
        go(ctx, [f], exit=exit)
    # a computation runs only on the population of this server
    for f in method(ctx, "invoke", mod="federated_context"):
        def call(q, e, st, c):
            if c.short in ("_run_computation", "run_computation"):
                ok = any(a[0] == "==" and b is True and any(tail(x) == "population_name" for x in a[1:]) and any(tail(x) == "_population_name" or tail(x) == "population_name" for x in a[1:]) for a, b in st.facts.items())
                q.need("computation-own-population", st, c.file, c.line, ok, "a computation can run on another population than its data source names")
        go(ctx, [f], call=call, follow=lambda q, e, st, c, g: g.name != "_run_computation" and g.name != "run_computation")


# ---------------------------------------------------------------------------
# F04: uploads are held only as long as needed
def f04(ctx):
    hp = handlers(ctx, "http_action")
    ups = [f for p, f in hp.items() if "body" in f.params() and f.deco("http_action") and any(k.arg == "method" and getattr(k.value, "value", "") == "POST" for k in f.deco("http_action").keywords)]
    if not ups:
        raise AnalysisError("no upload handler")
    for f in ups:
        nm = [p for p in f.params() if p not in ("self", "body")][0]

        def write(q, e, st, p, v, line, fr):
            if p[0] == "i":
                fs = st.facts
                reg = st.ts.get(("in", p[1])) is True
                q.need("upload-only-to-registered", st, fr.fn.rel(), line, reg, "data is accepted for a name that was not registered")
                emp = fs.get(("is", p, ("c", None))) is True or st.ts.get("empty") is True
                q.need("upload-only-once", st, fr.fn.rel(), line, emp, "data already uploaded can be replaced")
                q.need("upload-under-one-lock", st, fr.fn.rel(), line, bool(st.locks) and st.ts.get("sec") == len(st.locks) and st.ts.get("cut") is None, "the check and the upload are not one step under the lock")
                q.need("upload-stored-whole", st, fr.fn.rel(), line, None if unk(v) else v[0] == "p" and v[1] == "body", "what is stored is not the body: %s" % show(v))
                q.need("upload-stored-under-its-name", st, fr.fn.rel(), line, None if unk(p[2]) else p[2][0] == "p" and p[2][1] == nm, "data is stored under another name: %s" % show(p[2]))
                st.ts["stored"] = True

        def branch(q, e, st, a, pol, line, fr):
            if a[0] == "in":
                st.ts[("in", a[2])] = pol
                st.ts["sec"] = len(st.locks)
                st.ts.pop("cut", None)
            if a[0] == "is" and NC(a[2]) and (a[1][0] == "i" or callname(a[1]) == "get"):
                st.ts["empty"] = pol
                if callname(a[1]) == "get" and pol and len(a[1][3]) == 2 and a[1][3][1][0] == "c" and not NC(a[1][3][1]):
                    # neither the default nor data: registered and empty
                    st.ts[("in", a[1][2])] = True
                    st.ts["sec"] = len(st.locks)
                    st.ts.pop("cut", None)

        def lock(q, e, st, lk, line, fr):
            if any(isinstance(k, tuple) and k[0] == "in" for k in st.ts):
                st.ts["cut"] = True

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                q.need("upload-accepted-is-stored", st, fn.rel(), line, st.ts.get("stored") is True, "an upload is acknowledged without having been stored")
            else:
                q.need("upload-refused", st, fn.rel(), line, v[1] == HERR and (code(v) or "UNAUTHORIZED") in ("UNAUTHORIZED", "FORBIDDEN", "NOT_FOUND", "CONFLICT"), "a refused upload is answered %s" % (code(v) or v[1]))
        go(ctx, [f], write=write, branch=branch, lock=lock, exit=exit)
    for r in ("upload-only-to-registered", "upload-only-once", "upload-under-one-lock", "upload-refused"):
        ctx.need(r, 1)

    for f in method(ctx, "finalize_upload"):
        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                gone = any(a[0] == "in" and b is False and a[1][0] == "p" and a[1][1] == fn.params()[1] for a, b in st.facts.items())
                q.need("finalize-removes", st, fn.rel(), line, gone, "finalised data stays on the server")
                q.need("finalize-returns-it", st, fn.rel(), line, None if unk(v) else v[0] in ("popped", "i") and v[2][0] == "p", "finalising returns something else: %s" % show(v))
        go(ctx, [f], exit=exit)
    for f in method(ctx, "register_upload"):
        def write(q, e, st, p, v, line, fr):
            if p[0] == "i":
                st.ts["reg"] = p[2]
                q.need("register-empty", st, fr.fn.rel(), line, NC(v), "a registered upload does not start empty: %s" % show(v))

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                q.need("register-fresh", st, fn.rel(), line, None if unk(v) else fresh(v), "the name of an upload is not a fresh random name")
                q.need("register-same-name", st, fn.rel(), line, st.ts.get("reg") == v, "the name handed out is not the one registered")
        go(ctx, [f], write=write, exit=exit)
    ctx.need("finalize-removes", 1)
    ctx.need("register-fresh", 1)

    # every end of a contribution frees its upload
    for mname in ("SubmitAggregationResult", "AbortAggregation"):
        f = handler(ctx, mname)

        def call(q, e, st, c):
            if c.short == "finalize_upload":
                st.ts["fin"] = True

        def after(q, e, st, c, v):
            if c.short in ("pop", "remove") and c.args and isreq(c.args[0], "client_token"):
                st.ts["taken"] = True if len(c.args) == 1 else v

        def branch(q, e, st, a, pol, line, fr):
            t = st.ts.get("taken")
            if t is not None and t is not True and (a == ("is", t, ("c", None)) or a == ("truth", t)):
                st.ts["taken"] = True if pol == (a[0] == "truth") else None

        def exit(q, e, st, kind, v, line, fn):
            if st.ts.get("taken") is True:
                q.need("contribution-end-frees-upload", st, fn.rel(), line, st.ts.get("fin") is True, "a client's registration ends here without its uploaded data being freed")
        go(ctx, [f], call=call, after=after, exit=exit, branch=branch)
    ctx.need("contribution-end-frees-upload", 2)

    # a client is registered only in a session that still exists
    f = handler(ctx, "StartAggregationDataUpload")

    def write(q, e, st, p, v, line, fr):
        if p[0] == "i" and v[0] == "new" and is_session(p[1]):
            q.need("registered-in-live-session", st, fr.fn.rel(), line, st.ts.get("live") == st.ts.get("nlock", 0) and bool(st.locks),
                   "a client is entered in a session that may have ended since its token was redeemed; its upload would never be freed")
            st.ts["own"] = True

    def lock(q, e, st, lk, line, fr):
        if lk[0] == "a" and lk[1][0] == "p":
            st.ts["nlock"] = st.ts.get("nlock", 0) + 1

    def branch(q, e, st, a, pol, line, fr):
        if (a[0] == "in" and pol and isreq(a[1], "aggregation_id") or a[0] in ("is", "==") and pol and any(is_session(x) for x in a[1:]) or
                a[0] == "truth" and pol and is_session(a[1]) and a[1][0] in ("i", "call")) and st.locks:
            st.ts["live"] = st.ts.get("nlock", 0)

    def call(q, e, st, c):
        if c.short == "register_upload":
            st.ts["reg"] = True
        if c.short == "finalize_upload":
            st.ts["own"] = True

    def exit(q, e, st, kind, v, line, fn):
        if st.ts.get("reg"):
            q.need("registered-upload-owned", st, fn.rel(), line, st.ts.get("own") is True, "an upload is registered that no client entry and no clean-up refers to")
    # facts about the table do not outlive the lock
    def left(q, e, st, v, line, fr):
        pass
    go(ctx, [f], write=write, lock=lock, branch=branch, call=call, exit=exit)
    ctx.need("registered-in-live-session", 1)

    # the end of a session frees everything it held
    for nm in ("complete_session", "abort_session"):
        for f in method(ctx, nm):
            sid = f.params()[1]

            def raises(q, e, st, c):
                if c.short in ("Complete", "GetResult") and c.name[:1] == ".":
                    return ["pybind11_abseil.status.StatusNotOk"]
                if c.short == "pop" and c.args and not (c.args[0][0] == "p" and c.args[0][1] == sid):
                    return []
                return None

            def after(q, e, st, c, v):
                if c.short == "pop" and c.args and c.args[0][0] == "p" and c.args[0][1] == sid:
                    st.ts["pop"] = True
                if c.short == "clear" and c.recv is not None and c.recv[0] == "a":
                    st.ts["clear:" + str(tail(c.recv))] = True
                    st.ts["nclear"] = st.ts.get("nclear", 0) + 1

            def iter_(q, e, st, n, el, fr):
                if el is not None and any(tail(x) == "active_clients" or True for x in sub(el[1])):
                    st.ts["loop"] = el

            def call(q, e, st, c):
                if c.short == "finalize_upload":
                    a = c.arg(0)
                    st.ts["fin"] = True
                    st.ts["finof"] = a
                    q.need("session-end-own-uploads", st, c.file, c.line, None if unk(a) else any(x[0] == "elem" for x in sub(a)), "the upload freed is not one of the session's clients': %s" % show(a))

            def reach(st):
                return None

            def exit(q, e, st, kind, v, line, fn):
                if st.ts.get("pop"):
                    seen = st.ts.get("sawclients")
                    q.need("session-end-frees-uploads", st, fn.rel(), line, seen is True, "uploads of a session that ended here are not freed")
            # the loop over the clients is passed on every path, and frees each upload
            def loopend(q, e, st, n, el, fr, kind):
                pass

            seenloops = {}
            for x in ctx.py.funcs.values():
                for n in ast.walk(x.node):
                    if isinstance(n, (ast.For, ast.ListComp, ast.GeneratorExp)) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "finalize_upload" for y in ast.walk(n)):
                        seenloops[(x.rel(), n.lineno)] = True

            class L(Q):
                pass
            e = py.Eng(ctx.py, L(ctx, raises=raises, after=after, call=call, exit=exit))
            old = e.loop

            def loop(n, st, fr, it, e=e, old=old):
                if it is not None and (fr.fn.rel(), n.lineno) in seenloops:
                    st.ts["sawclients"] = True
                return old(n, st, fr, it)
            e.loop = loop
            e.run(f)
            ctx.funcs |= e.analysed
    ctx.need("session-end-frees-uploads", 1)
    # each client's upload in that loop
    def iterend(q, e, st, n, el, fr, kind):
        if el is None or kind not in ("next", "continue"):
            return
        if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "finalize_upload" for y in ast.walk(n)):
            q.need("session-end-each-upload", st, fr.fn.rel(), n.lineno, st.ts.get("f") == el, "the upload of a client of an ended session is skipped")

    def call(q, e, st, c):
        if c.short == "finalize_upload":
            a = c.arg(0)
            els = [x for x in sub(a) if x[0] == "elem"]
            st.ts["f"] = els[0] if els else None
    go(ctx, method(ctx, "abort_session"), iterend=iterend, call=call, raises=lambda q, e, st, c: [] if c.short == "pop" else None)
    ctx.need("session-end-each-upload", 1)


# ---------------------------------------------------------------------------
# F05: shared tables and locks
CONT = {"dict", "list", "set", "collections.deque", "collections.OrderedDict", "collections.defaultdict"}


def f05(ctx):
    db = ctx.py
    order = {}
    for c in list(db.classes.values()):
        init = c.methods.get("__init__")
        locks = [a for a, t in c.attrs.items() if t and t[0] in ("threading.Lock", "threading.RLock")]
        if init is None or not locks:
            continue
        guarded = {a for a, t in c.attrs.items() if t and t[0] in CONT}
        # records kept in guarded tables: their own containers are shared too
        recs = set()
        for a in guarded:
            t = c.attrs[a]
            for x in (t[1] if t else ()):
                if x and x[0] in db.classes:
                    recs.add(x[0])
        roots = [f for n, f in c.methods.items() if n != "__init__" and (not n.startswith("_") or f.deco("proto_action") or f.deco("http_action"))]
        for f in list(c.methods.values()):
            for g in db.funcs.values():
                if g.parent is f and escapes(f.node, g.name):
                    roots.append(g)

        def read(q, e, st, p, line, fr):
            if p[0] != "a":
                return
            own = p[1][0] == "p" and len(p[1]) > 2 and p[1][2] and p[1][2][0] == c.qual and p[2] in guarded
            ty = e.typeof(p[1])
            rec = p[1][0] != "new" and ty is not None and ty[0] in recs and p[2] in db.classes[ty[0]].attrs and (db.classes[ty[0]].attrs[p[2]] or ("",))[0] in CONT
            if own or rec:
                q.need("shared-table-under-lock", st, fr.fn.rel(), line, bool(st.locks), "%s is used without the lock that other request threads use it under" % show(p))

        def lock(q, e, st, lk, line, fr):
            ty = e.typeof(lk)
            q.need("lock-not-taken-twice", st, fr.fn.rel(), line, lk not in st.locks or (ty and ty[0] == "threading.RLock"), "%s is taken while this thread holds it" % show(lk))
            for h in st.locks:
                a, b = lockid(e, h), lockid(e, lk)
                if a != b:
                    order.setdefault((a, b), (fr.fn.rel(), line, st))

        def awaits(q, e, st, v, line, fr):
            q.need("no-wait-under-lock", st, fr.fn.rel(), line, not st.locks, "a lock is held while waiting")

        go(ctx, roots, read=read, lock=lock, awaits=awaits)
    ctx.need("shared-table-under-lock", 5)
    ctx.need("lock-not-taken-twice", 3)
    # lock order
    g = {}
    for (a, b) in order:
        g.setdefault(a, set()).add(b)

    def reach(x, y, seen):
        if x == y:
            return True
        seen.add(x)
        return any(z not in seen and reach(z, y, seen) for z in g.get(x, ()))
    for (a, b), (file, line, st) in order.items():
        ctx.check("lock-order", file, line, not reach(b, a, set()), "%s is taken while holding %s, and elsewhere the other way round" % (b, a), st)


def lockid(e, lk):
    if lk[0] == "a":
        ty = e.typeof(lk[1])
        return "%s.%s" % (ty[0] if ty else show(lk[1]), lk[2])
    return show(lk)


def escapes(node, name):
    """Is the nested function passed on as a value (rather than only called here)?"""
    called = {id(x.func) for x in ast.walk(node) if isinstance(x, ast.Call)}
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in called for x in ast.walk(node))


# ---------------------------------------------------------------------------
# F06: requests are answered once, malformed ones refused
def f06(ctx):
    db = ctx.py
    rh = [c for c in db.classes.values() if "do_GET" in c.methods and "do_POST" in c.methods]
    if not rh:
        raise AnalysisError("no request handler class")
    for c in rh:
        for verb in ("do_GET", "do_POST"):
            f = c.methods[verb]

            def ishandler(cl):
                return cl.short == "handler" and len(cl.args) == 3

            def match_of(t):
                return t is not None and t[0] == "call" and t[1].rsplit(".", 1)[-1] in ("fullmatch", "match", "search")

            def raises(q, e, st, cl):
                if ishandler(cl):
                    return [HERR]
                return None

            def call(q, e, st, cl):
                if cl.short in ("send_error", "send_response") and cl.recv is not None:
                    st.ts["n"] = st.ts.get("n", 0) + 1
                    q.need("answered-once", st, cl.file, cl.line, st.ts["n"] == 1, "a second answer is sent to one request")
                if cl.short == "send_error":
                    a = cl.arg(0, "code")
                    if "exc" in st.ts:
                        q.need("error-status-passed-on", st, cl.file, cl.line, None if unk(a) else tail(a) == "code" or (a[0] == "g" and a == st.ts["exc"]), "the status of an error is replaced by %s" % show(a))
                    else:
                        q.need("no-route-not-found", st, cl.file, cl.line, None if a is None or a[0] != "g" else a[1].endswith(".NOT_FOUND"), "an unknown path is answered %s" % show(a))
                if cl.short == "send_response":
                    a = cl.arg(0, "code")
                    q.need("success-status", st, cl.file, cl.line, None if a is None or a[0] != "g" else a[1].endswith(".OK"), "a successful request is answered %s" % show(a))
                    q.need("success-after-handler", st, cl.file, cl.line, st.ts.get("h") is True, "success is answered although no handler ran")
                if cl.short == "end_headers":
                    st.ts["eh"] = True
                    q.need("headers-after-status", st, cl.file, cl.line, st.ts.get("n", 0) == 1, "headers are sent before the status")
                if cl.short == "send_header":
                    st.ts["hd"] = True
                    q.need("headers-after-status", st, cl.file, cl.line, st.ts.get("n", 0) == 1 and not st.ts.get("eh"), "a header is sent outside the header section")
                if cl.short == "write" and cl.recv is not None and tail(cl.recv) == "wfile":
                    q.need("body-after-headers", st, cl.file, cl.line, st.ts.get("eh") is True, "the body is sent before the end of the headers")
                    a = cl.arg(0)
                    q.need("body-sent-whole", st, cl.file, cl.line, None if unk(a) else tail(a) == "body", "the body sent is not the response's: %s" % show(a))
                    st.ts["w"] = True
                if cl.short == "read" and cl.recv is not None and tail(cl.recv) == "rfile":
                    a = cl.arg(0)
                    q.need("body-read-by-length", st, cl.file, cl.line, a is not None and (True if any(x == ("c", "Content-Length") for x in sub(a)) and not any(x[0] == "op" for x in sub(a)) else (None if unk(a) else False)),
                           "the body is not read by its announced length: %s" % (show(a) if a else "all"))
                if ishandler(cl):
                    st.ts["h"] = True
                    m, b, fn = cl.args
                    ok = match_of(m) and any((x == ("truth", m) and y) or (x == ("is", m, ("c", None)) and not y) for x, y in st.facts.items())
                    q.need("route-matches", st, cl.file, cl.line, None if unk(m) and not match_of(m) else bool(ok), "a handler runs without its pattern having matched")
                    if match_of(m):
                        q.need("route-whole-path", st, cl.file, cl.line, m[1].endswith("fullmatch") and any(tail(x) == "path" and x[1][0] == "p" for x in m[3]),
                               "a handler runs for a path its pattern matches only in part: %s" % show(m))
                        els = lambda t: {x for x in sub(t) if x[0] == "elem"}
                        q.need("route-own-handler", st, cl.file, cl.line, not els(fn) or not els(m[2] or m) or els(fn) == els(m[2] or m), "the function called is not the one the matched pattern belongs to")
                    enc = st.ts.get("enc")
                    if verb == "do_GET":
                        q.need("get-without-body", st, cl.file, cl.line, None if unk(b) else b in (("c", b""), ("c", None)), "a GET request reads a body")
                    else:
                        rd = hascall(b, "read")
                        q.need("post-body-read", st, cl.file, cl.line, None if unk(b) else rd, "a POST request's body is not passed on: %s" % show(b))
                        if enc == "gzip":
                            q.need("gzip-decoded", st, cl.file, cl.line, None if unk(b) else hascall(b, "decompress"), "a compressed body is passed on as it is")
                        elif enc == "none":
                            q.need("plain-not-decoded", st, cl.file, cl.line, None if unk(b) else not hascall(b, "decompress"), "an uncompressed body is decompressed")
                        elif enc == "other":
                            q.need("unknown-encoding-refused", st, cl.file, cl.line, False, "a body in an unsupported encoding is passed on")

            def branch(q, e, st, a, pol, line, fr):
                if not any(x == ("c", "Content-Encoding") for x in sub(a)):
                    return
                if a[0] == "==" and ("c", "gzip") in a[1:]:
                    st.ts["enc"] = "gzip" if pol else "other"
                elif a[0] == "truth" and not pol:
                    st.ts["enc"] = "none"
                elif a[0] == "truth" and pol:
                    st.ts.setdefault("enc", "other")
                elif a[0] == "is" and NC(a[2]):
                    st.ts["enc"] = "none" if pol else st.ts.get("enc", "other")
                elif a[0] == "==" and any(x[0] == "c" and isinstance(x[1], str) for x in a[1:]):
                    if pol:
                        st.ts["enc"] = "none" if ("c", "identity") in a[1:] or ("c", "") in a[1:] else "other"
                    else:
                        st.ts.setdefault("enc", "other")
                elif a[0] == "==":
                    st.ts["enc"] = "unk"
                else:
                    st.ts["enc"] = "unk"

            def exit(q, e, st, kind, v, line, fn):
                if kind == "return":
                    q.need("answered", st, fn.rel(), line or fn.line, st.ts.get("n", 0) == 1, "a request ends without an answer")
                    if st.ts.get("eh"):
                        q.need("success-has-body", st, fn.rel(), line or fn.line, st.ts.get("w") is True, "a successful answer has no body")
                else:
                    q.need("malformed-refused", st, fn.rel(), line, v[1] not in (HERR, "gzip.BadGzipFile", "zlib.error", "EOFError", "OSError"),
                           "a malformed request ends in an exception (%s) instead of an answer" % v[1])
            e = py.Eng(db, Q(ctx, raises=raises, call=call, branch=branch, exit=exit))
            oldh = e.handle

            def handle(hs, o, fr, oldh=oldh):
                o[1].ts["exc"] = o[2] if code(o[2]) is None else ("g", "http.HTTPStatus." + code(o[2]))
                return oldh(hs, o, fr)
            e.handle = handle
            e.run(f)
            ctx.funcs |= e.analysed
            # raised errors for encodings
            def mal(q, e, st, kind, v, line, fn):
                pass
    for r in ("answered", "answered-once", "route-matches", "error-status-passed-on", "no-route-not-found", "gzip-decoded", "body-read-by-length", "success-status"):
        ctx.need(r, 1)

    # the status of refused bodies is a client error
    def exit4(q, e, st, kind, v, line, fn):
        if kind == "raise" and v[1] == HERR:
            cd = code(v)
            q.need("refusal-is-a-client-error", st, fn.rel(), line, None if cd is None else cd in ("BAD_REQUEST", "UNSUPPORTED_MEDIA_TYPE", "UNPROCESSABLE_ENTITY", "LENGTH_REQUIRED", "REQUEST_ENTITY_TOO_LARGE"),
                   "a malformed request is answered %s" % cd)
    for c in rh:
        for m in c.methods.values():
            if m.name not in ("do_GET", "do_POST") and any(isinstance(x, ast.Raise) for x in ast.walk(m.node)):
                go(ctx, [m], exit=exit4)

    # transcoding
    http = [m for m in db.mods.values() if m.name.endswith(".http_actions")]
    for outer in ("proto_action", "http_action"):
        tops = [f for m in http for f in m.funcs.values() if f.name == outer]
        if not tops:
            raise AnalysisError("no decorator %s" % outer)
        for f in [g for g in db.funcs.values() if g.parent in tops and len(g.params()) == 3]:
            pm, pb, pf = f.params()
            nst = len(f.qual)

            def call(q, e, st, c):
                if c.short == "ParseFromString":
                    a = c.arg(0)
                    q.need("message-from-body", st, c.file, c.line, a[0] == "p" and a[1] == pb, "the message is not read from the body: %s" % show(a))
                    q.need("path-fields-kept", st, c.file, c.line, not st.ts.get("set"), "fields taken from the path are overwritten by the body")
                    st.ts["parsed"] = c.recv
                if c.name == "setattr" and len(c.args) == 3:
                    els = [x for x in sub(c.args[2]) if x[0] == "elem"]
                    if els:
                        st.ts["set"] = els[0]
                        q.need("path-fields-unquoted", st, c.file, c.line, None if unk(c.args[2]) else hascall(c.args[2], "unquote"), "a field taken from the path keeps its escapes")
                        k = c.args[1]
                        q.need("path-fields-by-name", st, c.file, c.line, any(x == els[0] for x in sub(k)), "a field taken from the path is stored under another name")
                if c.recv is not None and c.name == "()" and c.recv[0] == "p" and c.recv[1] == pf:
                    st.ts["called"] = st.ts.get("called", 0) + 1
                    if outer == "http_action":
                        q.need("action-gets-body", st, c.file, c.line, bool(c.args) and c.args[0][0] == "p" and c.args[0][1] == pb, "the action does not get the request's body")
                        kv = [v for k, v in c.kw if k == "**"]
                        q.need("path-args-unquoted", st, c.file, c.line, None if not kv or unk(kv[0]) else hascall(kv[0], "unquote"), "arguments taken from the path keep their escapes")
                        q.need("path-args-all", st, c.file, c.line, None if not kv or kv[0][0] != "comp" else not kv[0][4], "an argument taken from the path is left out")
                    else:
                        a = c.arg(0)
                        q.need("action-gets-message", st, c.file, c.line, None if unk(a) else hascall(a, "GetPrototype", "GetMessageClass") or a[0] == "new" or a[0] == "call", "the action does not get the request message: %s" % show(a))
                        q.need("action-input-type", st, c.file, c.line, None if unk(a) else not any(tail(x) == "output_type" for x in sub(a)), "the action gets a message of the response's type")
                        bf = [b for x, b in st.facts.items() if x[0] == "==" and ("c", "*") in x[1:]]
                        if True in bf:
                            q.need("message-parsed-first", st, c.file, c.line, st.ts.get("parsed") == a, "the action runs without the body having been read into its message")

            def iterend(q, e, st, n, el, fr, kind):
                if el is not None and hascall(el[1], "groupdict") and outer == "proto_action":
                    q.need("path-fields-all", st, fr.fn.rel(), n.lineno, kind == "raise" or st.ts.get("set") == el, "a field taken from the path is left out")

            def raises(q, e, st, c):
                if c.short in ("unquote",) and any(k == "errors" and v == ("c", "strict") for k, v in c.kw):
                    return ["UnicodeError"]
                return None

            def exit(q, e, st, kind, v, line, fn):
                if kind == "raise":
                    q.need("unreadable-message-refused", st, fn.rel(), line, v[1] == HERR and (code(v) in (None, "BAD_REQUEST")), "a malformed message is answered %s" % (code(v) or v[1]))
                    return
                q.need("action-called-once", st, fn.rel(), line, st.ts.get("called", 0) == 1, "the action runs %d times for one request" % st.ts.get("called", 0))
                if outer == "proto_action" and v[0] == "new":
                    b = kwof(v, "body")
                    h = kwof(v, "headers")
                    q.need("response-is-the-action's", st, fn.rel(), line, None if b is None or unk(b) else hascall(b, "SerializeToString") and any(x[0] == "call" and x[1] == "()" for x in sub(b)), "the response is not the action's message")
                    if h is not None and h[0] == "dict":
                        q.need("response-length", st, fn.rel(), line, any(k == ("c", "Content-Length") and x[0] == "pure" and x[1] == "len" and x[2][0] == b for k, x in h[1]), "the announced length is not the body's")
            go(ctx, [f], call=call, iterend=iterend, exit=exit, raises=raises)
    for r in ("message-from-body", "path-fields-unquoted", "path-fields-all", "action-called-once", "unreadable-message-refused", "action-gets-body"):
        ctx.need(r, 1)

    # a pattern variable is one path segment
    for outer in ("proto_action", "http_action"):
        for f in [f for m in http for f in m.funcs.values() if f.name == outer]:
            def call(q, e, st, c):
                if c.name == "re.compile":
                    t = c.args[0]
                    cs = [x[1] for x in sub(t) if x[0] == "c" and isinstance(x[1], str) and "(?P<" in x[1]]
                    esc = hascall(t, "escape")
                    q.need("pattern-escaped", st, c.file, c.line, None if unk(t) else esc, "the fixed parts of a pattern are not taken literally")
                    for x in sub(t):
                        if x[0] in ("call", "pure") and x[1].rsplit(".", 1)[-1] == "replace" and hascall(x, "escape"):
                            a = x[3][0] if x[0] == "call" and x[3] else None
                            q.need("pattern-escaped", st, c.file, c.line, None if a is None or a[0] != "c" else not str(a[1]).strip("\\{}"), "an escaped part of a pattern is unescaped again: %s" % show(a))
                        if x[0] == "c" and isinstance(x[1], str) and "alt=proto" in x[1]:
                            q.need("encoding-literal", st, c.file, c.line, lang.literal(x[1]) == "?%24alt=proto", "the suffix of a pattern does not match only itself: %s" % x[1])
                    for x in cs:
                        m = re.search(r"\[\^([^\]]*)\]", x)
                        q.need("variable-is-one-segment", st, c.file, c.line, bool(m) and "/" in m.group(1) and "?" in m.group(1), "a pattern variable can match more than one path segment: %s" % x)
                    if outer == "proto_action":
                        q.need("proto-encoding-required", st, c.file, c.line, any(x[0] == "c" and isinstance(x[1], str) and "alt=proto" in x[1] for x in sub(t)), "requests that do not ask for the binary encoding are routed")
            go(ctx, [f], call=call)
    ctx.need("variable-is-one-segment", 1)

    # every action is registered under its method
    for f in [f for m in http for f in m.funcs.values() if f.name == "create_handler"]:
        def call(q, e, st, c):
            if c.short == "append" and c.args and c.args[0][0] == "tuple" and c.recv is not None and c.recv[0] == "i":
                k = c.recv[2]
                st.ts["reg"] = True
                q.need("registered-under-its-method", st, c.file, c.line, None if unk(k) else tail(k) == "method" and k[1] in c.args[0][1:], "an action is registered under another method: %s" % show(k))

        def branch(q, e, st, a, pol, line, fr):
            if a[0] == "truth" and a[1][0] == "isinst":
                st.ts["is"] = pol

        def iterend(q, e, st, n, el, fr, kind):
            if st.ts.get("is") is True:
                q.need("every-action-registered", st, fr.fn.rel(), n.lineno, st.ts.get("reg") is True, "an action is not registered")
        go(ctx, [f], call=call, branch=branch, iterend=iterend)


# ---------------------------------------------------------------------------
# F07: downloads
def f07(ctx):
    for f in method(ctx, "create_download_group"):
        fns = [g for g in ctx.py.funcs.values() if g.parent is f]

        def write(q, e, st, p, v, line, fr):
            if p[0] == "i" and p[1][0] == "a":
                st.ts["grp"] = p
                st.ts["open"] = True
                q.need("group-name-fresh", st, fr.fn.rel(), line, None if unk(p[2]) else fresh(p[2]), "the name of a download group is not a fresh random name: %s" % show(p[2]))
                q.need("group-starts-empty", st, fr.fn.rel(), line, None if unk(v) else v == ("dict", ()) or v == ("pure", "dict", ()), "a download group does not start empty")

        def delete(q, e, st, p, line, fr):
            if p == st.ts.get("grp"):
                st.ts["open"] = False

        def after(q, e, st, c, v):
            g = st.ts.get("grp")
            if c.short == "pop" and g and c.recv == g[1] and c.args and c.args[0] == g[2]:
                st.ts["open"] = False

        def raises(q, e, st, c):
            return None

        def yields(q, e, st, v, line, fr):
            q.need("group-open-while-used", st, fr.fn.rel(), line, st.ts.get("open") is True, "a download group is handed out before it is registered")
            g = st.ts.get("grp")
            if g:
                q.need("group-own-prefix", st, fr.fn.rel(), line, None if unk(v) else any(x == g[2] for x in sub(v)), "a download group is handed out under another name")
            st.ts["y"] = True

        def exit(q, e, st, kind, v, line, fn):
            if "grp" in st.ts:
                q.need("group-closed-at-end", st, fn.rel(), line or fn.line, st.ts.get("open") is False or (v and v[0] == "exc" and v[1] == "KeyError"), "files of a download group stay available after it went out of use")
        go(ctx, [f], anyraise=True, write=write, delete=delete, after=after, yields=yields, exit=exit)

        def write2(q, e, st, p, v, line, fr):
            if p[0] != "i":
                return
            dup = st.ts.get("dup")
            q.need("file-name-unused", st, fr.fn.rel(), line, dup is False, "a file of a download group can be replaced")
            q.need("file-under-lock", st, fr.fn.rel(), line, bool(st.locks), "a file is added without the lock")
            if v[0] == "new":
                ps = fr.fn.params()
                b, h = kwof(v, "body"), kwof(v, "headers")
                q.need("file-served-whole", st, fr.fn.rel(), line, None if b is None or unk(b) else b[0] == "p", "the file served is not the one added: %s" % show(b))
                if h is not None and h[0] == "dict":
                    q.need("file-length", st, fr.fn.rel(), line, any(k == ("c", "Content-Length") and x == ("pure", "len", (b,)) for k, x in h[1]), "the announced length is not the file's")
                    ty = [x for k, x in h[1] if k == ("c", "Content-Type")]
                    q.need("file-type", st, fr.fn.rel(), line, bool(ty) and (None if unk(ty[0]) else ty[0][0] == "p" and ty[0] != b), "the announced type is not the file's")

        def branch2(q, e, st, a, pol, line, fr):
            if a[0] == "in" and a[1][0] == "p":
                st.ts["dup"] = pol
        go(ctx, [g for g in fns if escapes(f.node, g.name)], write=write2, branch=branch2)
    for r in ("group-name-fresh", "group-closed-at-end", "group-open-while-used"):
        ctx.need(r, 1)
    for pat, f in handlers(ctx, "http_action").items():
        d = f.deco("http_action")
        if not any(k.arg == "method" and getattr(k.value, "value", "") == "GET" for k in d.keywords):
            continue
        ps = [p for p in f.params() if p not in ("self", "body")]

        def key(t):
            """(key, table) of a look-up."""
            if t[0] == "i":
                return t[2], t[1]
            if t[0] == "call" and t[1] == ".get" and t[3]:
                return t[3][0], t[2]
            return None, None

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                k2, t = key(v)
                k1, t = key(t) if t is not None else (None, None)
                ok = k1 is not None and k2 is not None and k1[0] == "p" and k2[0] == "p"
                q.need("download-as-asked", st, fn.rel(), line, None if not ok and (unk(v) or v[0] not in ("i", "call", "p", "new")) else ok and [k1[1], k2[1]] == ps, "a download is answered with another file: %s" % show(v))
            else:
                q.need("unknown-file-not-found", st, fn.rel(), line, v[1] == HERR and code(v) in (None, "NOT_FOUND"), "a request for an unknown file is answered %s" % (code(v) or v[1]))
        # a lookup in a group may fail like one in the table
        def raises(q, e, st, c):
            return None
        e = py.Eng(ctx.py, Q(ctx, exit=exit))
        e.run(f)
        ctx.funcs |= e.analysed
    ctx.need("unknown-file-not-found", 1)
    ctx.need("download-as-asked", 1)
    # the path returned for a file is where it is served
    for f in method(ctx, "add", mod=".media"):
        def call(q, e, st, c):
            if c.name == "()" or c.target is None and c.recv is not None and tail(c.recv) and len(c.args) == 3:
                st.ts["added"] = c.args

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                a = st.ts.get("added")
                q.need("file-added", st, fn.rel(), line, a is not None, "a file is announced without being added")
                if a is not None:
                    ps = fn.params()[1:]
                    q.need("file-added-as-given", st, fn.rel(), line, [x[1] if x[0] == "p" else None for x in a] == ps, "a file is added with other data than given")
                    q.need("file-path-as-added", st, fn.rel(), line, None if unk(v) else v[0] == "op" and v[-1] == a[0] and any(tail(x) == "_prefix" or tail(x) == "prefix" for x in sub(v)), "the path announced is not the file's: %s" % show(v))
        go(ctx, [f], call=call, exit=exit)


# ---------------------------------------------------------------------------
# F08: a computation that ends leaves nothing behind
def f08(ctx):
    for f in method(ctx, "run_computation"):
        PAIRS = {"eligibility": 1, "task": 1}

        def follow(q, e, st, c, g):
            return g.name in ("add_task", "create_download_group") or (g.cls is None and not g.name.startswith("proto"))

        def svc(c):
            return c.target.cls.qual if c.target is not None and c.target.cls is not None else None

        def call(q, e, st, c):
            if c.short in ("abort_session", "complete_session"):
                st.ts["ended"] = st.ts.get("ended", 0) + 1
                a = c.arg(0)
                q.need("own-session-ended", st, c.file, c.line, None if unk(a) else callname(a) == "create_session", "another session is ended: %s" % show(a))
                q.need("session-ended-once", st, c.file, c.line, st.ts["ended"] == 1, "a session is ended twice")
                if c.short == "complete_session":
                    q.need("tasks-withdrawn-before-result", st, c.file, c.line, not [k for k in st.ts if k[0] == "task" and st.ts[k]], "a session is completed while clients can still be assigned to it")
            if c.short == "wait" and c.recv is not None:
                n = c.arg(1, "num_inputs_aggregated_and_included")
                q.need("waits-for-all", st, c.file, c.line, None if n is None or unk(n) else n[0] == "p" and n[1] == "number_of_clients", "the session is not waited on for the number of clients asked for: %s" % show(n))
                st.ts["waited"] = True
            if c.short == "complete_session":
                q.need("completed-after-waiting", st, c.file, c.line, st.ts.get("waited") is True, "a session is completed without waiting for its clients")
            if c.short == "remove_task":
                a = c.arg(0)
                k = ("task", svc(c))
                q.need("own-task-removed", st, c.file, c.line, None if unk(a) or k not in st.ts else a in (st.ts.get(("arg", svc(c))) or ()), "another task is removed: %s" % show(a))
            if c.short == "add" and c.target is not None and c.args:
                u = st.ts.get("names", ())
                st.ts["names"] = u + (c.args[0],)

        def after(q, e, st, c, v):
            if c.short == "create_session":
                st.ts["session"] = True
            if made(v) and c.short == "Session":
                st.ts["scratch"] = True
            if c.short in ("__exit__", "cleanup", "close") and c.recv is not None and any(made(x) for x in sub(c.recv)):
                st.ts["scratch"] = False
            if c.short in ("enter_context", "push", "closing") and c.args and made(c.args[0]):
                st.ts["scratch"] = False
            if c.short == "add_task" and svc(c):
                st.ts[("task", svc(c))] = True
                st.ts[("arg", svc(c))] = tuple(c.args)
            if c.short == "remove_task" and svc(c):
                st.ts[("task", svc(c))] = False

        def raises(q, e, st, c):
            if c.short in ("abort_session", "complete_session", "create_session", "remove", "remove_task"):
                return []
            if c.short in ("append", "get", "add_task"):
                return []
            if c.target is not None and c.short == "add" or c.short in ("wait", "finalize", "Session"):
                return ["*"]
            return ["*"] if c.name.startswith(".") and c.short in ("add",) else ([] if c.name[:1] == "." else None)

        def delete(q, e, st, p, line, fr):
            pass

        def left(q, e, st, v, line, fr):
            if made(v):
                st.ts["scratch"] = False

        def made(v):
            return v[0] in ("call", "new") and v[1].rsplit(".", 1)[-1] == "Session"

        def exit(q, e, st, kind, v, line, fn):
            if not st.ts.get("session"):
                return
            if "scratch" in st.ts:
                q.need("scratch-always-released", st, fn.rel(), line, not st.ts["scratch"], "a computation ends here with its scratch directory still there")
            q.need("session-always-ended", st, fn.rel(), line, st.ts.get("ended", 0) == 1, "a computation ends here without its session having been completed or aborted")
            left = [k[1] for k in st.ts if isinstance(k, tuple) and k[0] == "task" and st.ts[k]]
            q.need("tasks-always-removed", st, fn.rel(), line, not left, "a computation ends here with its task still listed by %s" % ", ".join(left))
            if kind == "return":
                q.need("result-through-session", st, fn.rel(), line, None if unk(v) else callname(v) == "finalize" or hascall(v, "complete_session"), "the value returned is not the computation's result")
        go(ctx, [f], anyraise=True, follow=follow, call=call, after=after, raises=raises, exit=exit, left=left)
    for r in ("session-always-ended", "tasks-always-removed", "waits-for-all"):
        ctx.need(r, 1)
    # a failed session is not waited for any further
    for f in method(ctx, "run_computation"):
        def branch(q, e, st, a, pol, line, fr):
            if a[0] == "==" and tail(a[1]) == "status" and a[2][0] == "g" and hascall(a[1], "wait"):
                st.ts["p"] = pol and a[2][1].endswith(".PENDING")

        def call(q, e, st, c):
            if c.short == "complete_session":
                q.need("failed-session-not-completed", st, c.file, c.line, st.ts.get("p") is True, "a session that is no longer running is completed")
        go(ctx, [f], branch=branch, call=call, follow=lambda q, e, st, c, g: False)
    # Python context managers of the demo clean up
    for c in classes_with(ctx, "__enter__", "__exit__"):
        init = c.methods.get("__init__")
        tmp = {}

        def write(q, e, st, p, v, line, fr):
            if p[0] == "a" and p[1][0] == "p" and callname(v) == "TemporaryDirectory":
                tmp[p[2]] = line
            if p[0] == "a" and p[1][0] == "p" and v[0] == "new" and v[1].endswith("InProcessServer"):
                tmp[p[2]] = line
        if init is None:
            continue
        go(ctx, [init], write=write)
        own = {k for k in tmp if any(isinstance(x, ast.Attribute) and x.attr == k for x in ast.walk(c.methods["__exit__"].node)) or True}
        if not own:
            continue

        def call(q, e, st, cl):
            if cl.short in ("cleanup", "shutdown", "server_close") and cl.recv is not None and tail(cl.recv) in own:
                st.ts[tail(cl.recv)] = True

        def exit(q, e, st, kind, v, line, fn):
            for k in own:
                q.need("owned-resource-released", st, fn.rel(), fn.line, st.ts.get(k) is True, "%s is not released when the block is left" % k)
        go(ctx, [c.methods["__exit__"]], call=call, exit=exit)


# ---------------------------------------------------------------------------
# F09: waiting for a session
def f09(ctx):
    for f in method(ctx, "wait"):
        n = f.params()[2]

        def enough(st):
            for a, b in st.facts.items():
                if a[0] == "<" and tail(a[1]) == INCL and a[2][0] == "p" and a[2][1] == n and b is False:
                    return True
                if a[0] == "<" and a[1][0] == "p" and a[1][1] == n and tail(a[2]) == INCL and b is True:
                    return True
                if a[0] == "is" and a[1][0] == "p" and a[1][1] == n and NC(a[2]) and b is True:
                    return True
            return False

        def short(st):
            return any(a[0] == "<" and tail(a[1]) == INCL and a[2][0] == "p" and b is True for a, b in st.facts.items())

        def call(q, e, st, c):
            if c.short == "add" and c.recv is not None and c.args and c.args[0][0] == "new":
                st.ts["w"] = c.args[0]
                st.ts["wl"] = bool(st.locks) and st.ts.get("nl") == 1
                q.need("wait-registered-with-check", st, c.file, c.line, bool(st.locks) and st.ts.get("nl", 0) == 1, "the check whether to wait and the registration are not one step: a contribution in between is missed")
                q.need("wait-own-condition", st, c.file, c.line, any(x[0] == "p" and x[1] == n for _, x in c.args[0][2]), "a wait is registered with another condition")
                q.need("wait-only-if-short", st, c.file, c.line, not enough(st), "a wait is registered although its condition already holds")

        def lock(q, e, st, lk, line, fr):
            st.ts["nl"] = st.ts.get("nl", 0) + 1

        def exit(q, e, st, kind, v, line, fn):
            if kind != "return":
                return
            w = st.ts.get("w")
            if w is None:
                q.need("wait-ends-when-met", st, fn.rel(), line, enough(st), "a wait ends although its condition does not hold")
            else:
                q.need("wait-for-own-result", st, fn.rel(), line, None if unk(v) else any(x == w for x in sub(v)), "a wait is ended by another wait's result")
        go(ctx, [f], call=call, lock=lock, exit=exit)
    ctx.need("wait-registered-with-check", 1)
    ctx.need("wait-ends-when-met", 1)

    def sets(c):
        """(waiting record, status) completed by this call, thread-safely or not."""
        fs = [x for x in list(c.args) + [v for _, v in c.kw]]
        if c.short == "call_soon_threadsafe" and fs:
            a = fs[0]
            if a[0] == "part" and tail(a[1]) == "set_result":
                return a[1], (a[2][0] if a[2] else None), c.recv
            if tail(a) == "set_result":
                return a, (fs[1] if len(fs) > 1 else None), c.recv
            if a[0] == "lam":
                return None, None, c.recv
        return None

    def seen_waits(e):
        """Note on the path that the waits of a session were gone through."""
        old = e.loop

        def loop(n, st, fr, it):
            if it is not None and any(tail(x) == "pending_waits" for x in sub(it)):
                st.ts["reached"] = True
            return old(n, st, fr, it)
        e.loop = loop

    # a contribution completes exactly the waits it satisfies
    f = handler(ctx, "SubmitAggregationResult")

    def met(st, el):
        r = None
        for a, b in st.facts.items():
            if a[0] == "<" and any(x == el for x in sub(a)) and any(tail(x) == INCL for x in sub(a)):
                x, y = a[1], a[2]
                if any(z == el for z in sub(y)) and not any(z == el for z in sub(x)):
                    r = "short" if b else "met"
                elif any(z == el for z in sub(x)) and not any(z == el for z in sub(y)):
                    r = "met" if b else "unk"
        return r

    def is_wait(el):
        return el is not None and any(tail(x) == "pending_waits" for x in sub(el[1]))

    def call(q, e, st, c):
        s = sets(c)
        el = st.ts.get("el")
        if s is not None and el is not None:
            st.ts["done"] = st.ts.get("done", 0) + 1
            if s[0] is not None:
                q.need("result-to-own-wait", st, c.file, c.line, any(x == el for x in sub(s[0])) and any(x == el for x in sub(s[2])), "a wait's result is set through another wait's loop or future")
                q.need("result-is-status", st, c.file, c.line, None if s[1] is None or unk(s[1]) else s[1][0] == "new" or hascall(s[1], "GetStatus"), "a wait ends with something else than the session's status: %s" % show(s[1]))
            if st.ts.get("mode") == "submit":
                q.need("wait-completed-only-when-met", st, c.file, c.line, {"met": True, "unk": None}.get(met(st, el), False), "a wait is completed although its condition was not found to hold")
        if c.short == "set_result":
            q.need("result-set-in-own-loop", st, c.file, c.line, False, "a wait's future is completed from another thread than its loop's")
        if c.short in ("add", "append", "discard", "remove") and c.args and el is not None and c.args[0] == el:
            st.ts["rm"] = True
            if c.short in ("add", "append"):
                st.ts["coll"] = c.recv
            if c.short in ("discard", "remove"):
                st.ts["wr"] = True
        if c.short in ("difference_update", "intersection_update", "clear", "remove", "discard") and c.recv is not None and tail(c.recv) == "pending_waits":
            st.ts["wr"] = True
        if c.short == "clear" and c.recv is not None and tail(c.recv) == "pending_waits":
            st.ts["rmall"] = True

    def iter_(q, e, st, nd, el, fr):
        if is_wait(el):
            st.ts["el"], st.ts["done"], st.ts["rm"], st.ts["rmall"] = el, 0, False, False

    def iterend(q, e, st, nd, el, fr, kind):
        if not is_wait(el):
            return
        if kind == "break":
            q.need("every-wait-looked-at", st, fr.fn.rel(), nd.lineno, False, "waits after this one are not looked at")
        if st.ts.get("mode") == "submit":
            m = met(st, el)
            if m == "met":
                q.need("met-wait-completed", st, fr.fn.rel(), nd.lineno, st.ts.get("done") == 1, "a wait whose condition holds is not completed exactly once")
                q.need("met-wait-removed", st, fr.fn.rel(), nd.lineno, st.ts.get("rm") is True, "a completed wait is kept and would be completed again")
            elif m is None or m == "unk":
                none = any(a[0] == "is" and b and NC(a[2]) and any(x == el for x in sub(a[1])) for a, b in st.facts.items())
                if not none and not st.ts.get("done"):
                    q.need("met-wait-completed", st, fr.fn.rel(), nd.lineno, False, "a wait whose condition may hold is not completed")
            elif m == "short":
                q.need("unmet-wait-kept", st, fr.fn.rel(), nd.lineno, not st.ts.get("rm"), "a wait whose condition does not hold is dropped")
        else:
            q.need("ended-session-ends-waits", st, fr.fn.rel(), nd.lineno, st.ts.get("done") == 1, "a wait on an ended session is not completed exactly once")

    def write(q, e, st, p, v, line, fr):
        if tail(p) == "pending_waits" or (p[0] == "a" and p[2] == "pending_waits"):
            st.ts["wr"] = v
            if st.ts.get("coll") is not None and st.ts.get("mode") == "submit":
                q.need("completed-waits-leave-the-list", st, fr.fn.rel(), line, not (v[0] == "hav" and v[1] == st.ts["coll"][1] or v == st.ts["coll"]), "the completed waits are what stays listed")

    def exit(q, e, st, kind, v, line, fn):
        if st.ts.get("rm") and st.ts.get("mode") == "submit" and kind == "return":
            q.need("completed-waits-leave-the-list", st, fn.rel(), line, st.ts.get("wr") is not None, "completed waits stay listed")
        if st.ts.get("mode") == "end" and st.ts.get("popped") and kind == "return":
            none = any(a[0] == "truth" and tail(a[1]) == "pending_waits" and b is False for a, b in st.facts.items())
            q.need("ended-session-looks-for-waits", st, fn.rel(), line, none or st.ts.get("reached") is True, "a session ends here without its waits having been looked at")
        if st.ts.get("el") is not None and st.ts.get("mode") == "end":
            q.need("ended-session-forgets-waits", st, fn.rel(), line, st.ts.get("rmall") is True, "completed waits of an ended session stay listed")
    go(ctx, [f], ts={"mode": "submit"}, call=call, iter=iter_, iterend=iterend, write=write, exit=exit)
    ctx.need("met-wait-completed", 1)
    for nm in ("abort_session", "complete_session"):
        for g in method(ctx, nm):
            def after(q, e, st, c, v):
                if c.short == "pop" and c.args and c.args[0][0] == "p":
                    st.ts["popped"] = True
            e = py.Eng(ctx.py, Q(ctx, call=call, iter=iter_, iterend=iterend, write=write, exit=exit, after=after, raises=lambda q, e, st, c: [] if c.short == "pop" else None))
            seen_waits(e)
            e.run(g, ts={"mode": "end"})
            ctx.funcs |= e.analysed
    ctx.need("ended-session-ends-waits", 1)
    # a contribution's submission looks for waits after the contribution was counted
    def call2(q, e, st, c):
        if c.short == "ReceiveClientMessage":
            st.ts["got"] = True
        if sets(c) is not None:
            q.need("waits-checked-after-contribution", st, c.file, c.line, st.ts.get("got") is True, "waits are checked before the contribution is counted")

    def iter2(q, e, st, nd, el, fr):
        if is_wait(el):
            st.ts["seen"] = True

    def exit2(q, e, st, kind, v, line, fn):
        if kind == "return" and st.ts.get("got"):
            islen = lambda t: t[0] == "pure" and t[1] == "len" and tail(t[2][0]) == "pending_waits"
            none = any(a[0] == "truth" and (tail(a[1]) == "pending_waits" or islen(a[1])) and b is False or a == ("<", ("c", 0), a[-1]) and islen(a[-1]) and b is False or
                       a[0] == "==" and b is True and ("c", 0) in a[1:] and any(islen(x) for x in a[1:]) for a, b in st.facts.items())
            q.need("waits-checked-on-success", st, fn.rel(), line, none or st.ts.get("reached") is True, "a counted contribution does not look for waits it satisfies")
    e = py.Eng(ctx.py, Q(ctx, call=call2, iter=iter2, exit=exit2))
    seen_waits(e)
    e.run(f)
    ctx.need("waits-checked-on-success", 1)


# ---------------------------------------------------------------------------
# F10: assignments
def f10(ctx):
    for c in classes_with(ctx, "add_task", "remove_task"):
        hs = {k: f for k, f in handlers(ctx).items() if f.cls is c}
        if "StartTaskAssignment" in hs:
            assignments(ctx, c, hs)
        elif "RequestEligibilityEvalTask" in hs:
            eligibility(ctx, c, hs)
    published(ctx)
    for r in ("assignment-fields", "assignment-own-token", "rejected-only-without-task", "task-listed"):
        ctx.need(r, 1)


def assignments(ctx, c, hs):
    add = c.methods["add_task"]
    fmap = {}        # record field -> add_task parameter
    where = {}       # mode -> container attribute

    def mode(st):
        for a, b in st.facts.items():
            if a[0] == "==" and b is True:
                for x in a[1:]:
                    if x[0] == "g" and x[1].rsplit(".", 1)[-1].startswith("TASK_ASSIGNMENT_MODE_"):
                        return x[1].rsplit("_", 1)[-1]
        return None

    def call(q, e, st, cl):
        if cl.short in ("append", "add", "appendleft", "insert") and cl.args and cl.args[-1][0] == "new" and cl.recv is not None and cl.recv[0] == "a":
            for k, v in cl.args[-1][2]:
                if v[0] == "p":
                    fmap[k] = v[1]
            where.setdefault(mode(st), set()).add(cl.recv[2])
            st.ts["stored"] = True
            if cl.short == "appendleft":
                q.need("tasks-in-order", st, cl.file, cl.line, False, "a new task is put before those waiting")

    def exit(q, e, st, kind, v, line, fn):
        if kind == "return":
            q.need("task-kept", st, fn.rel(), line or fn.line, st.ts.get("stored") is True, "a task is accepted without being kept")
    go(ctx, [add], call=call, exit=exit)
    if not fmap or len(where) < 2:
        ctx.unknown("assignment-fields", c.mod.path, add.line, "how tasks are kept is not recognised")
        return
    ctx.check("modes-apart", c.mod.path, add.line, not (where.get("SINGLE", set()) & where.get("MULTIPLE", set())), "tasks of both assignment modes are kept together")
    WANT = {"aggregation_id": "aggregation_session_id", "task_name": "task_name", "init_checkpoint": "init_checkpoint", "plan": "plan"}

    def handle(mname, md):
        f = hs.get(mname)
        if f is None:
            raise AnalysisError("no handler for %s" % mname)

        def bare(t):
            """A collection up to its kind."""
            while t[0] == "pure" and t[1] in ("set", "frozenset", "list", "tuple", "sorted") and len(t[2]) == 1:
                t = t[2][0]
            return t

        def rec(t):
            """(record, add_task parameter) of a term reading a kept task."""
            if t and t[0] == "a" and t[2] in fmap:
                return t[1], fmap[t[2]]
            return None, None

        def src(T):
            return {x[2] for x in sub(T) if x[0] == "a" and x[1][0] == "p"} & set().union(*where.values())

        def call(q, e, st, cl):
            if cl.short == "TaskAssignment" and cl.kw:
                kw = dict(cl.kw)
                Ts = set()
                for k, p in WANT.items():
                    v = kw.get(k)
                    T, got = rec(v)
                    if v is None:
                        q.need("assignment-fields", st, cl.file, cl.line, False, "an assignment lacks the task's %s" % k)
                        continue
                    q.need("assignment-fields", st, cl.file, cl.line, None if unk(v) else got == p, "an assignment's %s is not the task's: %s" % (k, show(v)))
                    if T is not None:
                        Ts.add(T)
                ui = kw.get("federated_select_uri_info")
                if ui is not None:
                    v = kwof(ui, "uri_template")
                    T, got = rec(v)
                    q.need("assignment-fields", st, cl.file, cl.line, None if v is None or unk(v) else got == "federated_select_uri_template", "an assignment's slices address is not the task's")
                    if T is not None:
                        Ts.add(T)
                q.need("assignment-one-task", st, cl.file, cl.line, len(Ts) == 1 or (None if not Ts else False), "an assignment mixes several tasks")
                sid = kw.get("session_id")
                q.need("assignment-own-session", st, cl.file, cl.line, sid is not None and (None if unk(sid) else isreq(sid, "session_id")), "an assignment is given for another session of the client")
                tk = kw.get("authorization_token")
                if len(Ts) == 1:
                    T = list(Ts)[0]
                    pre = [x for x in sub(tk)] if tk else []
                    cs = [x for x in pre if x[0] == "call" and x[1].endswith("pre_authorize_clients")]
                    ok = None
                    if tk is None:
                        ok = False
                    elif cs:
                        a = cs[0][3][0] if cs[0][3] else None
                        ok = a is not None and rec(a) == (T, "aggregation_session_id")
                    elif not unk(tk):
                        ok = False
                    q.need("assignment-own-token", st, cl.file, cl.line, ok, "an assignment carries an authorisation for another aggregation: %s" % show(tk))
                    sr = src(T)
                    if md == "SINGLE":
                        ix = [x[2] for x in sub(T) if x[0] == "i" and x[1][0] == "a" and x[1][2] in where.get(md, set())]
                        for i in ix:
                            q.need("earliest-task-first", st, cl.file, cl.line, None if i[0] != "c" else i == ("c", 0), "a later task is assigned before earlier ones: %s" % show(T))
                    else:
                        q.need("assignment-new-token", st, cl.file, cl.line, st.ts.get("tokens", 0) >= 1, "an assignment carries an authorisation that was already handed out with another")
                    if sr:
                        q.need("assignment-by-mode", st, cl.file, cl.line, sr <= where.get(md, set()), "a task of another assignment mode is assigned: %s" % show(T))
                    if md == "MULTIPLE":
                        asked = any(a[0] == "in" and b is True and isreq(bare(a[2]), "task_names") and rec(a[1]) == (T, "task_name") for a, b in st.facts.items())
                        q.need("assigned-only-if-asked", st, cl.file, cl.line, asked, "a task is assigned that the client did not ask for")
                st.ts["assigned"] = True
            if cl.short == "pre_authorize_clients":
                n = cl.arg(1, "num_tokens")
                q.need("one-token-per-assignment", st, cl.file, cl.line, None if n is None or unk(n) else n == ("c", 1), "an assignment takes %s authorisations" % show(n))
                st.ts["tokens"] = st.ts.get("tokens", 0) + 1
            if cl.short == "StartTaskAssignmentResponse":
                kw = dict(cl.kw)
                if "rejection_info" in kw:
                    no = any(b is False and a[0] == "truth" and (src(a[1]) & where.get("SINGLE", set())) for a, b in st.facts.items()) or \
                        any(b is True and a[0] in ("is", "==") and src(a[1]) & where.get("SINGLE", set()) for a, b in st.facts.items())
                    q.need("rejected-only-without-task", st, cl.file, cl.line, no, "a client is rejected although a task may be waiting")
                    q.need("rejected-without-token", st, cl.file, cl.line, not st.ts.get("tokens"), "a rejected client was given an authorisation")
                st.ts["resp"] = True
            if cl.short == "append" and cl.args and cl.args[0][0] == "new" and cl.args[0][1].endswith("TaskAssignment"):
                st.ts["listed"] = True

        def iterend(q, e, st, n, el, fr, kind):
            if el is None or not (src(el) & where.get(md, set())):
                return
            asked = [b for a, b in st.facts.items() if a[0] == "in" and isreq(bare(a[2]), "task_names") and any(x == el for x in sub(a[1]))]
            if True in asked:
                q.need("asked-task-assigned", st, fr.fn.rel(), n.lineno, st.ts.get("listed") is True, "a task the client asked for is not assigned")
            st.ts["listed"] = False
            st.ts.pop("tokens", None)
            if kind in ("break", "return"):
                q.need("all-tasks-considered", st, fr.fn.rel(), n.lineno, False, "tasks after the first are not considered")

        def follow(q, e, st, cl, g):
            return g.name != "pre_authorize_clients"

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return" and mname == "StartTaskAssignment" and v[0] == "new":
                d = kwof(v, "done")
                q.need("assignment-decided", st, fn.rel(), line, None if d is None or unk(d) else d == ("c", True), "an assignment is returned as an operation that is not done")
        go(ctx, [f], call=call, iterend=iterend, follow=follow, exit=exit)
    handle("StartTaskAssignment", "SINGLE")
    handle("PerformMultipleTaskAssignments", "MULTIPLE")

    # removal
    def call(q, e, st, cl):
        if cl.short in ("remove", "discard") and cl.recv is not None and cl.recv[0] == "a" and cl.recv[2] in set().union(*where.values()) and cl.args:
            T = cl.args[0]
            ok = any(a[0] == "==" and b is True and any(x[0] == "a" and x[1] == T and fmap.get(x[2]) == "aggregation_session_id" for x in a[1:]) and any(x[0] == "p" for x in a[1:]) for a, b in st.facts.items())
            q.need("task-removed-by-session", st, cl.file, cl.line, ok, "a task is removed that is not the session's")
            q.need("task-removed-from-its-list", st, cl.file, cl.line, None if unk(T) else cl.recv[2] in {x[2] for x in sub(T) if x[0] == "a"}, "a task is removed from a list it is not in")
            st.ts["rm"] = True

    def exit(q, e, st, kind, v, line, fn):
        if kind == "return":
            q.need("task-removal-happens", st, fn.rel(), line or fn.line, st.ts.get("rm") is True or bool(st.ts.get("wr")) or None if not st.ts.get("rm") and st.ts.get("wr") else st.ts.get("rm") is True, "removing a task returns without having removed it")

    def write(q, e, st, p, v, line, fr):
        if p[0] == "a" and p[2] in set().union(*where.values()):
            st.ts["wr"] = True
            for x in sub(v):
                if x[0] == "comp" and x[4] and any(tail(y) == p[2] for y in sub(x[3])):
                    used = {fmap[y[2]] for k in x[4] for y in sub(k) if y[0] == "a" and y[2] in fmap}
                    q.need("task-removed-by-session", st, fr.fn.rel(), line, None if not used else used == {"aggregation_session_id"}, "tasks are removed by their %s" % ", ".join(sorted(used)))
    go(ctx, [c.methods["remove_task"]], call=call, write=write, exit=exit)


def eligibility(ctx, c, hs):
    add = c.methods["add_task"]
    fmap, tab = {}, set()

    def write(q, e, st, p, v, line, fr):
        if p[0] == "i" and v[0] == "new":
            for k, x in v[2]:
                if x[0] == "p":
                    fmap[k] = x[1]
            tab.add(p[1][2] if p[1][0] == "a" else "?")
            q.need("task-kept-under-name", st, fr.fn.rel(), line, None if unk(p[2]) else p[2][0] == "p" and p[2][1] == "task_name", "a task is kept under another name")
    go(ctx, [add], write=write)

    def delete(q, e, st, p, line, fr):
        st.ts["rm"] = p[2][0] == "p"

    def call0(q, e, st, cl):
        if cl.short == "pop" and cl.args:
            st.ts["rm"] = cl.args[0][0] == "p"

    def exit0(q, e, st, kind, v, line, fn):
        if kind == "return":
            q.need("listed-task-removed", st, fn.rel(), line or fn.line, st.ts.get("rm") is True, "removing a task leaves it listed")
    go(ctx, [c.methods["remove_task"]], delete=delete, call=call0, exit=exit0)

    f = hs["RequestEligibilityEvalTask"]

    def call(q, e, st, cl):
        if cl.short == "TaskInfo" and cl.kw:
            kw = dict(cl.kw)
            Ts = set()
            for k in ("task_name", "task_assignment_mode"):
                v = kw.get(k)
                ok = v is not None and (None if unk(v) else v[0] == "a" and fmap.get(v[2]) == k)
                q.need("task-listed", st, cl.file, cl.line, ok, "a listed task's %s is not its own: %s" % (k, show(v) if v else "missing"))
                if v is not None and v[0] == "a":
                    Ts.add(v[1])
            q.need("task-listed-whole", st, cl.file, cl.line, len(Ts) == 1, "a listed task mixes several tasks")

    def comp(q, e, st, v, line, fr):
        if v[2] is not None and v[2][0] == "new" and v[2][1].endswith("TaskInfo"):
            q.need("all-tasks-listed", st, fr.fn.rel(), line, not v[4] and not any(x[0] == "op" and x[1] == "slice" for x in sub(v[3])), "a task is left out of the list of tasks")

    def write(q, e, st, p, v, line, fr):
        if p[0] == "a" and p[2] == "data":
            sup = [b for a, b in st.facts.items() if a[0] == "truth" and tail(a[1]) == "supports_multiple_task_assignment"]
            st.ts["spec"] = v
            q.need("spec-for-capable", st, fr.fn.rel(), line, True in sup, "a client is given a list of tasks it did not say it supports")

    def exit(q, e, st, kind, v, line, fn):
        if kind != "return":
            return
        sup = [b for a, b in st.facts.items() if a[0] == "truth" and tail(a[1]) == "supports_multiple_task_assignment"]
        if True in sup:
            q.need("capable-gets-spec", st, fn.rel(), line, "spec" in st.ts, "a client that supports several tasks is not given the list of tasks")
        s = kwof(v, "session_id")
        q.need("session-id-fresh", st, fn.rel(), line, None if s is None or unk(s) else fresh(s), "a session id is not fresh: %s" % show(s))
    go(ctx, [f], call=call, comp=comp, write=write, exit=exit)


# ---------------------------------------------------------------------------
# F11: computations run as given
def initmap(ctx, c):
    """Attribute -> constructor parameter it is set from."""
    out = {}

    def write(q, e, st, p, v, line, fr):
        if p[0] == "a" and p[1][0] == "p" and p[1][1] == "self" and v[0] == "p":
            out[p[2]] = v[1]
    if "__init__" in c.methods:
        go(ctx, [c.methods["__init__"]], write=write)
    return out


def isparam(t, name):
    return t is not None and t[0] == "p" and t[1] == name


AWAITERS = {"create_task", "gather", "ensure_future", "run", "wait", "wait_for", "shield", "run_until_complete", "as_completed", "run_coroutine_threadsafe"}


def coroutine_used(fn, node):
    """Is the coroutine made by this call awaited, scheduled or handed on?"""
    par = {}
    for x in ast.walk(fn.node):
        for y in ast.iter_child_nodes(x):
            par[y] = x
    n = node
    listed = False
    while n in par:
        p = par[n]
        if isinstance(p, ast.Return) and isinstance(fn.node, ast.AsyncFunctionDef):
            return False        # the caller awaits this function, not what it returns
        if isinstance(p, (ast.Await, ast.Return, ast.Yield, ast.YieldFrom)):
            return not listed or isinstance(p, (ast.Return, ast.Yield)) or None
        if isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.List, ast.Tuple, ast.Dict, ast.DictComp)):
            listed = True
        elif isinstance(p, ast.Call) and n is not p.func:
            nm = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, "id", "")
            return True if nm in AWAITERS or not listed else False
        elif isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            names = {t.id for t in ts if isinstance(t, ast.Name)}
            if not names:
                return None
            for u in ast.walk(fn.node):
                if isinstance(u, ast.Name) and u.id in names and isinstance(u.ctx, ast.Load):
                    a, b = u, par.get(u)
                    while isinstance(b, ast.Starred):
                        a, b = b, par.get(b)
                    if isinstance(b, ast.Await) and not listed:
                        return True
                    if isinstance(b, (ast.comprehension, ast.For, ast.AsyncFor)) and listed:
                        return None
                    if isinstance(b, ast.Call) and a is not b.func:
                        nm = b.func.attr if isinstance(b.func, ast.Attribute) else getattr(b.func, "id", "")
                        if nm in AWAITERS or not listed:
                            return True
                    if isinstance(b, ast.Return) and not listed:
                        return True
            return False
        elif isinstance(p, ast.Expr):
            return False
        elif isinstance(p, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)):
            return None
        n = p
    return None


def f11(ctx):
    db = ctx.py
    # coroutines
    seen = set()

    def call(q, e, st, c):
        if c.target is not None and isinstance(c.target.node, ast.AsyncFunctionDef) and (c.file, c.line, c.node.col_offset) not in seen:
            seen.add((c.file, c.line, c.node.col_offset))
            q.need("coroutine-awaited", st, c.file, c.line, coroutine_used(c.fr.fn, c.node), "%s is a coroutine function; what it returns is neither awaited nor scheduled here" % c.short)
    for f in list(db.funcs.values()):
        go(ctx, [f], call=call, follow=lambda q, e, st, c, g: False)
    ctx.need("coroutine-awaited", 2)

    # values of the program that are still pending
    for f in [f for f in db.funcs.values() if isinstance(f.node, ast.AsyncFunctionDef)]:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get_value" and not n.args:
                ctx.check("pending-value-awaited", f.rel(), n.lineno, coroutine_used(f, n) is not False, "a pending value is not waited for")
    ctx.need("pending-value-awaited", 1)

    # what was given to a constructor is what is read back
    for c in db.classes.values():
        if c.mod.name.split(".")[-1] not in ("federated_data_source", "federated_computation"):
            continue
        m = initmap(ctx, c)
        for nm in set(m.values()) & set(c.methods):
            def exit(q, e, st, kind, v, line, fn):
                if kind == "return":
                    q.need("read-back-as-set-up", st, fn.rel(), line, None if unk(v) else m.get(tail(v)) == nm, "%s of %s is not what it was made with: %s" % (nm, c.qual, show(v)))
            go(ctx, [c.methods[nm]], exit=exit)
    ctx.need("read-back-as-set-up", 1)

    # what a selection carries
    for f in method(ctx, "select"):
        maps = {c.qual: initmap(ctx, c) for c in db.classes.values() if c.mod is f.mod}

        def exit(q, e, st, kind, v, line, fn):
            if kind != "return" or v[0] != "new":
                return
            for fld in ("population_name", "example_selector", "task_assignment_mode"):
                x = kwof(v, fld)
                nm = tail(x) if x else None
                src = {m.get(nm) for m in maps.values() if nm in m} | ({nm} if nm in ("population_name", "example_selector", "task_assignment_mode") else set())
                q.need("selection-as-set-up", st, fn.rel(), line, None if x is None or not src and x[0] not in ("g", "c") or unk(x) else src == {fld}, "a selection's %s is not the data source's: %s" % (fld, show(x)))
        go(ctx, [f], exit=exit)
    ctx.need("selection-as-set-up", 1)

    # properties of a computation that stand for all of it
    ident = {nm for c in db.classes.values() if c.mod.name.endswith("federated_computation") for nm in c.methods if any(s in nm for s in ("comp", "form"))} - {"name"}

    def bases(t):
        while True:
            yield t
            if t[0] not in ("a", "i"):
                return
            t = t[1]

    def whole_parts(t):
        """What a key tells apart: its parts, and parts of those only if they identify them."""
        yield t
        if t[0] in ("tuple", "list"):
            for x in t[1:]:
                yield from whole_parts(x)
        elif t[0] == "pure" and t[1] in ("id", "hash", "str", "repr", "tuple", "frozenset", "sorted") or t[0] == "op":
            for x in sub(t):
                if x is not t and x[0] in ("a", "p"):
                    yield x
                    if x[0] == "a" and x[2] in ident:
                        yield x[1]
        elif t[0] == "a" and (t[2] in ident or t[2].startswith("_comp")):
            yield t[1]
        elif t[0] == "call" and t[1].rsplit(".", 1)[-1] in ("SerializeToString", "dumps", "SerializePartialToString", "digest", "hexdigest"):
            for x in sub(t):
                yield x

    for f in method(ctx, "invoke", mod="federated_context"):
        pc, pa = f.params()[1:3]

        def write(q, e, st, p, v, line, fr):
            if p[0] == "i" and p[1][0] == "a":
                st.ts["tab"] = p
                kept = set(v[1:]) if v[0] in ("tuple", "list") else {y for _, y in v[2]} if v[0] == "new" else {v}
                for x in sub(p[2]):
                    if x[0] == "pure" and x[1] == "id":
                        q.need("cached-by-a-live-object", st, fr.fn.rel(), line, any(y in kept for y in bases(x[2][0])), "a plan is cached under the address of an object that is not kept: another object can get the same address")
                for need, what in ((lambda y: isparam(y, pc), "computation"), (lambda y: tail(y) == "example_selector", "data")):
                    if any(need(y) for y in sub(v)):
                        q.need("cached-by-what-it-depends-on", st, fr.fn.rel(), line, any(need(y) for y in whole_parts(p[2])), "a plan is cached under a key that does not depend on the %s it was built for" % what)

        def call(q, e, st, c):
            if c.short != "run_computation":
                return
            cfg = None
            a = [c.arg(i, k) for i, k in enumerate(("task_name", "plan", "server_checkpoint", "task_assignment_mode", "number_of_clients"))]
            q.need("computation-name", st, c.file, c.line, None if a[0] is None or unk(a[0]) else any(isparam(y, pc) for y in sub(a[0])), "a computation runs under another name: %s" % show(a[0]))
            pl = a[1]
            ok = None
            if pl is not None and not unk(pl):
                lk = [x for x in sub(pl) if x[0] == "i" and x[1][0] == "a" and x[1][1][0] == "p" and x[1][1][1] == "self"]
                if hascall(pl, "build_plan"):
                    ok = any(isparam(y, pc) for y in sub(pl)) and any(tail(y) == "example_selector" for y in sub(pl))
                elif lk:
                    k = lk[0][2]
                    ok = any(isparam(y, pc) for y in whole_parts(k)) and any(tail(y) == "example_selector" for y in whole_parts(k))
            q.need("plan-of-the-computation", st, c.file, c.line, ok, "the plan that runs is not the one for this computation and data: %s" % show(pl))
            q.need("state-of-the-caller", st, c.file, c.line, None if a[2] is None or unk(a[2]) else any(isparam(y, pa) for y in sub(a[2])) or hascall(a[2], "_state_to_checkpoint") or None, "the computation starts from other state")
            cf = [b for x, b in st.facts.items() if x[0] == "truth" and x[1][0] == "isinst" and "DataSelectionConfig" in str(x[1][2])]
            q.need("selection-checked", st, c.file, c.line, True in cf, "an argument that is not a selection of this platform is used as one")
            ln = [b for x, b in st.facts.items() if x[0] == "==" and any(y[0] == "pure" and y[1] == "len" and isparam(y[2][0], pa) for y in x[1:]) and ("c", 2) in x[1:]]
            q.need("argument-shape-checked", st, c.file, c.line, True in ln, "arguments of another shape are accepted")
            for x, k in ((a[3], "task_assignment_mode"), (a[4], "num_clients")):
                q.need("selection-honoured", st, c.file, c.line, None if x is None or unk(x) else tail(x) == k, "the computation does not run with the selected %s: %s" % (k, show(x)))
        go(ctx, [f], write=write, call=call, follow=lambda q, e, st, c, g: g.name in ("_run_computation", "_parse_arg") or g.name not in ("run_computation", "_get_nested_data_spec", "_resolve_value_references", "_is_state_structure_of_allowed_types", "_state_to_checkpoint", "_create_tensor_reference_struct"))
    ctx.need("plan-of-the-computation", 1)

    # the state a caller gives is looked at as a whole
    for f in [f for f in db.funcs.values() if f.mod.name.endswith("federated_context") and f.cls is not None and any(isinstance(x, ast.For) for x in ast.walk(f.node)) and any(isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and x.value.value is False for x in ast.walk(f.node))]:
        def iter_(q, e, st, n, el, fr):
            q.need("state-looked-at-whole", st, fr.fn.rel(), n.lineno, el is None or not any(x[0] == "op" and x[1] == "slice" for x in sub(el[1])), "only part of the caller's state is looked at")

        def iterend(q, e, st, n, el, fr, kind):
            if kind in ("return", "break"):
                st.ts["cut"] = True

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return" and v == ("c", True):
                q.need("state-looked-at-whole", st, fn.rel(), line, not st.ts.get("cut"), "the caller's state is accepted after part of it was looked at")
        go(ctx, [f], iter=iter_, iterend=iterend, exit=exit, follow=lambda q, e, st, c, g: False)

    # structures keep their order and their parts
    def reordered(t):
        return any(x[0] == "pure" and x[1] in ("sorted", "reversed", "set", "frozenset") or x[0] == "op" and x[1] == "slice" for x in sub(t))

    def packed(q, e, st, c):
        if c.short in ("pack_sequence_as", "pack_tff_value") and len(c.args) > 1:
            s = c.args[1]
            q.need("structure-kept", st, c.file, c.line, not reordered(s) and not any(x[0] == "comp" and x[4] for x in sub(s)), "values are put back in another order or not all: %s" % show(s))

    def comp(q, e, st, v, line, fr):
        if v[0] == "comp" and callname(v[3]) == "items" and any(x[0] == "p" for x in sub(v[3])):
            q.need("structure-kept", st, fr.fn.rel(), line, not v[4], "part of a structure of data is left out")
    for f in [f for f in db.funcs.values() if f.mod.name.split(".")[-1] in ("federated_context", "federated_data_source")]:
        go(ctx, [f], call=packed, comp=comp, follow=lambda q, e, st, c, g: False)
    ctx.need("structure-kept", 1)

    # names of computations
    for c in db.classes.values():
        i = c.methods.get("__init__")
        if i is None or not c.mod.name.endswith("federated_computation"):
            continue

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                ok = any(a[0] in ("truth", "is") and a[1][0] == "call" and a[1][1].endswith("fullmatch") and any(isparam(y, "name") for y in sub(a[1])) and (b if a[0] == "truth" else not b) for a, b in st.facts.items())
                for a in st.facts:
                    if a[0] in ("truth", "is") and a[1][0] == "call" and a[1][1].endswith("fullmatch"):
                        rx = regexes(ctx, fn.mod, a[1])
                        if rx is not None:
                            q.need("computation-name-form", st, fn.rel(), line or fn.line, lang.same(rx, NAMES), "names of another form are allowed: %s" % rx)
                q.need("computation-name-valid", st, fn.rel(), line or fn.line, ok, "a malformed computation name is accepted")
        go(ctx, [i], exit=exit)

    # results by name; scratch files
    def scratch(q, st, c, path):
        st.ts["file"] = path
        q.need("scratch-file-own", st, c.file, c.line, None if path[0] == "hav" else fresh(path) or any(fresh(x) for x in sub(path)), "concurrent reads share a scratch file: %s" % show(path))

    for f in method(ctx, "get_value", mod="checkpoint_tensor_reference") + method(ctx, "_state_to_checkpoint", need=False, mod="federated_context"):
        m = initmap(ctx, f.cls)
        getter = f.name == "get_value"

        def call(q, e, st, c):
            if c.short == "GFile" and len(c.args) > 1 and c.args[1] == ("c", "wb"):
                scratch(q, st, c, c.args[0])
            if c.short == "save_tff_structure_to_checkpoint":
                n, path = c.arg(1, "ordered_var_names"), c.arg(2, "output_checkpoint_path")
                if path is not None:
                    scratch(q, st, c, path)
                    st.ts["read"] = True
                for x in sub(n) if n is not None else ():
                    if x[0] == "call" and x[1].endswith("variable_names_from_type"):
                        nm = [v for k, v in x[4] if k == "name"]
                        q.need("state-under-its-name", st, c.file, c.line, None if not nm or nm[0][0] != "g" else nm[0][1].endswith("SERVER_STATE_VAR_PREFIX"), "the starting state is saved under %s" % (nm and show(nm[0])))
            if c.short == "write" and c.args and "file" in st.ts:
                st.ts["data"] = c.args[0]
            if c.short == "RestoreV2":
                kw = dict(c.kw)
                n = kw.get("tensor_names")
                q.need("result-by-its-name", st, c.file, c.line, None if n is None or unk(n) else n[0] == "list" and len(n) == 2 and m.get(tail(n[1])) == "tensor_name", "another tensor is read: %s" % show(n))
                dt = kw.get("dtypes")
                q.need("result-by-its-type", st, c.file, c.line, None if dt is None or unk(dt) or dt[0] != "list" or len(dt) != 2 else any(x[0] == "a" and x[1][0] == "p" for x in sub(dt[1])), "the tensor is read with another type: %s" % show(dt))
                pf = kw.get("prefix")
                q.need("result-from-own-file", st, c.file, c.line, None if pf is None or unk(pf) else pf == st.ts.get("file"), "the tensor is read from another file")
                d = st.ts.get("data")
                q.need("result-from-own-checkpoint", st, c.file, c.line, None if d is None or unk(d) else any(m.get(tail(x)) == "checkpoint_future" for x in sub(d)), "the tensor is read from another checkpoint")
                st.ts["read"] = True
            if c.short == "remove" and c.args and c.args[0] == st.ts.get("file"):
                st.ts["gone"] = True

        def raises(q, e, st, c):
            return ["*"] if c.short == "RestoreV2" or c.short == "read" and st.ts.get("read") else []

        def exit(q, e, st, kind, v, line, fn):
            if st.ts.get("read"):
                q.need("scratch-file-removed", st, fn.rel(), line, st.ts.get("gone") is True, "the scratch file stays behind")
            elif getter and kind == "return":
                q.need("result-read-first", st, fn.rel(), line, any(a[0] in ("is", "truth") and tail(a[1]) is not None and any(x == a[1] for x in sub(v)) for a in st.facts), "a result is handed out that was never read")
        go(ctx, [f], call=call, raises=raises, exit=exit)
    ctx.need("result-by-its-name", 1)

    # the references handed out: state and metrics each under their own names
    def call(q, e, st, c):
        if c.short == "CheckpointTensorReference":
            n, d, s = c.arg(0, "tensor_name"), c.arg(1, "dtype"), c.arg(2, "shape")
            els = [{x for x in sub(t) if x[0] == "elem"} for t in (n, d, s) if t is not None]
            q.need("reference-name-and-type-together", st, c.file, c.line, None if len(els) < 3 or not all(els) else els[0] == els[1] == els[2], "a result is given the type of another")
            q.need("reference-name-and-type-together", st, c.file, c.line, not any(reordered(t) for t in (n, d, s) if t is not None), "names and types of results are put in another order")
            pre = [x for x in sub(n) if x[0] == "call" and x[1].endswith("variable_names_from_type")]
            for x in pre:
                t = x[3][0] if x[3] else None
                nm = [v for k, v in x[4] if k == "name"]
                if t is not None and t[0] == "i" and t[2][0] == "c" and nm and nm[0][0] == "g":
                    want = {0: "SERVER_STATE_VAR_PREFIX", 1: "SERVER_METRICS_VAR_PREFIX"}.get(t[2][1])
                    q.need("reference-prefix", st, c.file, c.line, want is None or nm[0][1].endswith(want), "results of part %s are looked up under %s" % (t[2][1], nm[0][1]))
    for f in [f for f in db.funcs.values() if f.mod.name.endswith("federated_context")]:
        go(ctx, [f], call=call, follow=lambda q, e, st, c, g: False)


# ---------------------------------------------------------------------------
# F12: what clients get, and the files of a round
def f12(ctx):
    db = ctx.py
    ss = [c for c in db.classes.values() if "client_plan" in c.methods and "finalize" in c.methods]
    if not ss:
        raise AnalysisError("no plan session class")
    for c in ss:
        init = c.methods["__init__"]
        attr = {}          # attribute -> value set in the constructor
        feeds = {}         # router field -> (file term, place)
        written = {}       # file term -> data term

        def write(q, e, st, p, v, line, fr):
            if p[0] == "a" and isparam(p[1], "self"):
                attr[p[2]] = v

        def strip(t):
            """A file by its name in the session's directory."""
            for x in sub(t):
                if x[0] == "c" and isinstance(x[1], str):
                    return x[1]
            return t

        def call(q, e, st, cl):
            if cl.short == "write" and cl.recv is not None and callname(cl.recv) == "open" and cl.args:
                st.ts[("w", cl.recv[3][0])] = cl.args[0]
            if cl.name == "open" and (len(cl.args) < 2 or "r" in str(cl.args[1][1])):
                st.ts["opened"] = cl.args[0]
            if cl.short == "import_graph_def" and cl.args:
                st.ts["graph"] = cl.args[0]
            if cl.short == "run" and any(k == "feed_dict" for k, _ in cl.kw):
                fd = dict(cl.kw)["feed_dict"]
                fe = dict(cl.kw).get("fetches")
                if fd[0] != "dict":
                    st.ts["ran"] = "?"
                    return q.need("round-files", st, cl.file, cl.line, None, "feeds not recognised")
                which = None
                for k, v in fd[1]:
                    nm = tail(k)
                    if nm is None:
                        continue
                    which = nm.split("_", 1)[0]
                    feeds.setdefault(nm, {}).setdefault(resolve(v), (cl.file, cl.line, st))
                    d = st.ts.get(("w", v))
                    if nm == "prepare_server_state_input_filepath_tensor_name":
                        q.need("round-input", st, cl.file, cl.line, None if unk(v) else isparam(d, "server_checkpoint"), "the round does not start from the given state")
                    if nm == "result_aggregate_result_input_filepath_tensor_name":
                        q.need("round-aggregate", st, cl.file, cl.line, None if unk(v) else isparam(d, "aggregation_result"), "the round's result is not computed from the aggregate")
                    if nm == "result_server_state_output_filepath_tensor_name":
                        st.ts["outfile"] = v
                vs = [resolve(v) for k, v in fd[1]]
                q.need("round-files-apart", st, cl.file, cl.line, len(set(vs)) == len(vs), "one file is used for two purposes")
                if which and fe is not None:
                    q.need("round-targets", st, cl.file, cl.line, None if unk(fe) else any(tail(x) == "tensorflow_spec_" + which for x in sub(fe)), "the %s step runs other targets: %s" % (which, show(fe)))
                    g = st.ts.get("graph")
                    src = {x for x in attr if attr[x] == g} if g else set()
                    st.ts["ran"] = which
                    if g is not None:
                        gs = st.ts.get(("from", g)) or gsrc.get(tail(g))
                        if gs is not None:
                            q.need("round-graph", st, cl.file, cl.line, gs == "server_graph_%s_bytes" % which, "the %s step runs another graph (%s)" % (which, gs))
            if cl.short == "Unpack" and cl.recv is not None and cl.args:
                st.ts[("from", cl.args[0])] = tail(cl.recv)

        gsrc = {}

        def resolve(t):
            if t[0] == "a" and isparam(t[1], "self") and t[2] in attr:
                return strip(attr[t[2]])
            return strip(t)

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return" and fn is init:
                p = fn.params()[1]
                ph = any(a[0] == "==" and b and ("c", 1) in a[1:] and any(y[0] == "pure" and y[1] == "len" and tail(y[2][0]) == "phase" for y in a[1:]) for a, b in st.facts.items())
                v2 = any(a[0] == "truth" and b and a[1][0] == "call" and a[1][1].endswith("HasField") and ("c", "server_phase_v2") in a[1][3] for a, b in st.facts.items())
                q.need("plan-checked", st, fn.rel(), line or fn.line, ph and v2, "a plan without exactly one phase of the supported kind is accepted")
                has = any(a[0] == "truth" and b and a[1][0] == "call" and a[1][1].endswith("HasField") and ("c", "server_graph_prepare_bytes") in a[1][3] for a, b in st.facts.items())
                never = any((a[0] == "is" and NC(a[2]) and b or a[0] == "truth" and not b) and callname(a[1]) == "GraphDef" for a, b in st.facts.items())
                if has and not never:
                    q.need("first-step-runs", st, fn.rel(), line or fn.line, st.ts.get("ran") == "prepare" or (None if st.ts.get("ran") == "?" else False), "a plan's first server step is not run")
                for k, x in attr.items():
                    f2 = st.ts.get(("from", x))
                    if f2:
                        gsrc[k] = f2
        go(ctx, [init], write=write, call=call, exit=exit)

        def exit2(q, e, st, kind, v, line, fn):
            if kind != "return":
                return
            if st.ts.get("ran") == "?":
                return q.need("result-from-server-step", st, fn.rel(), line, None, "feeds not recognised")
            if st.ts.get("ran") != "result":
                none = any((a[0] == "is" and NC(a[2]) and b or a[0] == "truth" and not b) and (gsrc.get(tail(a[1])) == "server_graph_result_bytes" or a[1][0] == "call" and a[1][1].endswith("HasField") and ("c", "server_graph_result_bytes") in a[1][3]) for a, b in st.facts.items())
                q.need("result-without-server-step", st, fn.rel(), line, None if unk(v) else isparam(v, "aggregation_result") and none, "the aggregate is returned although there is a final server step, or replaced although there is none")
            elif callname(v) == "read":
                q.need("result-from-server-step", st, fn.rel(), line, st.ts.get("opened") == st.ts.get("outfile"), "the result is not read from what the final server step wrote")
        go(ctx, [c.methods["finalize"]], call=call, exit=exit2)
        for nm in feeds:
            ctx.check("router-field-one-file", c.mod.path, c.methods["finalize"].line, len(feeds[nm]) == 1, "%s is fed different files" % nm)
        names = {}
        for nm, fs in feeds.items():
            for x in fs:
                names.setdefault(x, set()).add("intermediate" if "_intermediate_state_" in nm else nm)
        for x, ns in names.items():
            ctx.check("files-of-their-own", c.mod.path, c.methods["finalize"].line, len(ns) == 1, "the file %s is used for %s" % (show(x) if isinstance(x, tuple) else x, " and ".join(sorted(ns))))
        a, b = feeds.get("prepare_intermediate_state_output_filepath_tensor_name"), feeds.get("result_intermediate_state_input_filepath_tensor_name")
        if a and b:
            ctx.check("intermediate-state-carried-over", c.mod.path, c.methods["finalize"].line, set(a) == set(b), "the final step does not get the intermediate state the first step wrote")

        # the initial checkpoint of clients
        def exit3(q, e, st, kind, v, line, fn):
            if kind == "return" and callname(v) == "read":
                o = feeds.get("prepare_output_filepath_tensor_name")
                q.need("client-checkpoint", st, fn.rel(), line, None if not o or "opened" not in st.ts else resolve(st.ts["opened"]) in o, "clients are given another file than the one prepared for them")
        go(ctx, [c.methods["client_checkpoint"]], call=call, exit=exit3)

        # the plan of clients
        WANT = {"phase": "client_phase", "graph": "client_graph_bytes", "tflite_graph": "client_tflite_graph_bytes"}

        def call4(q, e, st, cl):
            if cl.short == "ClientOnlyPlan":
                kw = dict(cl.kw)
                for k, v in kw.items():
                    names = {x[2] for x in sub(v) if x[0] == "a"}
                    if k in WANT:
                        q.need("client-plan-parts", st, cl.file, cl.line, None if unk(v) else WANT[k] in names, "the %s given to clients is not the client's: %s" % (k, show(v)))
                    q.need("no-server-parts-for-clients", st, cl.file, cl.line, not any(n.startswith("server_") for n in names), "a server part of the plan is given to clients")
                for k in WANT:
                    q.need("client-plan-complete", st, cl.file, cl.line, k in kw or (None if not cl.kw else False), "clients are not given the plan's %s" % k)
            if cl.short in ("CopyFrom", "MergeFrom", "ParseFromString") and cl.args and cl.recv is not None and cl.recv[0] == "a":
                k = tail(cl.recv)
                q.need("client-plan-config", st, cl.file, cl.line, WANT.get(k, k) in [x[2] for x in sub(cl.args[0]) if x[0] == "a"] or (None if unk(cl.args[0]) else False), "another field is copied into the clients' plan")
                st.ts[k] = True
            elif cl.short in ("CopyFrom", "MergeFrom") and cl.args:
                q.need("no-server-parts-for-clients", st, cl.file, cl.line, False, "the whole plan is copied for clients")

        def exit4(q, e, st, kind, v, line, fn):
            if kind == "return":
                q.need("client-plan-served", st, fn.rel(), line, None if unk(v) else callname(v) == "SerializeToString" and any(x[0] in ("new", "call") and str(x[1]).endswith("ClientOnlyPlan") for x in sub(v)), "what clients are given is not the plan made for them")
                cfg = [b for a, b in st.facts.items() if a[0] == "truth" and a[1][0] == "call" and a[1][1].endswith("HasField") and ("c", "tensorflow_config_proto") in a[1][3]]
                q.need("client-plan-config", st, fn.rel(), line, True if False in cfg or st.ts.get("tensorflow_config_proto") else None if unk(v) or kwof(v, "tensorflow_config_proto") else False, "the plan's runtime configuration is not passed on to clients")
        def write4(q, e, st, p, v, line, fr):
            if p[0] == "a" and p[2] in WANT:
                q.need("client-plan-parts", st, fr.fn.rel(), line, None if unk(v) else WANT[p[2]] in [x[2] for x in sub(v) if x[0] == "a"], "the %s given to clients is not the client's: %s" % (p[2], show(v)))
        go(ctx, [c.methods["client_plan"]], call=call4, exit=exit4, write=write4)
    for r in ("client-plan-served", "client-checkpoint", "round-files-apart", "plan-checked"):
        ctx.need(r, 1)

    published(ctx)


def published(ctx):
    """What is served to clients, and under which address."""
    for f in method(ctx, "run_computation"):
        def follow(q, e, st, c, g):
            return g.name == "create_download_group"

        def call(q, e, st, c):
            if c.short == "add_task":
                if len(c.args) + len(c.kw) < 4:
                    return
                p, k, t = c.arg(3, "plan"), c.arg(4, "init_checkpoint"), c.arg(5, "federated_select_uri_template")

                def data(x):
                    """What is served under the address in x."""
                    for y in sub(x):
                        if y[0] == "call" and y[1].endswith(".add") and len(y[3]) >= 2:
                            return y[3][1]
                    return None
                for x, nm in ((p, "client_plan"), (k, "client_checkpoint")):
                    d = data(x)
                    q.need("served-to-clients", st, c.file, c.line, None if d is None or unk(d) else any(tail(y) == nm or y[0] == "call" and y[1].endswith("." + nm) for y in sub(d)), "under the address of the %s clients find %s" % (nm.replace("_", " "), show(d)))
                if t is not None:
                    own = fresh(t) or any(tail(y) == "prefix" for y in sub(t))
                    q.need("slices-address", st, c.file, c.line, None if t[0] == "hav" else own and any(y[0] == "c" and "{" in str(y[1]) for y in sub(t)), "clients are given another address for slices: %s" % show(t))
                q.need("task-own-session", st, c.file, c.line, None if unk(c.arg(2, "aggregation_session_id")) else callname(c.arg(2, "aggregation_session_id")) == "create_session", "the task's contributions go to another session")
            if c.short == "Session" and c.args:
                q.need("round-from-caller", st, c.file, c.line, isparam(c.arg(0, "plan"), "plan") and isparam(c.arg(1, "server_checkpoint"), "server_checkpoint"), "the round runs with another plan or state")
            if c.short == "add" and c.arg(1, "data") is not None and c.arg(2, "content_type") is not None:
                n, d, t = c.arg(0, "name"), c.arg(1, "data"), c.arg(2, "content_type")
                if t is not None and t[0] in ("g", "c"):
                    tv = const(ctx, f, t)
                    q.need("compressed-as-declared", st, c.file, c.line, None if tv is None or unk(d) else ("gzip" in tv) == hascall(d, "compress"), "what is served is %scompressed but is declared %s" % ("" if hascall(d, "compress") else "not ", tv))
                if n is not None and n[0] == "call" and n[1].endswith("format"):
                    kw = dict(n[4])
                    sid, key = kw.get("served_at_id"), kw.get("key_base10")
                    if sid is not None and key is not None:
                        en = [x for x in sub(key) if x[0] == "pure" and x[1] == "enumerate"]
                        st0 = all(len(x[2]) == 1 or x[2][1] == ("c", 0) for x in en)
                        q.need("slice-by-its-number", st, c.file, c.line, st0 and not hascall(key, "hex", "oct", "bin", "chr") and not any(x[0] == "op" and x[1] in ("Add", "Sub") for x in sub(key)), "a slice is served under another number: %s" % show(key))
                        q.need("slice-under-its-name", st, c.file, c.line, None if unk(sid) or unk(key) else sid != key and not any(x == sid for x in sub(key)) and not any(x == key or key[0] == "pure" and x == key[2][0] for x in sub(sid)), "slices of different selections get one name")
            if c.short == "create_session":
                pl = kwof(c.arg(0), "plan")
                q.need("aggregated-by-plan", st, c.file, c.line, None if pl is None or unk(pl) else isparam(pl, "plan"), "the session aggregates by another plan")

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                q.need("result-finalised", st, fn.rel(), line, None if unk(v) else hascall(v, "finalize"), "a result is returned without the round's final step")
        go(ctx, [f], call=call, follow=follow, exit=exit)
    ctx.need("served-to-clients", 1)


# ---------------------------------------------------------------------------
# F13: aggregation as the plan says
DTYPES = {"float32": "DT_FLOAT", "float": "DT_FLOAT", "double": "DT_DOUBLE", "float64": "DT_DOUBLE", "string": "DT_STRING", "int32": "DT_INT32", "int64": "DT_INT64", "uint64": "DT_UINT64"}
CODES = {"INVALID_ARGUMENT": "BAD_REQUEST", "FAILED_PRECONDITION": "BAD_REQUEST", "NOT_FOUND": "NOT_FOUND"}


def last(t):
    return t[1].rsplit(".", 1)[-1] if t is not None and t[0] == "g" else None


def makes(f, name):
    """Does a function construct a message of this kind itself?"""
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == name for x in ast.walk(f.node))


def every(t, name):
    """A translation of each element of the field <name>, in order: True, False or None."""
    if t is None or t[0] != "comp":
        return None
    src = t[3]
    if tail(src) != name:
        return False if any(x[0] == "op" and x[1] == "slice" or x[0] == "pure" and x[1] in ("reversed", "sorted", "set", "filter") for x in sub(src)) or tail(src) else None
    return not t[4]


def f13(ctx):
    db = ctx.py
    fs = [f for f in db.funcs.values() if f.mod.name.endswith(".aggregations")]

    # one tensor
    for f in [f for f in fs if makes(f, "TensorSpecProto")]:
        ps = [p for p in f.params() if p != "self"]

        def mine(t, *path):
            """p.<path> of the translated tensor."""
            for nm in reversed(path):
                if tail(t) != nm:
                    return False
                t = t[1]
            return t[0] == "p" and t[1] in ps

        def typed(q, st, v, file, line):
            """The kind of tensor written, for the kind found in the plan."""
            for x in sub(v):
                if x[0] == "dict":
                    for k, y in x[1]:
                        if last(k) in DTYPES and last(y):
                            q.need("tensor-type", st, file, line, DTYPES[last(k)] == last(y), "tensors of type %s are aggregated as %s" % (last(k), last(y)))
            if v[0] == "call" and v[1].endswith(".get") and len(v[3]) > 1 and last(v[3][1]):
                return False
            if last(v) is None or not last(v).startswith("DT_"):
                return None
            got = [last(x) for a, b in st.facts.items() if a[0] == "==" and b is True and any(tail(y) == "dtype" for y in sub(a)) for x in a[1:] if last(x)]
            for a, b in st.facts.items():
                if a[0] == "in" and b is True:
                    if a[2][0] not in ("tuple", "list", "set") or not all(last(x) for x in a[2][1:]):
                        return None
                    got += [last(x) for x in a[2][1:]]
            return bool(got) and all(DTYPES.get(x) == last(v) for x in got)

        def call(q, e, st, c):
            if c.short == "TensorSpecProto" and c.node.func.attr == "TensorSpecProto":
                kw = dict(c.kw)
                n = kw.get("name")
                if n is not None:
                    q.need("tensor-name", st, c.file, c.line, None if unk(n) else mine(n, "name"), "a tensor is aggregated under another name: %s" % show(n))
                    st.ts["n"] = True
                if "shape" in kw:
                    st.ts["s"] = True
                if "dtype" in kw:
                    st.ts["d"] = True
                    q.need("tensor-type", st, c.file, c.line, typed(q, st, kw["dtype"], c.file, c.line), "a tensor is aggregated as %s" % show(kw["dtype"]))
            if c.short in ("extend", "append", "MergeFrom", "CopyFrom") and c.recv is not None and c.recv[0] == "a" and c.recv[2] in ("dim_sizes", "shape") and c.args:
                a = c.args[0]
                st.ts["s"] = True
                if a[0] == "comp":
                    q.need("tensor-shape", st, c.file, c.line, False if tail(a[2]) != "size" and a[2][0] in ("c", "op", "pure") else every(a, "dim") and mine(a[3], "shape", "dim"), "a tensor is aggregated with another shape: %s" % show(a))

        def write(q, e, st, p, v, line, fr):
            if p[0] == "a" and p[2] == "dtype":
                st.ts["d"] = True
                q.need("tensor-type", st, fr.fn.rel(), line, typed(q, st, v, fr.fn.rel(), line), "a tensor is aggregated as %s" % show(v))
            if p[0] == "a" and p[2] == "name":
                st.ts["n"] = True
                q.need("tensor-name", st, fr.fn.rel(), line, None if unk(v) else mine(v, "name"), "a tensor is aggregated under another name: %s" % show(v))

        def iter_(q, e, st, n, el, fr):
            st.ts["s"] = True

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                for k, what in (("n", "name"), ("s", "shape"), ("d", "type")):
                    q.need("tensor-complete", st, fn.rel(), line, st.ts.get(k) is True, "a tensor is aggregated without its %s" % what)
        e = py.Eng(db, Q(ctx, call=call, write=write, exit=exit))
        old = e.loop

        def loop(n, st, fr, it, old=old):
            if it is not None and any(tail(x) == "dim" for x in sub(it)):
                st.ts["s"] = True
            return old(n, st, fr, it)
        e.loop = loop
        e.run(f)
        ctx.funcs |= e.analysed
    for r in ("tensor-name", "tensor-type", "tensor-complete"):
        ctx.need(r, 1)

    # one input of an aggregation
    nofollow = lambda q, e, st, c, g: False
    for f in [f for f in fs if makes(f, "IntrinsicArg")]:
        def call(q, e, st, c):
            if c.short == "IntrinsicArg":
                v = dict(c.kw).get("input_tensor")
                q.need("argument-is-its-own", st, c.file, c.line, None if v is None or unk(v) else any(tail(x) == "input_tensor" for x in sub(v)), "an aggregation gets another argument: %s" % show(v))

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                has = [b for a, b in st.facts.items() if a[0] == "truth" and a[1][0] == "call" and a[1][1].endswith("HasField") and ("c", "input_tensor") in a[1][3]]
                wh = any(a[0] == "==" and ("c", "input_tensor") in a[1:] and b for a, b in st.facts.items())
                q.need("other-arguments-refused", st, fn.rel(), line, True in has or wh or False, "an argument that does not come from clients is accepted")
        go(ctx, [f], call=call, exit=exit, follow=nofollow)
    ctx.need("other-arguments-refused", 1)

    # one aggregation
    for f in [f for f in fs if any(isinstance(x, ast.Call) and any(k.arg == "intrinsic_uri" for k in x.keywords) for x in ast.walk(f.node))]:
        def call(q, e, st, c):
            kw = dict(c.kw)
            if "intrinsic_uri" in kw:
                v = kw["intrinsic_uri"]
                q.need("aggregation-kind", st, c.file, c.line, None if unk(v) else tail(v) == "intrinsic_uri", "another kind of aggregation is set up: %s" % show(v))
                for k in ("intrinsic_args", "output_tensors"):
                    v = kw.get(k)
                    q.need("aggregation-parts", st, c.file, c.line, False if v is None else every(v, k), "an aggregation is set up with other %s: %s" % (k.replace("_", " "), show(v) if v else "none"))

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                no = any(b is False and (a[0] == "truth" or a[0] == "<" and a[1] == ("c", 0)) and any(tail(x) == "inner_aggregations" for x in sub(a)) or b is True and a[0] == "==" and ("c", 0) in a[1:] and any(tail(x) == "inner_aggregations" for x in sub(a)) for a, b in st.facts.items())
                q.need("nested-refused", st, fn.rel(), line, no, "an aggregation with inner aggregations is accepted and those are dropped")
        go(ctx, [f], call=call, exit=exit, follow=nofollow)
    ctx.need("aggregation-kind", 1)
    ctx.need("aggregation-parts", 1)

    # a session
    for f in method(ctx, "create_session"):
        pr = f.params()[1]

        def call(q, e, st, c):
            kw = dict(c.kw)
            if "intrinsic_configs" in kw:
                v = kw["intrinsic_configs"]
                q.need("every-aggregation", st, c.file, c.line, every(v, "aggregations"), "not every aggregation of the plan is set up, or in another order: %s" % show(v))
            if c.name == ".Start":
                st.ts["start"] = c.recv

        def write(q, e, st, p, v, line, fr):
            if p[0] == "i" and v[0] == "new" and p[1][0] == "a":
                st.ts["sid"] = p[2]
                a, r = kwof(v, "agg_protocol"), kwof(v, "requirements")
                q.need("session-started", st, fr.fn.rel(), line, None if a is None or unk(a) else st.ts.get("start") == a, "a session is opened whose aggregation was not started")
                q.need("session-as-required", st, fr.fn.rel(), line, None if r is None or unk(r) else isparam(r, pr), "a session is opened with other requirements than given")
                q.need("session-name-fresh", st, fr.fn.rel(), line, None if unk(p[2]) else fresh(p[2]), "the name of a session is not a fresh random name")

        def exit(q, e, st, kind, v, line, fn):
            if kind == "return":
                ph = any(a[0] == "==" and b and ("c", 1) in a[1:] and any(y[0] == "pure" and y[1] == "len" and tail(y[2][0]) == "phase" for y in a[1:]) for a, b in st.facts.items())
                v2 = any(a[0] == "truth" and b and a[1][0] == "call" and a[1][1].endswith("HasField") and ("c", "server_phase_v2") in a[1][3] for a, b in st.facts.items())
                q.need("session-plan-checked", st, fn.rel(), line, ph and v2, "a session is opened for a plan without exactly one phase of the supported kind")
                q.need("session-known-by-name", st, fn.rel(), line, st.ts.get("sid") == v or (None if unk(v) else False), "the name returned is not the one the session is kept under")
        go(ctx, [f], call=call, write=write, exit=exit, follow=nofollow)
    for r in ("every-aggregation", "session-plan-checked", "session-started"):
        ctx.need(r, 1)

    # what is reported about a session
    n = 0
    for f in [f for f in fs if makes_plain(f, "SessionStatus")]:
        def exit(q, e, st, kind, v, line, fn):
            if kind != "return" or v[0] != "new" or not v[1].endswith("SessionStatus"):
                return
            given = {k for k, x in v[2]}
            for c in db.classes.values():
                if c.node.name == "SessionStatus":
                    for x in c.node.body:
                        if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id.startswith("num_"):
                            q.need("count-reported", st, fn.rel(), line, x.target.id in given, "a session's %s is not reported" % x.target.id)
            for k, x in v[2]:
                if k.startswith("num_"):
                    q.need("count-is-its-own", st, fn.rel(), line, None if unk(x) else tail(x) == k, "a session's %s is reported as %s" % (k, show(x)))
                elif k == "status":
                    q.need("status-is-its-own", st, fn.rel(), line, None if unk(x) else tail(x) == "status", "a session's status is reported as %s" % show(x))
        go(ctx, [f], exit=exit, follow=nofollow)
    ctx.need("count-is-its-own", 1)

    # what clients are told about a failure
    for f in [f for f in fs if f.cls is not None and len(f.params()) == 2 and any(isinstance(x, ast.Attribute) and x.attr == "INTERNAL_SERVER_ERROR" for x in ast.walk(f.node)) and any(isinstance(x, ast.Attribute) and x.attr == "StatusCode" for x in ast.walk(f.node)) and not f.deco("proto_action")]:
        def exit(q, e, st, kind, v, line, fn):
            if kind != "return" or last(v) is None:
                return
            yes = {last(x) for a, b in st.facts.items() if a[0] == "==" and b is True for x in a[1:] if last(x)}
            for a, b in st.facts.items():
                if a[0] == "in" and b is True and a[2][0] in ("tuple", "list", "set"):
                    yes |= {last(x) for x in a[2][1:]}
            for y in yes:
                q.need("failure-status", st, fn.rel(), line, last(v) == CODES.get(y, "INTERNAL_SERVER_ERROR"), "a failure of kind %s is answered %s" % (y, last(v)))
            if not yes:
                q.need("failure-status", st, fn.rel(), line, last(v) == "INTERNAL_SERVER_ERROR", "a failure of another kind is answered %s" % last(v))
                no = {last(x) for a, b in st.facts.items() if a[0] == "==" and b is False for x in a[1:]} | {last(x) for a, b in st.facts.items() if a[0] == "in" and b is False and a[2][0] in ("tuple", "list", "set") for x in a[2][1:]}
                q.need("failure-status-told-apart", st, fn.rel(), line, not (set(CODES) - no), "failures of kind %s are answered as internal errors" % ", ".join(sorted(set(CODES) - no)))
        go(ctx, [f], exit=exit)


def makes_plain(f, name):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == name and x.keywords for x in ast.walk(f.node))
