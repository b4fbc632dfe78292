"""Rules over the client's HTTP layer: requests, responses, URIs, resource
fetching and long-running operations."""
import re

from fcx.kit import *
from rules.base import at, P_, const_of, of_type

UNITS = [r"^fcp/client/http/[a-z_]+\.cc$"]
SC = r"^fcp/client/http/"
NS = "fcp::client::http::"
STOPS = [r"::FindHeader$", r"::CompressWithGzip$", r"::UncompressWithGzip$"]


def fns(ctx, cls, short):
    fs = [f for f in methods(ctx, NS + cls) if f.short == short]
    if not fs:
        raise AnalysisError("anchor vanished: %s::%s" % (cls, short))
    return fs


def free(ctx, short):
    fs = [f for f in ctx.db.named(NS + short) if f.body is not None]
    if not fs:
        raise AnalysisError("anchor vanished: %s" % short)
    return fs


def PT(fn, i):
    """The i-th parameter of an entry function, as a term."""
    return mk("param", fn.params[i][1], fn.name)


def strv(ctx, t):
    """The text of a constant string, or None."""
    v = const_of(ctx, t)
    return v if isinstance(v, str) else None


def hdr(ctx, t, name):
    """A header entry with the given name: its value term."""
    if t.op in ("ctor", "list") and isinstance(t.args[1], tuple) and len(t.args[1]) == 2:
        k = strv(ctx, t.args[1][0])
        if k is not None and k.lower() == name.lower():
            return t.args[1][1]
    return None


def pushes(t):
    """Elements appended to a container value, oldest first, and its base."""
    out = []
    while t.op == "upd" and sn(t.args[0]) in ("push_back", "emplace_back", "reserve"):
        if sn(t.args[0]) != "reserve":
            a = t.args[2]
            out.append(a[0] if len(a) == 1 else mk("list", "pair", tuple(a)))
        t = t.args[1]
    return out[::-1], t


def found(st, ctx, pred, name, pol):
    """Known: looking up a header in pred(container) did (not) find it."""
    def p(a):
        return a.op == "has" and a.args[0].op == "call" and isname(a.args[0], "FindHeader") and pred(a.args[0].args[2][0]) and (strv(ctx, a.args[0].args[2][1]) or "").lower() == name.lower()
    return bool(fact(st, p, pol))


def isempty(st, t):
    for a, pol in st.facts.items():
        if a.op == "call" and isname(a, "empty") and a.args[1] is t:
            return pol
        if a.op == "eq":
            for x, y in (a.args, a.args[::-1]):
                if tm.is_const(x) and tm.cval(x) in (0, "") and (y is t or size_p(is_(t))(y)):
                    return pol
        if a.op == "lt":
            x, y = a.args
            if tm.is_const(x) and tm.cval(x) == 0 and size_p(is_(t))(y):
                return not pol
    return None


OUT = ("push_back", "append", "operator+=", "StrAppend", "StrAppendFormat", "insert", "Append")


# ---- D01: requests -----------------------------------------------------------
def d01(ctx):
    cr = fns(ctx, "InMemoryHttpRequest", "Create")
    rd = fns(ctx, "InMemoryHttpRequest", "ReadBody")

    for f in cr:
        uri, method, headers, body, comp = [PT(f, i) for i in range(5)]

        def call(r, st, c):
            if c.kind not in ("new", "ctor") and not isname(c, "make_unique"):
                return
            if not (c.name.endswith("InMemoryHttpRequest") or "InMemoryHttpRequest" in (c.rtype or "") and isname(c, "make_unique")):
                return
            if len(c.args) < 4:
                return
            def secure(a):
                if a.op == "call" and isname(a, "StartsWithIgnoreCase", "StartsWith", "starts_with") and a.args[2]:
                    p = strv(ctx, a.args[2][-1])
                    return p is not None and (p.lower() == "https://" or re.match(r"http://localhost[:/]", p.lower()))
                if a.op == "call" and isname(a, "EqualsIgnoreCase"):
                    return any((strv(ctx, x) or "").lower() == "https" for x in a.args[2])
                return False
            r.need(bool(fact(st, secure, True)) or (None if opaque(st, is_(uri)) and not fact(st, lambda a: a.op == "call" and isname(a, "StartsWithIgnoreCase", "StartsWith", "starts_with"), True) and
                   not fact(st, lambda a: a.op == "call" and isname(a, "StartsWithIgnoreCase"), False) else False),
                   "https-only", c, "a request is created for a URI that is neither https nor on the local host", st)
            hs = [a for a in c.args if root(a) is headers or a.op == "upd" and pushes(a)[1] is headers]
            bs = [a for a in c.args if a not in hs and (a is body or flows_from(a, call_p("CompressWithGzip")))]
            if len(hs) != 1 or len(bs) != 1:
                r.need(None, "body-announced", c, "unrecognised construction", st)
                return
            h, b = hs[0], bs[0]
            added, base = pushes(h)
            if base is not headers:
                r.need(None, "body-announced", c, "unrecognised header list", st)
                return
            enc = [hdr(ctx, x, "Content-Encoding") for x in added if hdr(ctx, x, "Content-Encoding") is not None]
            packed = flows_from(b, call_p("CompressWithGzip"))
            r.need(bool(enc) == packed and len(enc) <= 1 and all(strv(ctx, x) == "gzip" for x in enc), "encoding-announced", c,
                   "a compressed body is not announced as such" if packed else "a request announces an encoding its body does not have", st)
            want = st.known(comp)
            r.need(want == packed if want is not None else None, "encoding-as-asked", c, "the body is%s compressed against the caller's wish" % ("" if packed else " not"), st)
            lens = [hdr(ctx, x, "Content-Length") for x in added if hdr(ctx, x, "Content-Length") is not None]
            e = isempty(st, b)
            r.need(found(st, ctx, lambda t: pushes(t)[1] is headers, "Content-Length", False), "one-content-length", c, "a caller-supplied Content-Length is not refused", st)
            if e is None:
                r.need(False, "body-announced", c, "a request is created without regard to whether it has a body", st)
            elif e:
                r.need(not lens, "body-announced", c, "a request without a body announces one", st)
            else:
                r.need(len(lens) == 1 and has_sub(lens[0], size_p(is_(b))), "body-announced", c,
                       "the announced Content-Length is not the length of the body that is sent", st)
                okm = enum_is(st, is_(method), "kPost", "kPatch", "kPut", "kDelete")
                nok = enum_not(st, is_(method), "kGet") and enum_not(st, is_(method), "kHead")
                r.need(bool(okm or nok), "body-only-where-allowed", c, "a request that may not carry a body is given one", st)
        ctx.run(R(scope=SC, stops=STOPS, call=call), [f])
    ctx.need("https-only")
    ctx.need("body-announced")

    cur = of_type(ctx.db, NS + "InMemoryHttpRequest", r"^(unsigned )?(long|int)")
    txt = of_type(ctx.db, NS + "InMemoryHttpRequest", r"basic_string<[^<]*<[^<]*<[^<]*$|Cord")
    if not cur or not txt:
        raise AnalysisError("anchor vanished: request body state")
    isc = lambda t: t.op == "fld" and t.args[0] in cur
    ist = lambda t: t.op == "fld" and t.args[0] in txt
    for f in rd:
        buf, req = PT(f, 0), PT(f, 1)

        def call(r, st, c):
            if isname(c, "memcpy", "memmove") and len(c.args) == 3:
                n, src = c.args[2], c.args[1]
                k, m = tm._lin(src)
                good = k == 0 and len(m) == 2 and any(isc(x) and q == 1 for x, q in m.items()) and any(has_sub(x, ist) and q == 1 for x, q in m.items())
                r.need(good and c.args[0] is buf, "body-read-in-order", c, "body bytes are not taken from the current position", st)
                st.ts["n"] = n
                st.ts["pos"] = next((x for x in m if isc(x)), None)
                cap = n is req or at_least(st, req, n) or n.op == "call" and isname(n, "min") and req in n.args[2]
                r.need(bool(cap), "read-within-buffer", c, "more bytes can be written than the caller's buffer holds", st)
                left = list(n.args[2]) if n.op == "call" and isname(n, "min") else [n]
                k2 = lambda t: (lambda c_, m_: c_ == 0 and len(m_) == 2 and any(isc(x) and q == -1 for x, q in m_.items()) and any(size_p(ist)(x) and q == 1 for x, q in m_.items()))(*tm._lin(t))
                ok = any(k2(t) for t in left) or at_left(st, n, isc, ist)
                r.need(bool(ok), "read-within-body", c, "bytes past the end of the body can be read", st)

        def write(r, st, place, val, line, fr):
            if place[0] == "f" and place[2] in cur:
                n = st.ts.get("n")
                k, m = tm._lin(val)
                if n is None:
                    r.need(None, "position-advances", (fr.file, line), "", st)
                    return
                old = st.ts.get("pos") or mk("fld", place[2], THIS)
                r.need(tm._lin(val) == tm._lin(tm.add(n, old)), "position-advances", (fr.file, line), "the read position is not advanced by the bytes handed out", st)
                st.ts["adv"] = True

        def ret(r, st, v, line, fr):
            if err_return(st, v):
                return
            n = st.ts.get("n")
            if n is None:
                r.need(None, "read-reports-count", at(fr, line), "no recognised copy", st)
                return
            r.need(bool(st.ts.get("adv")), "position-advances", at(fr, line), "bytes are handed out without advancing the read position", st)
            r.need(v is n or flows_from(v, is_(n)), "read-reports-count", at(fr, line), "the count reported differs from the bytes handed out", st)
        ctx.run(R(scope=SC, call=call, write=write, ret=ret), [f])


def at_left(st, n, isc, ist):
    """Known: n <= size - position."""
    for m, c in bounds(st):
        rest = dict(m)
        if tm.is_const(n):
            return False
        k, mm = tm._lin(n)
        for x, q in mm.items():
            if rest.get(x) == -q:
                del rest[x]
        if len(rest) == 2 and c - k <= 0 and any(isc(x) and q == -1 for x, q in rest.items()) and any(size_p(ist)(x) and q == 1 for x, q in rest.items()):
            return True
    return False


# ---- D02: errors are never successes ------------------------------------------
def entries_of(e):
    """(name, value) pairs of an enumeration record."""
    for x in (e.get("values", []) if isinstance(e, dict) else e if isinstance(e, list) else []):
        if isinstance(x, (list, tuple)) and len(x) >= 2 and isinstance(x[0], str):
            yield x


def code_in(ctx, st, p, lo, hi):
    """Is the value satisfying p known to lie inside (True) or outside (False) lo..hi?"""
    vals = [a for a, pol in st.facts.items() if a.op == "eq" and pol and any(p(x) for x in a.args)]
    for a in vals:
        for x in a.args:
            v = None
            if tm.is_const(x):
                v = tm.cval(x)
            elif x.op == "enum":
                v = next((int(e[1]) for vs in ctx.db.enums.values() for e in entries_of(vs) if e[0] == sn(x.args[0])), None)
            if isinstance(v, int):
                return lo <= v <= hi
    if at_least(st, lo - 1, p) or at_least(st, p, hi + 1):
        return False
    if at_least(st, p, lo) and at_least(st, hi, p):
        return True
    return None


def d02(ctx):
    cls = "InMemoryHttpRequestCallback"
    conv = free(ctx, "ConvertHttpCodeToStatus")
    inner = [g for g in in_files(ctx, SC) if g.body is not None and "StatusCode" in str(g.ret) and any(n[7] == g.key for f in conv for n in walk(f.body) if n[0] == "call" and len(n) > 7)]
    for f in conv + inner:
        p = P_(f, 0)

        def ret(r, st, v, line, fr):
            if v.op == "enum" and "StatusCode" in v.args[0]:
                k = v.args[0].endswith("::kOk")
            else:
                k = status_of(st, v)
            if k is None or has_sub(v, lambda t: t.op == "hav"):
                r.need(None, "only-2xx-is-success", at(fr, line), "unrecognised result", st)
                return
            other = [-1, 0, 1, 20, 100, 101, 199] + list(range(300, 520)) + [599, 600, 2000]
            sure, maybe = admits(ctx, st, p, other if k else range(200, 300))
            good = False if sure else None if maybe else True
            if k:
                r.need(good, "only-2xx-is-success", at(fr, line), "an HTTP code outside 200..299 is turned into success", st)
            elif f in inner or not inner:
                r.need(good, "2xx-is-success", at(fr, line), "a successful HTTP code is turned into an error", st)
        ctx.run(R(scope=SC, ret=ret), [f])
    ctx.need("only-2xx-is-success")

    for f in free(ctx, "ConvertRpcStatusToAbslStatus"):
        def ret(r, st, v, line, fr):
            if v.op != "stcode" or v.args[0].op != "enum":
                r.need(True if v.op == "stcode" and flows_from(v.args[0], call_p("code")) else None, "rpc-code-kept", at(fr, line), "unrecognised conversion", st)
                return
            name = sn(v.args[0].args[0])
            eqs = [sn(a.args[0].args[0]) for a, pol in st.facts.items() if a.op == "eq" and pol and a.args[0].op == "enum"]
            isok = fact(st, lambda a: a.op == "ok" and P_(f, 0)(a.args[0]), True) or fact(st, lambda a: a.op == "eq" and a.args[0].op == "enum" and sn(a.args[0].args[0]) in ("kOk", "OK"), True)
            if name == "kOk":
                r.need(bool(isok), "rpc-error-stays-error", at(fr, line), "an error received from the server becomes success", st)
            elif isok:
                r.need(False, "rpc-code-kept", at(fr, line), "success received from the server becomes an error", st)
            elif eqs:
                r.need(name in eqs, "rpc-code-kept", at(fr, line), "a server error code is converted to a different code", st)
        ctx.run(R(scope=SC, ret=ret), [f])

    # the response callback
    stf = of_type(ctx.db, NS + cls, r"absl::Status$")
    lenf = of_type(ctx.db, NS + cls, r"optional<(unsigned )?long")
    buff = of_type(ctx.db, NS + cls, r"Cord")
    if not stf or not lenf or not buff:
        raise AnalysisError("anchor vanished: response state")
    fs = lambda s: lambda t: t.op == "fld" and t.args[0] in s
    for n in stf:
        init = ctx.db.fields[n][5] if len(ctx.db.fields[n]) > 5 else None
        bad = init is None or init == [] or (isinstance(init, list) and any(isinstance(x, list) and x and x[0] == "call" and sn(x[1]) in ("OkStatus",) for x in walk(init)))
        ctx.check("no-response-is-an-error", "fcp/client/http/in_memory_request_response.h", ctx.db.fields[n][3], not bad,
                  "a request that never got a response starts out as a success")
    started, body, done, resp = (fns(ctx, cls, n) for n in ("OnResponseStarted", "OnResponseBody", "OnResponseCompleted", "Response"))
    errs = fns(ctx, cls, "OnResponseError") + fns(ctx, cls, "OnResponseBodyError")
    HS = call_p("headers", "extra_headers")

    def wlen(r, st, place, val, line, fr):
        if place[0] == "f" and place[2] in lenf:
            st.ts["len"] = val
        if place[0] == "f" and place[2] in stf:
            k = status_of(st, val)
            if k is not False:
                st.ts["okst"] = True

    def sret(r, st, v, line, fr):
        w = at(fr, line)
        r.need(not st.ts.get("okst"), "early-success", w, "a response counts as successful before its body arrived", st)
        if status_of(st, v) is not True:
            return
        any_ = lambda t: True
        req = P_(fr.func, 0) if fr.func.params else any_
        rsp = lambda t: not flows_from(t, req)
        unk = opaque(st, call_p("headers")) and not fact(st, lambda a: a.op == "has" and call_p("FindHeader")(a.args[0]))
        ce = found(st, ctx, rsp, "Content-Encoding", False) or found(st, ctx, lambda t: not rsp(t), "Accept-Encoding", True)
        r.need(bool(ce) or (None if unk else False), "encoded-body-refused", w, "a response with an encoding nobody asked for is accepted", st)
        te = found(st, ctx, rsp, "Transfer-Encoding", False) or \
            fact(st, lambda a: a.op == "eq" and any((strv(ctx, x) or "").lower() == "identity" for x in a.args), True) or \
            fact(st, lambda a: a.op == "call" and isname(a, "EqualsIgnoreCase") and any((strv(ctx, x) or "").lower() == "identity" for x in a.args[2]), True)
        r.need(bool(te) or (None if unk else False), "transfer-encoding-refused", w, "a response body that is still transfer-encoded is accepted", st)
        if found(st, ctx, rsp, "Content-Length", False):
            r.need(True, "length-understood", w, "", st)
            return
        parsed = fact(st, lambda a: a.op == "call" and isname(a, "SimpleAtoi", "SimpleAtoi<long>", "safe_strto64_base") or a.op == "call" and "SimpleAtoi" in a.args[0], True)
        r.need(bool(parsed) or (None if unk else False), "length-understood", w, "a Content-Length that cannot be read is ignored", st)
        L = st.ts.get("len")
        r.need(L is not None or (None if unk else False), "length-recorded", w, "the announced length is not recorded", st)
        if L is not None and parsed:
            r.need(at_least(st, L, 0) or None if not tm.is_const(L) else None, "length-recorded", w, "", st)
            neg = at_least(st, L, 0)
            r.need(bool(neg), "negative-length-refused", w, "a negative Content-Length is accepted", st)
    ctx.run(R(scope=SC, stops=STOPS, write=wlen, ret=sret), started)
    ctx.need("encoded-body-refused")

    for f in body:
        data = PT(f, 2)

        def bcall(r, st, c):
            if isname(c, "Append", "append") and c.recv is not None and has_sub(c.recv, fs(buff)) and any(has_sub(a, is_(data)) for a in c.args):
                st.ts["app"] = st.ts.get("app", 0) + 1
                noexp = fact(st, lambda a: a.op == "has" and fs(lenf)(a.args[0]), False)
                cap = False
                for m, k in bounds(st):
                    ms = dict(m)
                    L = [x for x, q in ms.items() if fs(lenf)(x) and q == 1 or has_sub(x, fs(lenf)) and q == 1]
                    D = [x for x, q in ms.items() if size_p(is_(data))(x) and q == -1]
                    B = [x for x, q in ms.items() if size_p(fs(buff))(x) and q == -1]
                    if L and D and B and k <= 0:
                        cap = True
                r.need(bool(noexp or cap), "no-more-than-announced", c, "more body data than announced can be stored", st)

        def bret(r, st, v, line, fr):
            if status_of(st, v) is True:
                r.need(st.ts.get("app") == 1, "body-kept-whole", at(fr, line), "a piece of the response body is dropped or stored twice", st)
            r.need(not st.ts.get("okst"), "early-success", at(fr, line), "a response counts as successful before it completed", st)
        ctx.run(R(scope=SC, call=bcall, write=wlen, ret=bret), [f])

    def dwrite(r, st, place, val, line, fr):
        if place[0] == "f" and place[2] in stf:
            st.ts["set"] = True
            k = status_of(st, val)
            if k is False:
                return
            noexp = fact(st, lambda a: a.op == "has" and fs(lenf)(a.args[0]), False)
            full = equal(st, lambda t: has_sub(t, fs(lenf)), size_p(fs(buff)))
            r.need(bool(noexp or full), "truncated-body-is-an-error", (fr.file, line), "a response whose body is shorter than announced can count as successful", st)
            src = flows_from(val, call_p("ConvertHttpCodeToStatus"))
            r.need(bool(src), "completed-by-code", (fr.file, line), "a completed response counts as successful regardless of its HTTP code", st)

    def dret(r, st, v, line, fr):
        r.need(bool(st.ts.get("set")), "completion-decides", at(fr, line), "a completed response leaves its outcome undecided", st)
    ctx.run(R(scope=SC, stops=[r"::ConvertHttpCodeToStatus$"], write=dwrite, ret=dret), done)
    ctx.need("completed-by-code")

    for f in errs:
        e = P_(f, len(f.params) - 1)

        def ewrite(r, st, place, val, line, fr):
            if place[0] == "f" and place[2] in stf:
                st.ts["set"] = flows_from(val, e) or status_of(st, val) is False

        def eret(r, st, v, line, fr):
            r.need(bool(st.ts.get("set")), "transport-error-recorded", at(fr, line), "a transport error is not recorded as the outcome", st)
        ctx.run(R(scope=SC, write=ewrite, ret=eret), [f])

    def rret(r, st, v, line, fr):
        if status_of(st, v) is False or fs(stf)(v):
            return
        r.need(bool(fact(st, lambda a: a.op == "ok" and fs(stf)(a.args[0]), True)), "response-only-if-ok", at(fr, line), "a failed response is handed out as a success", st)
        b = [x for x in tm.closure(v) if fs(buff)(x)]
        r.need(bool(b), "response-carries-body", at(fr, line), "the response handed out lacks the body received", st)
    ctx.run(R(scope=SC, ret=rret), resp)
    ctx.need("response-only-if-ok")

    # responses of protocol requests
    for f in fns(ctx, "ProtocolRequestHelper", "PerformMultipleProtocolRequests"):
        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            chk = any(x.op in ("call", "out", "upd", "fn", "fref", "gfn", "hav", "ctor") and "CheckResponseContentEncoding" in str(x) for x in tm.closure(v)) or "CheckResponseContentEncoding" in str(v)
            r.need(chk or None, "protocol-response-decoded", at(fr, line), "", st)
        ctx.run(R(scope=SC, stops=[r"::PerformMultipleRequestsInMemory$"], ret=ret), [f])
    for f in free(ctx, "ParseOperationProtoFromHttpResponse"):
        def ret(r, st, v, line, fr):
            if status_of(st, v) is False or v is PT(fr.func, 0) and status_of(st, v) is not True:
                return
            okh = fact(st, lambda a: a.op == "ok" and P_(f, 0)(a.args[0]), True)
            r.need(bool(okh), "failed-request-stays-failed", at(fr, line), "an operation is read from a failed response", st)
            par = fact(st, lambda a: a.op == "call" and re.search(r"Parse\w*From", a.args[0]), True)
            r.need(bool(par), "unparsable-response-refused", at(fr, line), "a response that cannot be parsed is accepted", st)
        ctx.run(R(scope=SC, ret=ret), [f])


# ---- D03: URIs -----------------------------------------------------------------
UNRESERVED = set(b"-_.~")
ENC1, ENCN = "EncodeUriSinglePathSegment", "EncodeUriMultiplePathSegments"


def unwrap(t):
    """Looks through the argument wrappers of the string library."""
    while t.op == "ctor" and re.search(r"(Arg|AlphaNum|string_view|basic_string)$", re.sub(r"<.*>$", "", t.args[0])) and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def compose(t, out):
    """Flattens a string built from pieces: list of leaf terms."""
    t = unwrap(t)
    if t.op == "call" and isname(t, "StrCat", "operator+", "string", "basic_string", "Substitute"):
        for a in ([t.args[1]] if t.args[1] is not None else []) + list(t.args[2]):
            compose(a, out)
    elif t.op == "ctor" and "string" in t.args[0] and len(t.args[1]) >= 1:
        compose(t.args[1][0], out)
    elif t.op == "upd" and isname(t, "append", "operator+=", "StrAppend"):
        compose(t.args[1], out)
        for a in t.args[2]:
            compose(a, out)
    else:
        out.append(t)
    return out


def d03(ctx):
    def subst(r, st, c):
        if isname(c, "Substitute") and c.args:
            pat = strv(ctx, c.args[0])
            if pat is None or not pat.startswith("/"):
                return
            for i, a in enumerate(c.args[1:]):
                if tm.is_const(a):
                    continue
                m = re.search(r"([^/]*)/([^/]*)\$%d" % i, pat)
                whole = bool(m) and (re.fullmatch(r"v\d+|media", m.group(1)) is not None)
                leaf = unwrap(a)
                one, many = call_p(ENC1)(leaf), call_p(ENCN)(leaf)
                if one or many and whole:
                    r.need(True, "path-values-encoded", c, "", st)
                elif many:
                    r.need(False, "path-values-encoded", c, "a value filling one path segment may contain further path separators", st)
                elif leaf.op in ("param", "fld") or leaf.op == "call" and leaf.args[1] is not None:
                    r.need(False, "path-values-encoded", c, "a value is put into a request path without encoding it", st)
                else:
                    r.need(None, "path-values-encoded", c, "unrecognised path value %s" % str(leaf)[:60], st)
        if isname(c, "CreateProtocolRequest") and c.args and c.node and c.recv is not None:
            for leaf in compose(c.args[0], []):
                if tm.is_const(leaf) or call_p(ENC1, ENCN)(leaf):
                    r.need(True, "request-path-encoded", c, "", st)
                elif leaf.op == "fld" or leaf.op == "call" and leaf.args[1] is not None and not leaf.args[2] and not isname(leaf, "value", "status"):
                    r.need(False, "request-path-encoded", c, "a request path contains a value that was not encoded", st)
                else:
                    r.need(None, "request-path-encoded", c, "", st)
    fs = [f for f in in_files(ctx, SC) if f.body is not None and any(True for _ in calls_in(f, "Substitute"))]
    if not fs:
        raise AnalysisError("anchor vanished: request path templates")
    enc = [r"::%s$" % ENC1, r"::%s$" % ENCN]
    ctx.run(R(scope=SC, stops=enc, call=subst, max_depth=2), fs)
    gs = [f for f in in_files(ctx, SC) if f.body is not None and any(True for _ in calls_in(f, "CreateProtocolRequest")) and f.short != "CreateProtocolRequest"]
    ctx.run(R(scope=SC, stops=enc + [r"::Perform\w+$", r"::PollOperation\w*$", r"::Handle\w+$"], call=subst, max_depth=2), gs)
    ctx.need("path-values-encoded")

    # the encoder
    for name, extra in ((ENC1, b""), (ENCN, b"/")):
        allowed = UNRESERVED | set(extra)
        for f in free(ctx, name):
            inp = P_(f, 0)
            ischar = lambda t: t.op in ("elem", "idx", "each") and inp(t.args[0]) or t.op == "each" and has_sub(t, inp)

            def call(r, st, c):
                if isname(c, *OUT) and c.args:
                    a = c.args[-1]
                    if not isname(c, "StrAppendFormat") and ischar(a) or a.op == "ctor" and any(ischar(x) for x in a.args[1] if isinstance(x, T)):
                        alnum = fact(st, lambda k: k.op == "call" and isname(k, "ascii_isalnum", "ascii_isalpha", "ascii_isdigit"), True)
                        ch = [tm.cval(x) for k, pol in st.facts.items() if k.op == "eq" and pol and any(ischar(y) for y in k.args) for x in k.args if tm.is_const(x)]
                        inset = fact(st, lambda k: k.op == "call" and isname(k, "StrContains", "contains", "find"), None)
                        r.need(bool(alnum) or any(x in allowed for x in ch if isinstance(x, int)) or (None if inset else False), "only-safe-characters-kept", c,
                               "a character with a meaning in URIs is passed through unencoded", st)
                    elif flows_from(a, ischar) or any(flows_from(x, ischar) for x in c.args):
                        fm = [strv(ctx, x) for y in c.args for x in tm.subterms(y) if tm.is_const(x) and isinstance(tm.cval(x), str)]
                        pct = [x for x in fm if x and "%" in x]
                        two = any(re.fullmatch(r"%%%0?2h*[Xx]", x) and "02" in x for x in pct)
                        hexp = has_sub(a, call_p("Hex")) or any(has_sub(x, lambda t: t.op in ("call", "ctor") and "Hex" in str(t.args[0])) for x in c.args)
                        if hexp:
                            two = any(has_sub(x, enum_p("kZeroPad2")) for x in c.args) and any(x == "%" for x in pct)
                        r.need(two if pct or hexp else None, "encoded-as-two-digits", c, "a character is not encoded as a percent sign and two hex digits", st)
                st.ts["out"] = st.ts.get("out", 0) + (1 if isname(c, *OUT) else 0)

            def it(r, st, node, fr):
                n = st.ts.get("out", 0)
                r.need(n >= 1, "no-character-dropped", (fr.file, node[1]), "a character disappears from the encoded value", st)
                st.ts["out"] = 0

            def lp(r, st, node, fr):
                st.ts["out"] = 0
            ctx.run(R(scope=SC, call=call, iter=it, loop=lp, max_depth=4), [f])
    ctx.need("only-safe-characters-kept")
    ctx.need("encoded-as-two-digits")

    for f in free(ctx, "JoinBaseUriWithSuffix"):
        base, suf = PT(f, 0), PT(f, 1)

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            w = at(fr, line)
            e = isempty(st, suf)
            slash = fact(st, lambda a: a.op == "eq" and any(tm.is_const(x) and tm.cval(x) in (47, "/") for x in a.args) and any(has_sub(x, is_(suf)) for x in a.args), True) or \
                fact(st, lambda a: a.op == "call" and isname(a, "StartsWith", "starts_with", "ConsumePrefix") and suf in a.args[2][:1] + ((a.args[1],) if a.args[1] is not None else ()), True)
            r.need(bool(e or slash), "suffix-starts-a-path", w, "a suffix that does not start a path can extend the host name", st)
            if v.op == "call" and isname(v, "StrCat"):
                ps = list(v.args[2])
                ib = [i for i, x in enumerate(ps) if has_sub(x, is_(base))]
                js = [i for i, x in enumerate(ps) if has_sub(x, is_(suf))]
                good = len(ib) == 1 and len(js) == 1 and ib[0] < js[0]
                if good and call_p("StripPrefix")(ps[js[0]]):
                    mid = ps[ib[0] + 1:js[0]]
                    good = any(tm.is_const(x) and tm.cval(x) in ("/", 47) for x in mid) or (None if any(not tm.is_const(x) for x in mid) else False)
                r.need(good, "base-then-suffix", w, "the request address is not the base followed by the path", st)
        ctx.run(R(scope=SC, ret=ret), [f])
    ctx.need("suffix-starts-a-path")


# ---- D04: responses belong to their requests ---------------------------------------
def d04(ctx):
    for f in free(ctx, "PerformMultipleRequestsInMemory"):
        rec, snt = f.params[3][0], f.params[4][0]
        pr, ps = P_(f, 3), P_(f, 4)
        keeps = [w for w in walk(f.body) if w[0] in ("rfor", "for", "while") and
                 {"EnqueueRequest", "push_back"} <= {sn(n[1]) for n in walk(w) if n[0] == "call" and len(n) > 4}]

        def call(r, st, c):
            if isname(c, "EnqueueRequest"):
                st.ts["enq"] = st.ts.get("enq", 0) + 1
                r.need(st.ts["enq"] == 1, "enqueued-once", c, "a request is issued more than once", st)
            if isname(c, "TotalSentReceivedBytes"):
                st.ts["stat"] = True
            if isname(c, "Response") and c.recv is not None:
                r.need(bool(st.ts.get("ran")), "responses-after-run", c, "responses are read before the requests ran", st)
            if isname(c, "push_back", "emplace_back") and re.search(r"pair<.*HttpRequestCallback", c.recvtype or ""):
                st.ts["kept"] = st.ts.get("kept", 0) + 1

        def after(r, st, c, t):
            if isname(c, "Run") and len(c.args) == 2:
                st.ts["ran"] = t

        def loop(r, st, node, fr):
            names = {sn(n[1]) for n in walk(node) if n[0] == "call" and len(n) > 4}
            if "EnqueueRequest" in names:
                st.ts["enq"] = st.ts["kept"] = 0
                st.ts["inq"] = True
            if "TotalSentReceivedBytes" in names:
                st.ts.pop("received_bytes", None)
                st.ts.pop("sent_bytes", None)

        def reach(r, st, node, fr):
            if any(n[0] == "call" and len(n) > 4 and sn(n[1]) == "TotalSentReceivedBytes" for n in walk(node)):
                st.ts["acct"] = True

        def it(r, st, node, fr):
            names = {sn(n[1]) for n in walk(node) if n[0] == "call" and len(n) > 4}
            if "EnqueueRequest" in names:
                r.need(st.ts.get("enq") == 1, "every-request-issued", (fr.file, node[1]), "a request is not issued", st)
                if keeps:
                    r.need(bool(st.ts.get("kept")), "every-request-performed", (fr.file, node[1]), "a request is issued and left out of those performed", st)
                st.ts["enq"] = st.ts["kept"] = 0
            if "TotalSentReceivedBytes" in names:
                for p, nm, want in ((rec, pr, "received_bytes"), (snt, ps, "sent_bytes")):
                    here = [n for n in walk(node) if n[0] == "asg" and any(x[0] == "var" and p in x for x in walk(n[2]))]
                    if here and not st.ts.get(want):
                        r.need(fact(st, lambda a: a.op == "has" and (nm(a.args[0]) or a.args[0].op == "hav" and a.args[0].args[1][1] == p), False) is not None, "every-byte-counted", (fr.file, node[1]), "traffic of a request is left out", st)
                    st.ts.pop(want, None)

        def write(r, st, place, val, line, fr):
            for p, want in ((rec, "received_bytes"), (snt, "sent_bytes")):
                if place[0] == "v" and fr.func is f and place[2] == p:
                    c0, m = tm._lin(val)
                    got = [sn(x.args[0]) for x, q in m.items() if x.op == "fld" and q == 1]
                    if want in got:
                        r.need(c0 == 0 and len(m) == 2, "bytes-counted", (fr.file, line), "", st)
                        st.ts[want] = True
                    elif any(g in ("received_bytes", "sent_bytes") for g in got):
                        r.need(False, "bytes-counted", (fr.file, line), "sent and received bytes are mixed up", st)
                    else:
                        r.need(None, "bytes-counted", (fr.file, line), "", st)

        def ret(r, st, v, line, fr):
            if st.ts.get("ran") is None:
                if status_of(st, v) is not False:
                    r.need(None, "failure-reported", at(fr, line), "", st)
                return
            r.need(bool(st.ts.get("acct") or st.ts.get("stat")), "bytes-counted-on-every-exit", at(fr, line), "traffic is not counted on this exit", st)
            if status_of(st, v) is not False:
                ran = st.ts["ran"]
                r.need(st.known(mk("ok", ran)) is True, "failure-reported", at(fr, line), "a failed or interrupted run is reported as successful", st)

        seen = set()

        def lam(r, st, fr, node):
            for n in walk(node):
                if n[0] == "call" and len(n) > 4 and sn(n[1]) in ("Cancel", "PerformRequests"):
                    seen.add(sn(n[1]))
                if n[0] == "rfor" and any(x[0] == "call" and len(x) > 4 and sn(x[1]) == "Cancel" for x in walk(n)):
                    r.need(not cut_short(n), "abort-cancels-requests", (fr.file, n[1]), "interrupting the run leaves some requests going", st)
        ctx.run(R(scope=SC, stops=[r"::Response$"], call=call, after=after, loop=loop, reach=reach, iter=it, write=write, ret=ret, lam=lam), [f])
        ctx.check("abort-cancels-requests", f.rel(), f.line, "Cancel" in seen, "interrupting the run does not cancel the requests")
    ctx.need("every-request-issued")
    ctx.need("bytes-counted-on-every-exit")

    def vec(t):
        """The variable a vector is kept in."""
        t = root(t)
        while t.op in ("upd", "out") and isinstance(t.args[0], T):
            t = root(t.args[0])
        return t.args[1] if t.op == "hav" else tuple(t.args[1:3]) if t.op == "obj" else None

    def of_vec(t, v):
        return v is not None and has_sub(t, lambda x: x.op == "hav" and x.args[1] == v or x.op == "obj" and tuple(x.args[1:3]) == v)

    for f in free(ctx, "FetchResourcesInMemory"):
        res = P_(f, 2)
        acc = {}

        def call(r, st, c):
            if isname(c, "push_back", "emplace_back") and c.recv is not None:
                ty = c.recvtype or ""
                if "Accessor" in ty or re.search(r"vector<\(anon|local", ty):
                    st.ts["acc"] = st.ts.get("acc", 0) + 1
                    if st.ts.get("req") and st.ts.get("reqv"):
                        caps = [v for a in c.args for t in tm.closure(a) if t.op == "lambda" for _, v in t.args[2] if isinstance(v, T)]
                        mine, other = [any(of_vec(v, w) for v in caps) for w in (st.ts["reqv"], vec(c.recv))]
                        r.need(mine or (False if other else None), "own-response", c, "a resource is given the response of another request", st)
                if re.search(r"unique_ptr<[^>]*HttpRequest", ty):
                    st.ts["req"] = st.ts.get("req", 0) + 1
                    st.ts["reqv"] = vec(c.recv)
                if re.search(r"StatusOr<[^>]*InMemoryHttpResponse", ty):
                    st.ts["res"] = st.ts.get("res", 0) + 1
                    for x in c.args:
                        gz = fact(st, lambda a: a.op == "call" and isname(a, "EndsWithIgnoreCase", "EndsWith", "ends_with"), True)
                        if status_of(st, x) is not False and not joined(x):
                            looked = fact(st, lambda a: has_sub(a, lambda t: t.op == "fld" and isname(t, "content_type")))
                            r.need(looked is not None, "compressed-resource-decoded", c, "a resource is handed out without regard to its content type", st)
                        if gz and status_of(st, x) is not False:
                            un = [a for a in st.facts if a.op == "ok" and has_sub(a.args[0], call_p("UncompressWithGzip"))]
                            good = any(st.facts[a] for a in un)
                            r.need(good, "compressed-resource-decoded", c, "a compressed resource is handed out without having been decoded", st)
            if isname(c, "Put") and "ResourceCache" in c.name:
                body = c.args[1]
                r.need(not has_sub(body, call_p("UncompressWithGzip")), "cached-as-received", c, "the cached copy is not in the form its metadata describes", st)
                okr = fact(st, lambda a: a.op == "ok" and flows_from(body, is_(a.args[0])), True)
                r.need(bool(okr) or None, "only-good-responses-cached", c, "", st)
                md = [x for x in tm.closure(c.args[2]) if x.op == "enum" and "COMPRESSION_FORMAT" in x.args[0]]
                gz = [v for a, v in st.facts.items() if a.op == "call" and isname(a, "EndsWithIgnoreCase", "EndsWith", "ends_with")]
                if len(md) == 1 and len(gz) == 1:
                    r.need(md[0].args[0].endswith("GZIP") == gz[0], "cached-format-recorded", c, "the cache entry records the wrong compression format", st)
                elif len(md) == 1 and not gz and fact(st, lambda a: has_sub(a, lambda t: t.op == "fld" and isname(t, "content_type"))) is None:
                    r.need(False, "cached-format-recorded", c, "the cache entry records a format nothing was looked up for", st)
                else:
                    r.need(None, "cached-format-recorded", c, "", st)

        def loop(r, st, node, fr):
            st.ts["acc"] = st.ts["req"] = st.ts["res"] = 0

        def it(r, st, node, fr):
            names = {sn(n[1]) for n in walk(node) if n[0] == "call" and len(n) > 4}
            w = (fr.file, node[1])
            if "Create" in names or "TryGetResourceFromCache" in names or "Get" in names:
                r.need(st.ts.get("acc") == 1 if st.ts.get("acc") else None, "one-result-per-resource", w, "a resource gets no result or more than one", st)
                r.need(st.ts.get("req", 0) <= 1, "fetched-at-most-once", w, "a resource is requested more than once", st)
            elif st.ts.get("res") is not None and ("UncompressWithGzip" in names or st.ts.get("res")):
                r.need(st.ts.get("res") == 1, "one-result-per-resource", w, "a resource gets no result or more than one", st)
            st.ts["acc"] = st.ts["req"] = st.ts["res"] = 0

        def lamret(r, st, v, fr, node):
            if v.op == "list" and "InMemoryHttpResponse" in str(v.args[0]):
                bodies = v.args[1][-1] if isinstance(v.args[1], tuple) and v.args[1] else None
                if bodies is not None and has_sub(bodies, lambda t: t.op == "call" and isname(t, "Get", "UncompressWithGzip")):
                    pass

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            run = [a for a, pol in st.facts.items() if a.op == "ok" and pol and call_p("PerformMultipleRequestsInMemory")(a.args[0])]
            r.need(bool(run), "fetch-failure-reported", at(fr, line), "resources are handed out although fetching them failed", st)
        ctx.run(R(scope=SC, stops=STOPS + [r"::PerformMultipleRequestsInMemory$"], call=call, loop=loop, iter=it, ret=ret, max_depth=3), [f])
    ctx.need("fetch-failure-reported")
    ctx.need("cached-as-received")

    # reading from the cache
    for f in [g for g in in_files(ctx, SC) if g.body is not None and any(n for n in calls_in(g, "Get") if "ResourceCache" in n[1]) and "Cord" in str(g.ret)]:
        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            got = fact(st, lambda a: a.op == "ok" and call_p("Get")(a.args[0]), True)
            r.need(bool(got), "cache-hit-required", at(fr, line), "a missing cache entry is treated as a hit", st)
            un = fact(st, lambda a: a.op == "call" and isname(a, "UnpackTo"), True)
            r.need(bool(un), "cache-metadata-readable", at(fr, line), "a cache entry with unreadable metadata is used", st)
            gz = fact(st, lambda a: a.op == "eq" and a.args[0].op == "enum" and a.args[0].args[0].endswith("FORMAT_GZIP"))
            if gz:
                r.need(flows_from(v, call_p("UncompressWithGzip")) == gz[1], "cached-resource-decoded", at(fr, line), "a cached resource is decoded against its recorded format", st)
            else:
                r.need(False, "cached-resource-decoded", at(fr, line), "a cached resource is handed out without regard to its recorded format", st)
        ctx.run(R(scope=SC, stops=STOPS, ret=ret), [f])
