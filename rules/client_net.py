"""Rules for the curl transport, federated select slices and the secure aggregation runner."""

import re

from fcx.kit import *
from rules.base import at, P_, const_of, of_type

CURL = r"^fcp/client/http/curl/"
CU_UNITS = [r"^fcp/client/http/curl/curl_(http_request_handle|http_client)\.cc$"]
CS_UNITS = [r"^fcp/client/http/curl/curl_(http_request_handle|header_parser)\.cc$"]
ENDS = ("OnResponseError", "OnResponseBodyError", "OnResponseCompleted")
STEPS = ("OnResponseStarted", "OnResponseBody")
DONE = ("OnResponseCompleted",)


def fld_name(t):
    return t.args[0] if t.op == "fld" else None


def mentions_field(st, name):
    """What is known about the value a field had on entry."""
    return fact(st, lambda a: has_sub(a, lambda t: t.op == "fld" and t.args[0] == name)) is not None


# ---- D17: curl requests end once, and in success only when they succeeded ------------------
def d17(ctx):
    fs = [f for f in ctx.db.in_files(CURL) if f.body is not None]
    users = [f for f in fs if list(calls_in(f, *(ENDS + STEPS)))]
    if not users:
        raise AnalysisError("anchor vanished: nothing calls back")
    flags = set()

    def own(place):
        return place[0] == "f" and isinstance(place[2], str) and "::curl::" in place[2]

    # the fields that remember that a request has ended
    for f in users:
        def call0(r, st, c):
            if isname(c, *ENDS) and c.recv is not None and c.recv.op == "fld":
                st.ts["end"] = True

        def write0(r, st, place, val, line, fr):
            if own(place) and st.ts.get("end") and tm.is_const(val) and isinstance(tm.cval(val), (bool, int)):
                flags.add(place[2])
            elif own(place) and st.ts.get("end") and val.op == "enum":
                flags.add(place[2])
        ctx.run(R(scope=CURL, call=call0, write=write0), [f])
    if not flags:
        raise AnalysisError("anchor vanished: nothing remembers that a request has ended")

    part = lambda t: t.op == "lin" or t.op == "call" and isname(t, "substr", "min") or t.op == "arith" and t.args[0] in ("/", "%", ">>")
    for f in users:
        whole = [p[1] for p in f.params if re.search(r"\b(size_t|unsigned long)\b", p[2])]

        def call(r, st, c):
            if isname(c, *(ENDS + STEPS)):
                if st.ts.get("refused"):
                    r.need(False, "nothing-after-refusal", c, "%s after the receiver refused the response" % sn(c.name), st)
                else:
                    r.need(True, "nothing-after-refusal", c, "", st)
            if isname(c, *ENDS):
                if c.recv is not None and c.recv.op == "fld":
                    for g in sorted(flags):
                        r.need(mentions_field(st, g), "ends-once", c, "%s without regard to %s: the request may have ended before" % (sn(c.name), sn(g)), st)
                    r.need(not st.ts.get("end"), "ends-once", c, "a second outcome for the same request", st)
                st.ts["end"] = sn(c.name)
            if isname(c, "OnResponseCompleted"):
                ok = fact(st, lambda a: a.op == "eq" and any(enum_p("CURLE_OK")(x) or const_of(ctx, x) == 0 for x in a.args) and
                          not any(x.op == "call" and sn(x.args[0]).startswith("curl_") for x in a.args), True)
                r.need(ok is not None, "completed-when-transferred", c, "a transfer that failed is reported as complete", st)
            if isname(c, "OnResponseBody"):
                v = c.args[2]
                r.need(has_sub(v, P_(f, 0)) and all(has_sub(v, lambda t, w=w: t.op == "param" and t.args[0] == w) for w in whole) and not has_sub(v, part) if not joined(v) else None,
                       "every-byte-delivered", c, "not the whole piece received is handed over", st)
            if isname(c, "AddEasyHandle"):
                st.ts["added"] = True
                for g in sorted(flags):
                    r.need(mentions_field(st, g), "performed-once", c, "a request is started without regard to %s" % sn(g), st)
                r.need(any(mentions_field(st, g) for g in st.ts.get("w", ())), "performed-once", c, "nothing keeps a request from being started twice", st)

        def branch(r, st, atom, pol, line, fr):
            if atom.op == "ok" and atom.args[0].op == "call" and isname(atom.args[0], *STEPS) and not pol:
                st.ts["refused"] = True
            if atom.op == "ok" and atom.args[0].op == "call" and isname(atom.args[0], *STEPS) and pol:
                st.ts["accepted"] = True

        def write(r, st, place, val, line, fr):
            if own(place):
                st.ts["w"] = tuple(sorted(set(st.ts.get("w", ())) | {place[2]}))

        def ret(r, st, v, line, fr):
            w = st.ts.get("w", ())
            pos = at(fr, line)
            if f.kind == "ctor":
                return
            if st.ts.get("refused"):
                r.need(any(g in w for g in flags), "refusal-ends-it", pos, "a refused response is not remembered as ended", st)
                c = const_of(ctx, v)
                r.need(c is not None or None if joined(v) else c is not None or not all(has_sub(v, lambda t, p=p: t.op == "param" and t.args[0] == p) for p in whole),
                       "refusal-stops-transfer", pos, "the transfer goes on although the response was refused", st)
            elif st.ts.get("accepted"):
                r.need(all(has_sub(v, lambda t, p=p: t.op == "param" and t.args[0] == p) for p in whole) and not has_sub(v, part) if not joined(v) else None,
                       "accepted-goes-on", pos, "an accepted piece is not acknowledged in full", st)
            end = st.ts.get("end")
            if end and f.ret == "void":
                r.need(any(g in w for g in flags), "end-remembered", pos, "after %s nothing remembers that the request has ended" % end, st)
            elif end and "Status" in f.ret:
                r.need(status_of(st, v) is False or (None if joined(v) else False), "end-remembered", pos, "a request reported as failed is started all the same", st)
            elif "Status" in f.ret and st.ts.get("added") and status_of(st, v) is not False:
                bad = fact(st, lambda a: a.op == "eq" and any(x.op == "call" and isname(x, "AddEasyHandle") for x in a.args), True)
                r.need(bad is not None, "failure-to-start-noticed", pos, "a request curl did not accept is taken for started", st)
        ctx.run(R(scope=CURL, call=call, branch=branch, write=write, ret=ret, stops=[r"::(CurlHeaderParser|CurlHttpResponse)::"]), [f])
    for f in [f for f in fs if list(calls_in(f, "ReadBody"))]:
        def call1(r, st, c, f=f):
            if isname(c, "ReadBody"):
                whole = [p[1] for p in f.params if re.search(r"\b(size_t|unsigned long)\b", p[2])]
                r.need(not has_sub(c.args[1], lambda t: t.op == "lin") and P_(f, 0)(c.args[0]) and all(has_sub(c.args[1], lambda t, w=w: t.op == "param" and t.args[0] == w) for w in whole), "every-byte-sent", c,
                       "the body is not read into the whole buffer", st)
                st.ts["rd"] = True

        def ret1(r, st, v, line, fr):
            rd = next(iter(t for t in st.facts if t.op == "ok" and t.args[0].op == "call" and isname(t.args[0], "ReadBody")), None)
            if rd is not None and st.facts[rd] is True:
                r.need(has_sub(v, call_p("ReadBody")) if not joined(v) else None, "every-byte-sent", at(fr, line), "the number of bytes handed to curl is not the number read", st)
            elif rd is not None:
                c = const_of(ctx, v)
                eof = fact(st, lambda a: has_sub(a, enum_p("kOutOfRange")) or (a.op == "call" and isname(a, "IsOutOfRange")), True) is not None
                r.need(None if c is None else (c == 0) == eof, "read-failure-aborts", at(fr, line), "a body that could not be read is taken for its end" if not eof else "the end of the body is not passed on", st)
        ctx.run(R(scope=CURL, call=call1, ret=ret1), [f])
    # cancellation reaches the transfer
    for f in fs:
        if f.short in {sn(n) for n in progress_fns(ctx, fs)}:
            def retp(r, st, v, line, fr):
                c = const_of(ctx, v)
                hit = [a for a, p in st.facts.items() if has_sub(a, lambda t: t.op == "fld" and t.args[0] in flags)]
                if not hit and v.op == "fld" or c is None:
                    r.need(has_sub(v, lambda t: t.op == "fld" and t.args[0] in flags) or None, "cancel-stops-transfer", at(fr, line), "", st)
                else:
                    yes = any(st.facts[a] is True for a in hit)
                    r.need(bool(hit) and (c != 0) == yes, "cancel-stops-transfer", at(fr, line), "a cancelled transfer goes on" if yes or not hit else "a transfer is stopped that nobody cancelled", st)
            ctx.run(R(scope=CURL, ret=retp), [f])
    # the transport loop
    closers = {f.name for f in users if list(calls_in(f, "OnResponseCompleted"))}
    loops = [f for f in fs if list(calls_in(f, "Perform")) and any(n[0] in ("while", "for", "do") for n in walk(f.body) if isinstance(n, (list, tuple)) and n)]
    reads = [f for f in fs if list(calls_in(f, "InfoRead"))]
    for f in loops:
        def call2(r, st, c):
            if isname(c, "Perform"):
                st.ts["perf"] = True
                st.ts["drained"] = False
            if isname(c, "RemoveFromMulti", "RemoveEasyHandle"):
                st.ts["gone"] = True
            if c.name in closers:
                st.ts["closed"] = True
                r.need(not st.ts.get("gone"), "outcome-as-curl-says", c, "the outcome is read after the message was given back to curl", st)
                if c.args:
                    r.need(None if joined(c.args[0]) and c.args[0].op != "fld" else c.args[0].op == "fld" and sn(c.args[0].args[0]) == "result", "outcome-as-curl-says", c,
                           "the outcome of the transfer is not the one curl reports", st)

        def branch2(r, st, atom, pol, line, fr):
            if atom.op == "eq" and any(enum_p("CURLMSG_DONE")(x) for x in atom.args):
                st.ts["msg"] = pol
                st.ts["closed"] = False
            if atom.op in ("has", "eq") and has_sub(atom, call_p("InfoRead", "curl_multi_info_read")) and (atom.op == "has" or any(x.op == "null" for x in atom.args)):
                st.ts["drained"] = pol != (atom.op == "has")
                st.ts.pop("gone", None)

        def it2(r, st, node, fr):
            if "msg" in st.ts:
                r.need(not st.ts["msg"] or bool(st.ts.get("closed")), "every-transfer-finished", at(fr, node[1]), "a finished transfer is not passed on", st)
            st.ts.pop("msg", None)
            st.ts.pop("closed", None)

        def ret2(r, st, v, line, fr):
            bad = fact(st, lambda a: a.op == "eq" and any(x.op == "call" and isname(x, "Perform") for x in a.args), False)
            if bad is not None:
                r.need(status_of(st, v) is False or (None if joined(v) else False), "failed-transport-reported", at(fr, line), "curl failed but the requests are reported as performed", st)
            elif status_of(st, v) is not False and v.op != "call":
                run = fact(st, lambda a: a.op == "eq" and const_of(ctx, a.args[0]) == 0, True) or fact(st, lambda a: a.op == "eq" and const_of(ctx, a.args[1]) == 0, True) or \
                    fact(st, lambda a: a.op == "lt" and const_of(ctx, a.args[0]) == 0, False)
                r.need(run is not None, "all-transfers-awaited", at(fr, line), "the call returns while transfers are running", st)
                if reads and st.ts.get("perf"):
                    r.need(bool(st.ts.get("drained")), "every-transfer-finished", at(fr, line), "the call returns before every finished transfer was passed on", st)
        ctx.run(R(scope=CURL, call=call2, branch=branch2, iter=it2, ret=ret2, stops=[r"CurlHttpRequestHandle::"]), [f])
    for f in [f for f in fs if f.short == "PerformRequests"]:
        adders = {g.name for g in fs if list(calls_in(g, "AddEasyHandle")) and "CurlMultiHandle" not in g.name.rsplit("::", 1)[0]}

        def call3(r, st, c):
            if c.name in adders:
                r.need(has_sub(c.args[1], lambda t: t.op in ("elem", "idx")) and has_sub(c.recv, lambda t: t.op in ("elem", "idx")) if not joined(c.args[1]) else None,
                       "every-request-performed", c, "a request is started with another request's receiver", st)
                st.ts["add"] = True

        def loop3(r, st, node, fr):
            if node[0] != "do":
                st.ts.pop("add", None)

        def it3(r, st, node, fr):
            if node[0] == "rfor" and fr.func is f:
                r.need(bool(st.ts.get("add")), "every-request-performed", at(fr, node[1]), "a request is left out", st)

        def branch3(r, st, atom, pol, line, fr):
            if atom.op == "ok" and atom.args[0].op == "call" and atom.args[0].args[0] in adders and not pol:
                st.ts["failed"] = True

        def ret3(r, st, v, line, fr):
            if st.ts.get("failed"):
                r.need(status_of(st, v) is False or (None if joined(v) else False), "every-request-performed", at(fr, line), "a request that was not started is not reported", st)
        ctx.run(R(scope=CURL, call=call3, loop=loop3, iter=it3, branch=branch3, ret=ret3, stops=[r"CurlHttpRequestHandle::"]), [f])
    for k in ("ends-once", "completed-when-transferred", "refusal-stops-transfer", "every-byte-sent", "every-request-performed"):
        ctx.need(k)


def progress_fns(ctx, fs):
    out = set()
    for f in fs:
        for c in calls_in(f, "SetOpt", "curl_easy_setopt"):
            names = [x for x in walk(c) if isinstance(x, (list, tuple)) and x]
            if any("CURLOPT_XFERINFOFUNCTION" in str(x) for x in c[3][:2]):
                for x in names:
                    if x[0] == "fn":
                        out.add(x[1])
    return out


# ---- D18: curl requests go to a verified server, as they were asked for ---------------------
CHECKED = ("CURLOPT_SSL_VERIFYPEER", "CURLOPT_SSL_VERIFYHOST")
LENGTH = {"kPost": ("CURLOPT_POSTFIELDSIZE", "CURLOPT_POSTFIELDSIZE_LARGE"), "kPut": ("CURLOPT_INFILESIZE", "CURLOPT_INFILESIZE_LARGE")}
METHOD = {"kGet": ("CURLOPT_HTTPGET",), "kHead": ("CURLOPT_NOBODY",), "kPost": ("CURLOPT_POST",), "kPut": ("CURLOPT_UPLOAD", "CURLOPT_PUT")}
CALLBACK = {"CURLOPT_HEADERFUNCTION": "CURLOPT_HEADERDATA", "CURLOPT_WRITEFUNCTION": "CURLOPT_WRITEDATA", "CURLOPT_READFUNCTION": "CURLOPT_READDATA",
            "CURLOPT_XFERINFOFUNCTION": "CURLOPT_XFERINFODATA"}
STRIPPED = ("Content-Encoding", "Content-Length", "Transfer-Encoding")


def option(t):
    return sn(str(t.args[0])) if t.op == "enum" else None


def is_method(st, m):
    return fact(st, lambda a: a.op == "eq" and any(x.op == "enum" and sn(str(x.args[0])) == m for x in a.args), True) is not None


def d18(ctx):
    fs = [f for f in ctx.db.in_files(CURL) if f.body is not None and "CurlEasyHandle" not in f.name]
    tops = [f for f in fs if any("CURLOPT_URL" in str(c[3][:1]) for c in calls_in(f, "SetOpt"))]
    if not tops:
        raise AnalysisError("anchor vanished: no connection is set up")

    def header_name(t, name):
        return t.op == "c" and isinstance(tm.cval(t), str) and tm.cval(t).lower() == name

    def about(st, name, pol=True):
        return fact(st, lambda a: a.op == "call" and isname(a, "EqualsIgnoreCase") and any(header_name(x, name) for x in a.args[2]), pol) is not None

    def call(r, st, c):
        if isname(c, "SetOpt") and c.args and option(c.args[0]):
            o, v = option(c.args[0]), c.args[1]
            k = const_of(ctx, v)
            if o in CHECKED:
                r.need(k != 0 and v.op != "null" if k is not None else None, "server-verified", c, "%s is switched off" % o, st)
            if o == "CURLOPT_URL":
                r.need(has_sub(v, call_p("uri")) if not joined(v) else None, "own-address", c, "the address is not the one asked for", st)
            if o in CALLBACK.values() or o == "CURLOPT_PRIVATE":
                r.need(v.op == "this", "own-callbacks", c, "%s is not this request" % o, st)
            if o == "CURLOPT_HTTPHEADER":
                r.need(not tm.is_const(v) and v.op != "null", "own-headers", c, "the headers are not sent", st)
            for m, os_ in METHOD.items():
                if o in os_ and k != 0:
                    r.need(is_method(st, m), "own-method", c, "%s for a request that is not %s" % (o, m), st)
            for m, os_ in LENGTH.items():
                if o in os_:
                    r.need(is_method(st, m), "own-length", c, "%s for a request that is not %s" % (o, m), st)
                    r.need(about(st, "content-length"), "own-length", c, "another header is taken for the length", st)
                    r.need(has_sub(v, lambda t: t.op == "elem") if not joined(v) else None, "own-length", c, "the length is not the one announced", st)
                    st.ts["len"] = True
            if o == "CURLOPT_ACCEPT_ENCODING":
                asked = fact(st, lambda a: has_sub(a, lambda t: header_name(t, "accept-encoding")), None)
                own = fact(st, lambda a: a.op == "has" and has_sub(a, lambda t: header_name(t, "accept-encoding")), False) is not None
                r.need(None if asked is None else (v.op != "null") == own, "decoded-by-one-side", c, "curl decodes what the caller wants to decode" if not own else "nobody decodes the response", st)
                if v.op != "null" and k is None or isinstance(k, str):
                    st.ts["dec"] = "curl"
                else:
                    st.ts["dec"] = "caller"
            st.ts[o] = True
            st.ts["m"] = tuple(sorted(set(st.ts.get("m", ())) | {m for m, os_ in METHOD.items() if o in os_}))
        if isname(c, "UseCurlEncoding"):
            st.ts["told"] = True
        if isname(c, "curl_slist_append"):
            st.ts["hdr"] = True

    def loop(r, st, node, fr):
        if node[0] != "do":
            st.ts.pop("hdr", None)
            st.ts.pop("len", None)

    def it(r, st, node, fr):
        if node[0] != "rfor":
            return
        if about(st, "content-length"):
            for m in LENGTH:
                if is_method(st, m):
                    r.need(bool(st.ts.get("len")), "own-length", at(fr, node[1]), "the length of the body is not announced", st)
        elif not about(st, "accept-encoding"):
            r.need(bool(st.ts.get("hdr")), "own-headers", at(fr, node[1]), "a header is left out", st)

    def ret(r, st, v, line, fr):
        if v.op == "enum" and sn(str(v.args[0])) != "CURLE_OK":
            return
        if fact(st, lambda a: a.op == "eq" and enum_p("CURLE_OK")(a.args[0]) and a.args[1] is v or a.op == "eq" and enum_p("CURLE_OK")(a.args[1]) and a.args[0] is v, False) is not None:
            return
        pos = at(fr, line)
        for o in CHECKED:
            r.need(bool(st.ts.get(o)), "server-verified", pos, "a connection is set up without %s" % o, st)
        for o, d in CALLBACK.items():
            r.need(bool(st.ts.get(o)) and bool(st.ts.get(d)), "own-callbacks", pos, "a connection is set up without %s" % (d if st.ts.get(o) else o), st)
        for o in ("CURLOPT_PRIVATE", "CURLOPT_URL"):
            r.need(bool(st.ts.get(o)), "own-address", pos, "a connection is set up without %s" % o, st)
        r.need(bool(st.ts.get("CURLOPT_HTTPHEADER")), "own-headers", pos, "the headers are not sent", st)
        r.need(bool(st.ts.get("m")), "own-method", pos, "a connection is set up without a method", st)
        if st.ts.get("dec"):
            r.need(bool(st.ts.get("told")) == (st.ts["dec"] == "curl"), "decoded-by-one-side", pos, "the response headers are treated as if decoding was done by the other side", st)
        for x in st.ts.get("res", ()):
            good = fact(st, lambda a: a.op == "eq" and any(y is x for y in a.args), None)
            r.need(good is not None and good[1] is True, "settings-checked", pos, "whether a setting was accepted is not looked at", st)

    def after(r, st, c, ret):
        if isname(c, "SetOpt") and option(c.args[0]) in CHECKED + ("CURLOPT_URL",):
            st.ts["res"] = tuple(st.ts.get("res", ())) + (ret,)
    ctx.run(R(scope=CURL, call=call, loop=loop, iter=it, ret=ret, after=after, stops=[r"CurlHeaderParser::"]), tops)
    for k in ("server-verified", "own-address", "own-method", "own-length", "own-headers", "own-callbacks", "decoded-by-one-side", "settings-checked"):
        ctx.need(k)
    for f in fs:
        for n in walk(f.body):
            if n[0] == "expr" and isinstance(n[-1], (list, tuple)) and n[-1] and n[-1][0] == "call" and sn(str(n[-1][1])) == "SetOpt":
                ctx.check("settings-checked", f.rel(), n[1] if isinstance(n[1], int) else f.line, False, "whether a setting was accepted is not looked at")
    # response headers
    parse = [f for f in methods(ctx, "fcp::client::http::curl::CurlHeaderParser") if f.short == "ParseHeader"]
    if not parse:
        raise AnalysisError("anchor vanished: ParseHeader")
    cls = "fcp::client::http::curl::CurlHeaderParser"
    lists = of_type(ctx.db, cls, r"HeaderList|vector<")
    bools = of_type(ctx.db, cls, r"^bool$")
    ints = of_type(ctx.db, cls, r"^int")
    for f in parse:
        inp = P_(f, 0)
        status_line = lambda st: fact(st, lambda a: a.op == "call" and isname(a, "StartsWith", "starts_with", "ConsumePrefix") and has_sub(a, lambda t: t.op == "c" and str(tm.cval(t)).startswith("HTTP/")), True) is not None

        def call4(r, st, c):
            fl = cls + "::" + (recv_field(c) or "")
            if fl in lists and isname(c, "push_back", "emplace_back"):
                st.ts["kept"] = True
                t = mk("list", *[x for x in c.args]) if len(c.args) > 1 else c.args[0]
                r.need(has_sub(t, inp) if not joined(t) else None, "header-whole", c, "a response header is not the one received", st)
                cut = lambda x: x.op == "call" and isname(x, "substr") and len(x.args[2]) == 2 and \
                    has_sub(x.args[2][1], lambda y: y.op == "call" and sn(y.args[0]).startswith("find") and not any(tm.cval(z) in ("\r", "\n", "\r\n", 10, 13) for z in tm.subterms(y) if tm.is_const(z)))
                els = [x for x in t.args if isinstance(x, T)] or [y for x in t.args if isinstance(x, tuple) for y in x if isinstance(y, T)]
                last = els[-1] if t.op in ("list", "ctor") and len(els) > 1 else None
                if last is not None:
                    r.need(not has_sub(last, cut), "header-whole", c, "a header value is cut short", st)
                for sp in [x for x in tm.subterms(t) if x.op == "call" and isname(x, "StrSplit")]:
                    r.need(has_sub(sp, call_p("MaxSplits")), "header-whole", c, "a header value that contains a colon is cut short", st)
                strip = fact(st, lambda a: a.op == "fld" and a.args[0] in bools, None)
                enc = fact(st, lambda a: a.op == "fld" and a.args[0] in bools, True) is not None
                for h in STRIPPED:
                    r.need(not enc or about(st, h.lower(), False) or (None if strip is None else False), "decoded-headers-dropped", c, "%s of the encoded response is kept after decoding" % h, st)
            if fl in lists and isname(c, "clear"):
                st.ts["cleared"] = True

        def write4(r, st, place, val, line, fr):
            if place[0] == "f" and place[2] in lists and val.op in ("ctor", "list", "obj"):
                st.ts["cleared"] = True
            if place[0] == "f" and place[2] in ints:
                st.ts["code"] = True
                r.need(has_sub(val, inp) if not joined(val) else None, "status-as-received", at(fr, line), "the status code is not the one received", st)
                short = lambda t: t.op == "call" and isname(t, "substr") and len(t.args[2]) == 2 and tm.is_const(t.args[2][1]) and tm.cval(t.args[2][1]) in (0, 1, 2)
                r.need(not has_sub(val, short), "status-as-received", at(fr, line), "digits of the status code are cut off", st)
                r.need(status_line(st), "status-as-received", at(fr, line), "a line that is not a status line changes the status code", st)
            if place[0] == "f" and place[2] in bools and val is TRUE:
                st.ts["last"] = True
                r.need(fact(st, lambda a: a.op == "eq" and any(t.op == "c" and str(tm.cval(t)).strip() == "" for t in a.args), True) is not None or
                       fact(st, lambda a: a.op == "eq" and const_of(ctx, a.args[0]) == 0 and has_sub(a, size_p(lambda t: True)), True) is not None,
                       "headers-end-at-empty-line", at(fr, line), "a line that is not empty ends the headers", st)

        def ret4(r, st, v, line, fr):
            blank = fact(st, lambda a: a.op == "eq" and any(t.op == "c" and tm.cval(t) == "\r\n" for t in a.args) and has_sub(a, inp), True)
            if blank is not None:
                again = fact(st, lambda a: a.op in ("eq", "lt") and has_sub(a, lambda t: t.op == "fld" and t.args[0] in ints), True)
                r.need(bool(st.ts.get("last")) or again is not None, "headers-end-at-empty-line", at(fr, line), "the empty line does not end the headers", st)
            if status_line(st) and fact(st, lambda a: a.op == "call" and isname(a, "SimpleAtoi"), True) is not None:
                r.need(bool(st.ts.get("code")), "status-as-received", at(fr, line), "a later status code is not taken over", st)
            if st.ts.get("code"):
                r.need(bool(st.ts.get("cleared")), "last-response-only", at(fr, line), "headers of an earlier response are kept", st)
            elif fact(st, lambda a: a.op == "call" and isname(a, "StrContains", "find"), True) is not None and not st.ts.get("kept"):
                r.need(any(about(st, h.lower(), True) for h in STRIPPED) and fact(st, lambda a: a.op == "fld" and a.args[0] in bools, True) is not None, "headers-kept", at(fr, line),
                       "a response header is dropped", st)
        ctx.run(R(scope=CURL, call=call4, write=write4, ret=ret4), [f])
    for k in ("header-whole", "status-as-received", "last-response-only", "headers-kept", "decoded-headers-dropped"):
        ctx.need(k)


def isname_(s, *names):
    return str(s).rsplit("::", 1)[-1] in names


# ---- D19: federated select slices ------------------------------------------------------------
SEL = r"^fcp/client/federated_select\.(cc|h)$"
SEL_UNITS = [r"^fcp/client/federated_select\.cc$"]


def d19(ctx):
    fs = [f for f in ctx.db.in_files(SEL) if f.body is not None]
    tops = [f for f in fs if f.short == "CreateExampleIterator"]
    real = []
    fetch = lambda t: t.op == "call" and isname(t, "FetchResourcesInMemory")
    for f in tops:
        def call(r, st, c):
            if isname(c, "FetchResourcesInMemory"):
                st.ts["f"] = True
                if not r.eng.muted:
                    real.append(f)
                r.need(fact(st, lambda a: a.op == "call" and isname(a, "UnpackTo"), True) is not None or (None if not any(isname(t, "UnpackTo") for a in c.args for t in tm.subterms(a) if t.op == "call") else False),
                       "keys-readable", c, "slices are fetched although the selection could not be read", st)
            if isname(c, "CreateUri"):
                u = c.args[0]
                rep = next((t for t in tm.subterms(u) if t.op == "call" and isname(t, "StrReplaceAll")), None)
                if rep is None:
                    r.need(None, "slice-per-key", c, "", st)
                else:
                    key = lambda t: t.op == "elem" or t.op == "idx" or t.op == "call" and isname(t, "keys") and bool(t.args[2])
                    r.need(has_sub(rep, key), "slice-per-key", c, "the address does not name the key of the slice", st)
                    r.need(has_sub(rep, call_p("served_at_id")), "slice-per-key", c, "the address does not name where the slice is served", st)
                    pairs = [t for t in tm.subterms(rep) if t.op in ("ctor", "list") and has_sub(t, lambda x: x.op == "c" and str(tm.cval(x)) == "{key_base10}") and
                             not has_sub(t, lambda x: x.op == "c" and str(tm.cval(x)) == "{served_at_id}")]
                    if pairs:
                        r.need(has_sub(pairs[0], key), "slice-per-key", c, "another value stands where the key belongs", st)
                        r.need(not has_sub(pairs[0], lambda t: t.op in ("lin", "arith") or t.op in ("call", "ctor") and re.search(r"(^|::)(Hex|substr|abs)$", str(t.args[0])) is not None), "slice-per-key", c, "the key is not written out as it is", st)
                    for t in tm.subterms(rep):
                        if t.op == "elem" and not has_sub(t, fetch):
                            b = t.args[0]
                            r.need(True if b.op == "call" and isname(b, "keys") else False if b.op == "ctor" and re.search(r"(^|::)(set|unordered_set|flat_hash_set|btree_set|map)$", str(b.args[0])) else None, "slice-per-key", c, "keys asked for more than once or in another order are lost", st)
                st.ts["n"] = st.ts.get("n", 0) + 1
            if isname(c, "push_back", "emplace_back", "push_front", "emplace_front") and c.args and has_sub(c.args[0], fetch):
                a = c.args[0]
                el = next((t for t in tm.subterms(a) if t.op == "elem" and has_sub(t, fetch)), None)
                r.need(None if el is None else fact(st, lambda x: x.op == "ok" and x.args[0] is el, True) is not None, "failed-slice-refused", c, "a slice that could not be fetched is handed out", st)
                r.need(not has_sub(a, lambda t: t.op == "call" and re.search(r"(^|::)(Subcord|substr|subspan|RemoveSuffix|RemovePrefix)$", str(t.args[0])) is not None), "slice-whole", c, "only part of the slice is kept", st)
                r.need(isname(c, "push_back", "emplace_back"), "slices-in-order", c, "the slices are handed out in another order", st)
                st.ts["n"] = st.ts.get("n", 0) + 1

        def loop(r, st, node, fr):
            if node[0] in ("rfor", "for", "while"):
                st.ts["n"] = 0

        def it(r, st, node, fr):
            if node[0] in ("rfor", "for", "while"):
                r.need(st.ts.get("n") == 1, "slice-per-key", at(fr, node[1]), "not exactly one slice per key", st)

        def write(r, st, place, val, line, fr):
            if place[0] == "f" and val.op == "lin" and has_sub(val, lambda t: t.op == "out" and fetch(t.args[0])):
                o = next(t for t in tm.subterms(val) if t.op == "out" and fetch(t.args[0]))
                st.ts[("b", o.args[1])] = sn(place[2])
                if not r.eng.muted:
                    r.need(("received" in place[2]) == (o.args[1] == 3) or not re.search("received|sent", place[2]), "bytes-counted", at(fr, line), "bytes sent and received are mixed up", st)
                r.need(has_sub(val, lambda t: t.op == "fld" and t.args[0] == place[2]), "bytes-counted", at(fr, line), "bytes counted before are lost", st)

        def call_rm(r, st, c):
            call(r, st, c)
            if isname(c, "remove") and c.args and (has_sub(c.args[0], call_p("CreateTempFile")) or joined(c.args[0])):
                st.ts["rm"] = True

        def branch(r, st, atom, pol, line, fr):
            if atom.op == "ok" and atom.args[0].op == "elem" and fetch(atom.args[0].args[0]) and not pol:
                st.ts["failed"] = True

        def ret(r, st, v, line, fr):
            if st.ts.get("f"):
                r.need(("b", 3) in st.ts and ("b", 4) in st.ts, "bytes-counted", at(fr, line), "bytes transferred are not counted", st)
            s_ = status_of(st, v)
            made = fact(st, lambda a: a.op == "ok" and a.args[0].op == "call" and isname(a.args[0], "CreateTempFile"), True) is not None
            if s_ is False and made:
                r.need(bool(st.ts.get("rm")), "scratch-file-removed", at(fr, line), "the scratch file stays behind when nothing is handed out", st)
            if s_ is not False and v.op == "new":
                r.need(not st.ts.get("rm"), "slices-handed-out", at(fr, line), "the scratch file handed out was removed", st)
                r.need(made, "slices-handed-out", at(fr, line), "an iterator without a scratch file", st)
                args = v.args[1]
                r.need(not st.ts.get("failed"), "failed-slice-refused", at(fr, line), "an iterator is handed out although a slice could not be fetched", st)
                for a in args[1:]:
                    r.need(not has_sub(a, lambda t: t.op == "call" and isname(t, "rbegin", "min", "next", "prev", "advance") or t.op in ("lin", "arith") and has_sub(t, call_p("begin", "end"))), "slices-in-order", at(fr, line), "the slices are not handed on as fetched", st)
                r.need(len(args) < 1 or has_sub(args[0], call_p("CreateTempFile")) or joined(args[0]) or None, "slices-handed-out", at(fr, line), "", st)
                bad = fact(st, lambda a: a.op == "ok" and fetch(a.args[0]), True)
                r.need(bad is not None or None if not st.ts.get("f") else bad is not None, "failed-slice-refused", at(fr, line), "an iterator is handed out although fetching failed", st)
        ctx.run(R(scope=SEL, call=call_rm, branch=branch, loop=loop, iter=it, write=write, ret=ret), [f])
        if f not in real:
            def ret0(r, st, v, line, fr):
                r.need(status_of(st, v) is False, "disabled-refuses", at(fr, line), "a disabled feature hands out slices", st)
            ctx.run(R(scope=SEL, ret=ret0), [f])
    if not real:
        raise AnalysisError("anchor vanished: no slices are fetched")
    for f in fs:
        for n in walk(f.body):
            if n[0] == "rfor" and n[5][0] == "call" and isname_(n[5][1], "keys"):
                ctx.check("slice-per-key", f.rel(), n[1], re.search(r"\b(char|short|bool|u?int(8|16)_t)\b", str(n[4])) is None, "the key is cut down to fewer bits")
    for f in [f for f in fs if f.short == "CreateExampleIteratorFactoryForUriTemplate" and len(f.params) == 1]:
        off = {x.name.rsplit("::", 2)[-2] for x in tops if x not in real}

        def ret1(r, st, v, line, fr):
            empty = fact(st, lambda a: a.op == "eq" and const_of(ctx, a.args[0]) == 0 and has_sub(a.args[1], P_(f, 0)), True) is not None
            if empty and v.op == "new":
                r.need(any(o in str(v.args[0]) for o in off), "no-template-no-slices", at(fr, line), "slices are fetched without an address", st)
            elif v.op == "new" and off and not any(o in str(v.args[0]) for o in off):
                own = [(a, b) for a, b in st.facts.items() if has_sub(a, P_(f, 0))]
                full = any(a.op == "eq" and not b and (const_of(ctx, a.args[0]) in (0, "") or const_of(ctx, a.args[1]) in (0, "")) or a.op == "lt" and b and const_of(ctx, a.args[0]) is not None or a.op == "lt" and not b and const_of(ctx, a.args[1]) is not None for a, b in own)
                r.need(full or (None if any(a.op == "call" for a, b in own) else False), "no-template-no-slices", at(fr, line), "slices are fetched without an address", st)
        ctx.run(R(scope=SEL, ret=ret1), [f])
    # handing out one slice after the other
    its = [f for f in fs if f.short == "Next"]
    scratch = lambda args: bool(args) and not has_sub(args[0], lambda t: t.op in ("lin", "arith", "cat") or t.op == "call" and isname(t, "operator+", "StrCat", "operator/", "parent_path"))
    for f in its:
        def call2(r, st, c):
            if isname(c, "operator<<", "write") and any(has_sub(a, call_p("front", "operator[]", "at")) for a in list(c.args)):
                st.ts["wrote"] = True
                part = lambda t: t.op == "call" and re.search(r"(^|::)(Subcord|substr|subspan|chunk_begin|remove_suffix|remove_prefix)$", str(t.args[0])) is not None
                a = c.args[-1] if isname(c, "operator<<") else None
                r.need(not any(has_sub(x, part) for x in c.args) and not (a is not None and a.op == "call" and isname(a, "data", "c_str")), "slice-whole", c, "only part of the slice is written", st)
            if isname(c, "basic_fstream", "basic_ofstream", "open") and len(c.args) > 1 and const_of(ctx, c.args[1]) is not None:
                # the flags of the standard library used here: app=1, in=8, out=16, trunc=32
                m = const_of(ctx, c.args[1])
                r.need(not m & 1 and (m & 32 or not m & 8) and True, "slice-whole", c, "what the slice before left in the file is kept", st)
            if isname(c, "pop_front", "erase"):
                st.ts["pop"] = min(st.ts.get("pop", 0) + 1, 2)
            if isname(c, "close"):
                st.ts["closed"] = True
            if isname(c, "remove") and scratch(c.args):
                st.ts["rm"] = True

        def ctor2(t):
            return t.op == "ctor" and re.search("basic_(f|of)stream", str(t.args[0]))

        def loop2(r, st, node, fr):
            if node[0] != "do":
                st.ts.pop("wrote", None)

        def it2(r, st, node, fr):
            if node[0] == "rfor":
                r.need(bool(st.ts.get("wrote")), "slice-whole", at(fr, node[1]), "a piece of the slice is not written", st)
                good = fact(st, lambda a: a.op == "call" and isname(a, "good", "fail", "bad", "operator!", "operator bool"), None)
                st.ts["all"] = True

        def branch2(r, st, atom, pol, line, fr):
            if atom.op == "call" and isname(atom, "good", "fail", "bad", "operator bool", "operator!", "is_open"):
                bad = pol if isname(atom, "fail", "bad", "operator!") else not pol
                if bad:
                    st.ts["bad"] = True
                elif st.ts.get("closed"):
                    st.ts["flushed"] = True

        def ret2(r, st, v, line, fr):
            pos = at(fr, line)
            s_ = status_of(st, v)
            empty = fact(st, lambda a: a.op == "eq" and const_of(ctx, a.args[0]) == 0 and a.args[1].op in ("size", "call") and has_sub(a.args[1], lambda t: t.op == "fld"), None)
            if s_ is False:
                if v.op == "call" and isname(v, "OutOfRangeError"):
                    r.need(empty is not None and empty[1] is True, "end-only-when-used-up", pos, "the end is reported while slices are left", st)
                    r.need(bool(st.ts.get("rm")), "scratch-file-removed", pos, "the scratch file stays behind", st)
                else:
                    r.need(not st.ts.get("pop"), "each-slice-once", pos, "a slice that could not be written is lost", st)
                return
            r.need(not st.ts.get("bad"), "slice-whole", pos, "a slice that could not be written is handed out", st)
            r.need(bool(st.ts.get("flushed")), "slice-whole", pos, "whether the slice reached the file is not looked at", st)
            r.need(bool(st.ts.get("pop")), "each-slice-once", pos, "the same slice is handed out again", st)
            r.need(st.ts.get("pop", 0) < 2, "each-slice-once", pos, "a slice is passed over", st)
            r.need(empty is not None and empty[1] is False, "end-only-when-used-up", pos, "a slice is handed out when none is left", st)
        ctx.run(R(scope=SEL, call=call2, loop=loop2, iter=it2, branch=branch2, ret=ret2), [f])
    for f in [f for f in fs if f.short == "Close" or f.kind == "dtor" or f.short.startswith("~")]:
        if "Iterator" not in f.name or "Factory" in f.name:
            continue

        def call3(r, st, c):
            if isname(c, "remove") and scratch(c.args):
                st.ts["rm"] = True

        def ret3(r, st, v, line, fr):
            r.need(bool(st.ts.get("rm")), "scratch-file-removed", at(fr, line), "the scratch file stays behind", st)
        ctx.run(R(scope=SEL, call=call3, ret=ret3), [f])
    for k in ("slice-per-key", "failed-slice-refused", "bytes-counted", "slice-whole", "scratch-file-removed", "each-slice-once"):
        ctx.need(k)


# ---- D20: running secure aggregation on the client -------------------------------------------
SR = r"^fcp/client/secagg_runner\.cc$"
SR_UNITS = [SR]


def d20(ctx):
    fs = [f for f in ctx.db.in_files(SR) if f.body is not None]
    tops = [f for f in fs if f.short == "Run" and "SecAggRunner" in f.name]
    if not tops:
        raise AnalysisError("anchor vanished: secure aggregation is not run")
    mod = call_p("GetModulus")
    for f in tops:
        def vec(t):
            return has_sub(t, lambda x: x.op == "call" and "get<QuantizedTensor>" in str(x.args[0])) or has_sub(t, lambda x: x.op == "fld" and sn(x.args[0]) == "values")

        def call(r, st, c):
            if isname(c, "emplace_back", "push_back") and len(c.args) >= 3 and has_sub(c.args[2], mod):
                m, ln = c.args[2], c.args[1]
                if m.op == "call" and isname(m, "GetModulus"):
                    r.need(m.args[2] and m.args[2][0] is c.args[0], "own-modulus", c, "the modulus belongs to another vector", st)
                one = fact(st, lambda a: a.op == "lt" and a.args[1] is m and const_of(ctx, a.args[0]) is not None and const_of(ctx, a.args[0]) >= 1, True) or \
                    fact(st, lambda a: a.op == "lt" and a.args[0] is m and const_of(ctx, a.args[1]) is not None and const_of(ctx, a.args[1]) >= 2, False)
                big = \
                    fact(st, lambda a: a.op == "lt" and a.args[1] is m and const_of(ctx, a.args[0]) is not None and 2 ** 20 < const_of(ctx, a.args[0]) <= 2 ** 62, False) or \
                    fact(st, lambda a: a.op == "lt" and a.args[0] is m and const_of(ctx, a.args[1]) is not None and 2 ** 20 < const_of(ctx, a.args[1]) <= 2 ** 62 + 1, True)
                opq = None if joined(m) and m.op != "call" else False
                r.need(one is not None or opq, "modulus-in-range", c, "a modulus of one or less is accepted", st)
                r.need(big is not None or opq, "modulus-in-range", c, "a modulus beyond the largest supported is accepted", st)
                size = fact(st, lambda a: a.op == "eq" and any(x.op == "size" or x.op == "call" and isname(x, "size") for x in a.args) and any(const_of(ctx, x) == 0 for x in a.args), False)
                r.need(size is not None, "vector-not-empty", c, "an empty vector is accepted", st)
                same = fact(st, lambda a: a.op == "eq" and any(x is ln for x in a.args) and any(x is not ln and (x.op == "size" or has_sub(x, call_p("size"))) or has_sub(x, lambda y: y.op == "size") for x in a.args if x is not ln), True)
                own = ln.op == "size" or ln.op == "call" and isname(ln, "size")
                r.need(own or same is not None, "length-as-announced", c, "the announced length is not the number of values", st)
                part = lambda t: t.op == "call" and isname(t, "subspan", "first", "last", "front", "back")
                below = ufact(st, lambda a: a.op == "lt" and a.args[1] is m and not has_sub(a.args[0], part), True) or fact(st, lambda a: a.op == "call" and isname(a, "any_of", "c_any_of", "all_of", "c_all_of"), None)
                r.need(below is not None or (None if st.ts.get("below") else False), "values-below-modulus", c, "values at or beyond the modulus are accepted", st)
                st.ts["spec"] = True
                st.ts["m"] = m
                st.ts["k"] = c.args[0]
            elif isname(c, "try_emplace", "emplace", "insert", "insert_or_assign") and any(has_sub(a, mod) for a in c.args):
                st.ts["in"] = True
                k = st.ts.get("k")
                for a in c.args[1:]:
                    r.need(not (a.op in ("lin", "arith") and has_sub(a, mod)), "own-modulus", c, "the vector is contributed with another modulus", st)
                if k is not None:
                    r.need(c.args[0] is k or (None if joined(c.args[0]) else False), "own-modulus", c, "the vector is stored under another name", st)
                sp = next((t for a in c.args for t in tm.subterms(a) if t.op == "call" and isname(t, "MakeConstSpan", "MakeSpan")), None)
                if sp is not None and len(sp.args[2]) > 1:
                    r.need(sp.args[2][1].op == "size" or has_sub(sp.args[2][1], call_p("size")) or has_sub(sp.args[2][1], lambda t: t.op == "size") or
                           fact(st, lambda a: a.op == "eq" and any(x is sp.args[2][1] for x in a.args), True) is not None, "whole-vector", c, "only part of the vector is contributed", st)
            if isname(c, "SecAggClient") and len(c.args) >= 4:
                r.need(c.args[0].op == "fld" and "expected" in c.args[0].args[0] if c.args[0].op == "fld" and re.search("expected|minimum", c.args[0].args[0]) else None, "own-parameters", c, "the number of clients is not the one announced", st)
                r.need(c.args[1].op == "fld" and "minimum" in c.args[1].args[0] if c.args[1].op == "fld" and re.search("expected|minimum", c.args[1].args[0]) else None, "own-parameters", c, "the threshold is not the one announced", st)
                r.need(any(t.op == "new" and "CryptoRandPrng" in str(t.args[0]) for t in c.args) or (None if not any(t.op == "new" and re.search("Prng$", str(t.args[0])) for t in c.args) else False),
                       "secure-randomness", c, "keys are not drawn from the secure generator", st)
                st.ts["made"] = True
            if isname(c, "Start") and "SecAggClient" in c.name:
                st.ts["start"] = True
            if isname(c, "SetInput"):
                st.ts["input"] = True
            if isname(c, "ReceiveServerMessage"):
                r.need(bool(st.ts.get("input")) and bool(st.ts.get("start")), "input-before-messages", c, "messages are received before the input was given", st)
                st.ts["msg"] = True
            if isname(c, "ReceiveMessage"):
                r.need(bool(c.args) and has_sub(c.args[0], call_p("ReceiveServerMessage")) if not joined(c.args[0]) else None, "every-message-processed", c, "another message is processed than was received", st)
                st.ts["msg"] = False
            if isname(c, "Abort"):
                st.ts[("abort", "client" if "SecAggClient" in c.name else "delegate")] = True

        def branch(r, st, atom, pol, line, fr):
            if atom.op == "call" and isname(atom, "IsCompletedSuccessfully"):
                st.ts["complete"] = pol
            if atom.op == "call" and isname(atom, "IsAborted"):
                st.ts["aborted"] = pol
            if atom.op == "call" and "holds_alternative" in str(atom.args[0]):
                st.ts["tensor"] = pol
            if atom.op == "ok" and atom.args[0].op == "call" and isname(atom.args[0], "Start", "SetInput") and pol:
                st.ts[("ok", sn(str(atom.args[0].args[0])))] = True
            if atom.op == "ok" and atom.args[0].op == "call" and isname(atom.args[0], "ReceiveMessage", "ReceiveServerMessage", "Start", "SetInput") and not pol:
                st.ts["failed"] = True

        def dims(node):
            return any(c[0] == "asg" and c[1] == "*=" for c in walk(node) if isinstance(c, (list, tuple)) and c) and not any(c[0] == "call" and "holds_alternative" in str(c[1]) for c in walk(node) if isinstance(c, (list, tuple)) and c)

        def write(r, st, place, val, line, fr):
            if place[0] == "v" and has_sub(val, lambda t: t.op == "elem"):
                st.ts["dim"] = True

        def loop(r, st, node, fr):
            if node[0] == "do":
                return
            st.ts.pop("dim", None)
            if node[0] == "rfor" and fr.func is f and any(c[0] == "call" and "holds_alternative" in str(c[1]) for c in walk(node) if isinstance(c, (list, tuple)) and c):
                for k in ("spec", "in", "m", "k", "tensor"):
                    st.ts.pop(k, None)
            for k in ("complete", "aborted", "msg"):
                st.ts.pop(k, None)

        def it(r, st, node, fr):
            if node[0] == "rfor" and dims(node):
                r.need(bool(st.ts.get("dim")), "length-as-announced", at(fr, node[1]), "a dimension does not count", st)
            if node[0] == "rfor" and "tensor" in st.ts and any(c[0] == "call" and "holds_alternative" in str(c[1]) for c in walk(node) if isinstance(c, (list, tuple)) and c):
                if st.ts["tensor"]:
                    r.need(bool(st.ts.get("spec")) and bool(st.ts.get("in")), "every-vector-contributed", at(fr, node[1]), "a vector is announced or contributed, but not both", st)
                for k in ("spec", "in", "m", "k", "tensor"):
                    st.ts.pop(k, None)
            if node[0] in ("while", "for") and st.ts.get("start"):
                r.need(not st.ts.get("msg"), "every-message-processed", at(fr, node[1]), "a message received is not processed", st)
                r.need(st.ts.get("aborted") is False, "abort-noticed", at(fr, node[1]), "the run goes on after it was aborted", st)

        def lamret(r, st, v, fr, node):
            pos = at(fr, node[1])
            if st.ts.get("start"):
                if status_of(st, v) is not False:
                    r.need(st.ts.get("complete") is True, "success-means-completed", pos, "a run that did not complete is reported as successful", st)
                    r.need(not st.ts.get("failed") and not st.ts.get("aborted"), "success-means-completed", pos, "a failed run is reported as successful", st)
                    r.need(("ok", "Start") in st.ts and ("ok", "SetInput") in st.ts, "success-means-completed", pos, "whether the protocol took the input is not looked at", st)
            elif ("abort", "client") in st.ts or ("abort", "delegate") in st.ts or st.ts.get("lam"):
                r.need(("abort", "client") in st.ts and ("abort", "delegate") in st.ts, "interruption-aborts-both", pos, "an interruption leaves the client or its connection running", st)

        def ret(r, st, v, line, fr):
            run = fact(st, lambda a: a.op == "ok" and a.args[0].op == "call" and "InterruptibleRunner" in str(a.args[0].args[0]), None)
            if status_of(st, v) is not False:
                r.need((run is not None and run[1] is True) or (v.op == "call" and isname(v, "Run")), "success-means-completed", at(fr, line), "success is reported without a successful run", st)
        ctx.run(R(scope=SR, call=call, write=write, branch=branch, loop=loop, iter=it, lamret=lamret, ret=ret), [f])
        small = lambda t: re.search(r"^(const )?(u?int(8|16|32)_t|(unsigned )?(int|short|char)|unsigned)$", str(t)) is not None
        ty = {n[2]: n[4] for n in walk(f.body) if n[0] == "decl"}
        for n in walk(f.body):
            if n[0] == "asg" and n[1] == "*=" and n[2][0] == "var":
                ctx.check("length-as-announced", f.rel(), n[4], not small(ty.get(n[2][1], ty.get(n[2][2] if len(n[2]) > 2 else None, ""))), "the announced length is computed in too few bits")
            if n[0] == "op" and n[1] in ("<", ">", "<=", ">=", "==", "!="):
                ctx.check("compared-whole", f.rel(), n[4], not any(x[0] == "cast" and small(x[1]) for x in n[2:4] if isinstance(x, (list, tuple)) and x), "a value is cut down to fewer bits before it is compared")
    for k in ("own-modulus", "modulus-in-range", "values-below-modulus", "length-as-announced", "every-vector-contributed", "success-means-completed", "every-message-processed", "interruption-aborts-both"):
        ctx.need(k)
