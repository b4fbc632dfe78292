"""The HTTP protocol of the client: long-running operations, call sequence,
reporting, confidential uploads, retry windows, task resources."""
import re

from fcx.kit import *
from rules.base import at, P_, const_of, of_type
from rules.client_http import PT, fns, free, strv

UNITS = [r"^fcp/client/http/[a-z_]+\.cc$"]
SC = r"^fcp/client/http/[a-z_]+\.(cc|h)$"
BIG = [r"::PollOperationResponseUntilDone$", r"::CancelOperation$", r"::FetchResourcesInMemory$", r"::PerformMultipleProtocolRequests$", r"::PerformProtocolRequest$",
       r"::CreateProtocolRequest$", r"::ParseOperationProtoFromHttpResponse$", r"::ConvertRpcStatusToAbslStatus$", r"::FetchTaskResources$",
       r"::CreateDelayedInterruptibleRunner$", r"::ExtractOperationName$", r"::ProtocolRequestCreator::Create$", r"::CompressWithGzip$", r"UriSuffix$"]


def has_err(st, op):
    """Is has_error of an operation that comes out of op known on this path?"""
    for a, pol in st.facts.items():
        if a.op == "call" and isname(a, "has_error") and a.args[1] is not None and has_sub(a.args[1], is_(op)):
            return pol
    return None


def status(st, v):
    """status_of, taking the error a finished operation carries to be an error."""
    k = status_of(st, v)
    if k is None:
        x = v
        if x.op == "stcode" and x.args[0].op == "call" and isname(x.args[0], "code", "raw_code"):
            x = x.args[0].args[1]
        if x is not None and x.op == "call" and isname(x, "ConvertRpcStatusToAbslStatus") and has_sub(x, call_p("error")):
            return False
    return k


# ---- D05: long-running operations ----------------------------------------------
def d05(ctx):
    poll = fns(ctx, "ProtocolRequestHelper", "PollOperationResponseUntilDone")
    for f in poll:
        def call(r, st, c):
            if isname(c, "Sleep"):
                st.ts["slept"] = True
                a = c.args[0] if c.args else None
                if a is not None and a.op != "call" and has_sub(a, call_p("GetPollingInterval")):
                    k, m = tm._lin(a)
                    r.need(False if a.op not in ("lin", "hav", "unk") or k or any(v > 1 for v in m.values()) else None, "wait-bounded", c, "the wait is made longer than the bounded interval", st)
            if isname(c, "PerformProtocolRequest", "PerformMultipleProtocolRequests"):
                r.need(bool(st.ts.get("slept")), "waits-between-polls", c, "the server is polled again without waiting", st)
                st.ts["slept"] = False
            if isname(c, "CreateGetOperationRequest"):
                r.need(has_sub(c.args[0], lambda t: t.op == "call" and isname(t, "ExtractOperationName", "name")) or None, "polls-the-operation", c, "", st)

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            done = fact(st, lambda a: a.op == "call" and isname(a, "done"), True)
            r.need(bool(done), "only-finished-operations", at(fr, line), "an operation is handed back before it is done", st)

        def it(r, st, node, fr):
            if node[0] in ("for", "while", "do") and st.ts.get("slept") is not None:
                bad = fact(st, lambda a: a.op == "ok" and a.args[0].op == "call" and isname(a.args[0], "ParseOperationProtoFromHttpResponse", "PerformProtocolRequest"), False)
                r.need(bad is None, "failed-poll-reported", at(fr, node[1]), "polling goes on after a poll that failed", st)
        ctx.run(R(scope=SC, stops=BIG[1:] + [r"GetPollingInterval$"], call=call, ret=ret, iter=it), [f])
    ctx.need("only-finished-operations")
    ctx.need("waits-between-polls")

    # the wait is never negative nor longer than a fixed maximum
    for f in [g for g in in_files(ctx, SC) if g.body is not None and re.search(r"\bDuration$", str(g.ret)) and any("Operation" in str(p[2]) for p in g.params)]:
        def ret(r, st, v, line, fr):
            n = dur(ctx, v)
            if n is not None:
                r.need(0 < n <= 60e9, "wait-bounded", at(fr, line), "the default or longest wait is out of range", st)
                return
            if v.op == "hav" or has_sub(v, lambda t: t.op == "call" and isname(t, "min", "max", "clamp", "Clamp")):
                r.need(None, "wait-bounded", at(fr, line), "", st)
                return
            lo = fact(st, lambda a: a.op == "lt" and a.args[0] is v and dur(ctx, a.args[1]) == 0, False)
            hi = [a for a, pol in st.facts.items() if a.op == "lt" and not pol and a.args[1] is v and (dur(ctx, a.args[0]) or 0) > 0]
            r.need(bool(lo) and bool(hi), "wait-bounded", at(fr, line), "a wait chosen by the server is used without bounding it", st)
        ctx.run(R(scope=SC, ret=ret), [f])

    # users of finished operations
    users = [g for g in in_files(ctx, SC) if g.body is not None and g not in poll and list(calls_in(g, "PollOperationResponseUntilDone"))]
    wrap = [g for g in users if re.search(r"StatusOr<[\w:]*Operation>", str(g.ret))]
    users = [g for g in users if g not in wrap] + [g for g in in_files(ctx, SC) if g.body is not None and any(n[7] in {w.key for w in wrap} for n in walk(g.body) if n[0] == "call" and len(n) > 7)]
    for f in users:
        def call(r, st, c):
            op = st.ts.get("op")
            if isname(c, "UnpackTo") and op is not None and c.recv is not None and flows_from(c.recv, is_(op)):
                r.need(st.known(mk("ok", op)) is not False and (has_err(st, op) is False), "failed-operation-has-no-response", c,
                       "the response of an operation is read although it may have failed", st)
            if isname(c, "CancelOperation"):
                st.ts["cancel"] = True
                run = st.ts.get("runner")
                if run is not None and len(c.args) == 3:
                    same = c.args[2] is run or c.args[2].op == "out" and c.args[2].args[0] is op and c.args[2].args[1] == 2
                    r.need(not same, "cancel-outlives-interruption", c, "the cancellation is issued through the runner that was interrupted", st)

        def after(r, st, c, t):
            if isname(c, "PollOperationResponseUntilDone"):
                st.ts["op"] = t
                if len(c.args) == 3:
                    st.ts["runner"] = c.args[2]
                    init = c.args[0]
                    r.need(fact(st, lambda a: a.op == "ok" and flows_from(init, is_(a.args[0])), True) is not None or None, "operation-readable", c, "", st)

        def ret(r, st, v, line, fr):
            op = st.ts.get("op")
            if op is None:
                if status(st, v) is not False and not any(x for x in [v] if x.op == "hav"):
                    r.need(False, "success-needs-operation", at(fr, line), "success is reported without waiting for the operation", st)
                return
            k = status(st, v)
            okop = st.known(mk("ok", op))
            if okop is False:
                r.need(k is False, "poll-failure-reported", at(fr, line), "a failure while waiting for the operation is not reported", st)
                if re.search(r"CheckinResult|TaskAssignment|variant", str(f.ret)):
                    named = fact(st, lambda a: a.op == "ok" and call_p("ExtractOperationName")(a.args[0]), False)
                    r.need(bool(st.ts.get("cancel") or named), "abandoned-operation-cancelled", at(fr, line), "the server is not told that a pending assignment request is abandoned", st)
                return
            he = has_err(st, op)
            if he is True:
                r.need(k is False, "operation-error-reported", at(fr, line), "an operation that failed is reported as successful", st)
                cv = [a for a in tm.closure(v) if a.op == "call" and isname(a, "ConvertRpcStatusToAbslStatus")]
                r.need(bool(cv) or None, "operation-error-kept", at(fr, line), "", st)
                return
            if k is not False:
                r.need(he is False, "operation-error-reported", at(fr, line), "success is reported without checking the operation's error", st)
                un = [pol for a, pol in st.facts.items() if a.op == "call" and isname(a, "UnpackTo") and flows_from(a.args[1], is_(op))]
                r.need(True if True in un else False if not un or False in un else None, "response-readable", at(fr, line), "success is reported although the operation's response could not be read", st)
        ctx.run(R(scope=SC, stops=BIG + [r"::FetchProtoResource"], call=call, after=after, ret=ret), [f])
    ctx.need("operation-error-reported")
    ctx.need("abandoned-operation-cancelled")

    for f in free(ctx, "ExtractOperationName"):
        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            okp = fact(st, lambda a: a.op == "call" and isname(a, "StartsWith", "starts_with", "StartsWithIgnoreCase", "ConsumePrefix"), True)
            r.need(bool(okp), "operation-name-valid", at(fr, line), "a name that is not an operation's is put into a request", st)
        ctx.run(R(scope=SC, ret=ret), [f])


DUR = {"Nanoseconds": 1, "Microseconds": 1e3, "Milliseconds": 1e6, "Seconds": 1e9, "Minutes": 60e9, "Hours": 3600e9}


def dur(ctx, t):
    """Nanoseconds of a constant duration term."""
    if t.op == "call":
        n = sn(t.args[0])
        if n == "ZeroDuration":
            return 0
        if n in DUR and t.args[2] and tm.is_const(t.args[2][0]):
            v = tm.cval(t.args[2][0])
            return v * DUR[n] if isinstance(v, (int, float)) else None
        if n == "InfiniteDuration":
            return float("inf")
    if t.op == "gvar":
        g = ctx.db.globals.get(t.args[0]) if isinstance(t.args[0], str) else None
        if g:
            for n in walk(g[1]):
                if n[0] == "call" and sn(n[1]) in DUR and n[3] and n[3][0][0] in ("int", "c", "lit"):
                    return n[3][0][1] * DUR[sn(n[1])]
    return None


# ---- D06: every protocol step at most once, in order ----------------------------
NET = ("PerformProtocolRequest", "PerformMultipleProtocolRequests", "PollOperationResponseUntilDone", "FetchResourcesInMemory")
STEPS = ("EligibilityEvalCheckin", "Checkin", "PerformMultipleTaskAssignments", "ReportCompleted", "ReportNotCompleted")


def states_known(st):
    return {a_.args[0] for a, pol in st.facts.items() if a.op == "eq" and pol for a_ in a.args if a_.op == "enum" and "State::k" in a_.args[0]}


def d06(ctx):
    stops = [b for b in BIG if "UriSuffix" not in b] + [r"UriSuffix$", r"::AbortAggregation", r"::SecAggRunner::Run$", r"HttpSecAggSendToServerImpl::Create$", r"CreateTaskAssignment$",
             r"::FetchProtoResource", r"::PickRetry", r"::HandleEligibilityEvalTaskResponse$", r"::HandleTaskAssignmentOperationResponse$", r"::HandleMultipleTaskAssignments\w*Response$",
             r"::HandleStartDataAggregationUploadOperationResponse$"]
    for f in [g for n in STEPS for g in fns(ctx, "HttpFederatedProtocol", n)]:
        report = sn(f.name).startswith("Report")
        accepted, moves = set(), []

        def call(r, st, c):
            if not isname(c, *NET) or "FetchTaskResources" in c.name:
                return
            ks = states_known(st)
            r.need(bool(ks), "sequence-checked", c, "the protocol step talks to the server without checking that it may be taken now", st)
            accepted.update(ks)
            w = st.ts.get("wrote")
            r.need(w is not None, "step-taken-once", c, "the protocol step talks to the server before recording that it was taken", st)
            moves.append((c.file, c.line, st, w))

        def write(r, st, place, val, line, fr):
            if val.op == "enum" and "State::k" in val.args[0]:
                st.ts["wrote"] = val.args[0]
                st.ts["place"] = place

        def index(r, st, base, idx, line, fr):
            if report and fr.func is f and has_sub(idx, P_(f, 2)):
                ks = fact(st, lambda a: a.op == "haskey" or a.op == "call" and isname(a, "contains", "count", "find"), True)
                neq = fact(st, lambda a: a.op == "eq" and any(has_sub(x, call_p("find")) for x in a.args), False)
                r.need(bool(ks or neq), "unknown-session-refused", at(fr, line), "a report for an unknown session is accepted", st)
        ctx.run(R(scope=SC, stops=stops, call=call, write=write, index=index), [f])
        for file, line, st, w in moves:
            if w is not None and w in accepted:
                ctx.viol("step-taken-once", file, line, "the state recorded before talking to the server lets the step be taken again", st)
    ctx.need("sequence-checked", 5)
    ctx.need("unknown-session-refused")


# ---- D07: confidential aggregation ------------------------------------------------
def is_conf(st):
    """Does this path know that the task uses (True) / does not use (False) confidential aggregation?"""
    res = None
    for a, pol in st.facts.items():
        if a.op == "eq":
            e = [x for x in a.args if x.op == "enum" and "AggregationType::" in x.args[0]]
            if e:
                conf = "Confidential" in e[0].args[0]
                if conf:
                    return pol
                if pol:
                    res = False
    return res


def upload_call(c):
    return isname(c, "CreateProtocolRequest") and len(c.args) >= 5 and (has_sub(c.args[0], call_p("CreateByteStreamUploadUriSuffix")) or
                                                                      tm.is_const(c.args[4]) and not tm.cval(c.args[4]))


def clear_parts(t, secret, seal):
    """Does a value satisfying secret reach t on a way that avoids seal?"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            if isinstance(x, (tuple, list)):
                todo.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        if seal(x):
            continue
        if secret(x):
            return True
        todo.extend(x.args)
        todo.extend(tm.START.get(x, ()))
    return False


def d07(ctx):
    stops = [b for b in BIG] + [r"::AbortAggregation$", r"::EncodeClientPayload$", r"::ComputeSHA256$", r"::ReportViaSecureAggregation$", r"::RandomToken::", r"::SubmitAggregationResult$",
             r"::PerformStartDataUploadRequestAndReportTaskResult$", r"::HandleStartDataAggregationUploadOperationResponse$"]
    for f in fns(ctx, "HttpFederatedProtocol", "ReportCompleted"):
        results = P_(f, 0)
        sealed = call_p("Encrypt")

        def after(r, st, c, t):
            if isname(c, "Verify") and len(c.args) == 2:
                st.ts["verify"] = t
                st.ts["vcfg"] = c.args[1]
                st.ts["vpol"] = c.args[0]
                r.need(has_sub(c.args[0], lambda x: x.op == "fld" and "polic" in x.args[0].lower()) or None, "attested-against-policy", c, "", st)
            if isname(c, "Encrypt") and len(c.args) == 3:
                st.ts["enc"] = t
                st.ts["aad"] = c.args[2]
                v = st.ts.get("verify")
                r.need(v is not None and st.known(mk("ok", v)) is True, "attested-before-encryption", c, "data is encrypted to a key whose attestation was not verified", st)
                cfg = st.ts.get("vcfg")
                if cfg is not None:
                    k = c.args[1]
                    r.need(root(k) is root(cfg) or root(k) is v or (None if joined(root(k)) else False), "encrypted-to-attested-key", c, "data is encrypted to a key other than the attested one", st)
                r.need(True if has_sub(c.args[0], call_p("CompressWithGzip")) else None, "payload-encrypted", c, "", st)
                st.ts["gz"] = has_sub(c.args[0], call_p("CompressWithGzip"))
                hdr = [x for x in tm.closure(c.args[2]) if x.op == "upd" and sn(x.args[0]).startswith("set_")]
                names = {sn(x.args[0]): x for x in hdr}
                pol = names.get("set_access_policy_sha256")
                sha = pol is not None and any(has_sub(a, call_p("ComputeSHA256")) for a in pol.args[2])
                r.need(sha, "policy-bound", c, "the sealed data is not bound to the hash of the policy the key was attested against", st)
                if sha and st.ts.get("vpol") is not None:
                    h = [x for a in pol.args[2] for x in tm.subterms(a) if x.op == "call" and isname(x, "ComputeSHA256")]
                    vp = st.ts["vpol"]
                    r.need(any(a is vp or has_sub(a, is_(vp)) or has_sub(vp, is_(a)) for x in h for a in x.args[2]) or None, "policy-bound", c, "", st)
                r.need("set_key_id" in names, "key-named", c, "the sealed data does not name the key it was sealed to", st)
                r.need("set_blob_id" in names and any(has_sub(a, lambda x: x.op == "call" and isname(x, "Generate", "ToString")) for a in names["set_blob_id"].args[2]) if "set_blob_id" in names else False,
                       "blob-named", c, "the sealed data carries no random identifier", st)
            if isname(c, "EncodeClientPayload"):
                st.ts["payload"] = t
                e, aad = st.ts.get("enc"), st.ts.get("aad")
                if e is not None:
                    r.need(st.known(mk("ok", e)) is True, "encryption-succeeded", c, "the result of a failed encryption is used", st)
                    r.need(has_sub(c.args[0], is_(aad)), "header-authenticated", c, "the header sent along is not the one that was authenticated", st)
                    flag = [x for x in c.args[0].args[1]] if c.args[0].op == "list" else []
                    last = [x for x in flag if isinstance(x, T) and tm.is_const(x) and isinstance(tm.cval(x), bool)]
                    if len(last) == 1:
                        r.need(tm.cval(last[0]) == st.ts.get("gz"), "compression-announced", c, "the payload header misstates whether the payload is compressed", st)

        def call(r, st, c):
            if not upload_call(c):
                return
            conf = is_conf(st)
            body = c.args[3]
            clear = clear_parts(body, results, sealed)
            if conf is not False:
                r.need(not clear, "no-clear-upload", c, "results may be uploaded in the clear although the task calls for confidential aggregation", st)
            else:
                r.need(True, "plain-upload", c, "", st)
            if conf is True:
                v = st.ts.get("verify")
                r.need(v is not None and st.known(mk("ok", v)) is True, "attested-before-upload", c, "data is uploaded although the attestation was not verified", st)
                r.need(has_sub(body, sealed), "sealed-data-uploaded", c, "something other than the sealed results is uploaded", st)
        ctx.run(R(scope=SC, stops=stops, after=after, call=call), [f])
    ctx.need("no-clear-upload")
    ctx.need("attested-before-encryption")
    ctx.need("policy-bound")


# ---- D08: nothing is submitted before it was uploaded -------------------------------
def named_suffix(t, pat):
    return any(x.op == "call" and re.search(pat, sn(x.args[0])) for x in tm.subterms(t))


def d08(ctx):
    stops = [b for b in BIG] + [r"::EncodeClientPayload$", r"::ComputeSHA256$", r"::ReportViaSecureAggregation$", r"::RandomToken::", r"::Encrypt$", r"::Verify$",
             r"::PerformStartDataUploadRequestAndReportTaskResult$", r"::HandleStartDataAggregationUploadOperationResponse$"]
    roots = fns(ctx, "HttpFederatedProtocol", "ReportCompleted")
    roots += [g for g in in_files(ctx, SC) if g.body is not None and list(calls_in(g, "CreateSubmitSecureAggregationResultUriSuffix"))]
    for f in roots:
        secagg = "SecAgg" in f.name

        def after(r, st, c, t):
            if isname(c, "CreateProtocolRequest"):
                if upload_call(c):
                    nm = [x for x in tm.subterms(c.args[0]) if x.op == "call" and isname(x, "CreateByteStreamUploadUriSuffix")]
                    st.ts["up"] = st.ts.get("up", ()) + ((t, nm[0].args[2][0] if nm else None),)
                elif named_suffix(c.args[0], r"Submit\w*ResultUriSuffix"):
                    submit(r, st, c)
                    st.ts["sub"] = t
            if re.search(r"Abort\w*UriSuffix$", c.name):
                st.ts["abort"] = True
            if isname(c, "PerformProtocolRequest") and c.args:
                for u, _ in st.ts.get("up", ()):
                    if flows_from(c.args[0], is_(u)):
                        st.ts["upr"] = t
                if st.ts.get("sub") is not None and flows_from(c.args[0], is_(st.ts["sub"])):
                    st.ts["subr"] = t
            if isname(c, "PerformMultipleProtocolRequests") and st.ts.get("up"):
                st.ts["upr"] = t

        def submit(r, st, c):
            w = c
            ups = st.ts.get("up", ())
            t = st.ts.get("upr")
            r.need(bool(ups) and t is not None, "uploaded-before-submitted", w, "a result is submitted before it was uploaded", st)
            if t is None:
                return
            r.need(good(st, "upr") is True, "upload-succeeded", w, "a result is submitted although uploading it failed", st)
            if secagg:
                r.need(bool(st.ts.get("checked")), "every-upload-succeeded", w, "a result is submitted without checking that every upload succeeded", st)
            up = [n for _, n in ups if n is not None]
            got = [a for x in tm.closure(c.args[3]) if x.op == "upd" and re.search(r"^set_\w*resource_name$", sn(x.args[0])) for a in x.args[2]] + list(st.ts.get("names", ()))
            same = lambda g, n: g is n or g.op == n.op == "fld" and g.args[0] == n.args[0]
            bad = [g for g in got if not any(same(g, n) for n in up)]
            r.need(None if not got or not up or any(joined(g) for g in bad + up) else not bad,
                   "names-what-was-uploaded", w, "the submission names something other than what was uploaded", st)

        def write(r, st, place, val, line, fr):
            if place[0] == "t" and place[1].op == "call" and re.search(r"^mutable_\w*resource_name$", sn(place[1].args[0])):
                st.ts["names"] = st.ts.get("names", ()) + (val,)

        def branch(r, st, atom, pol, line, fr):
            if atom.op == "eq" and any(x.op == "enum" and x.args[0].endswith("::kAborted") for x in atom.args):
                st.ts["ab"] = pol
            for k in ("upr", "subr"):
                if st.ts.get(k) is not None and atom is mk("ok", st.ts[k]):
                    st.ts[k + "ok"] = pol

        def good(st, k):
            x = st.known(mk("ok", st.ts[k]))
            return st.ts.get(k + "ok") if x is None else x

        def reach(r, st, node, fr):
            t = st.ts.get("upr")
            if t is not None and node[0] != "do" and any(n[0] == "call" and len(n) > 4 and sn(n[1]) in ("ok", "AsStatus", "status", "Update") for n in walk(node)):
                st.ts["checked"] = True

        def it(r, st, node, fr):
            t = st.ts.get("upr")
            if secagg and t is not None:
                bad = fact(st, lambda a: a.op == "ok" and a.args[0] is not t and has_sub(a.args[0], is_(t)), False)
                good = fact(st, lambda a: a.op == "ok" and a.args[0] is not t and has_sub(a.args[0], is_(t)), True)
                if bad or good:
                    r.need(not bad, "every-upload-succeeded", (fr.file, node[1]), "the protocol goes on although an upload failed", st)

        def ret(r, st, v, line, fr):
            k = status_of(st, v)
            t = st.ts.get("upr")
            if t is None or secagg:
                return
            okt = good(st, "upr")
            if okt is False:
                r.need(k is False, "upload-failure-reported", at(fr, line), "a failed upload is reported as success", st)
                r.need(bool(st.ts.get("abort") or st.ts.get("ab")), "failed-upload-aborts", at(fr, line), "the server is not told that the upload failed", st)
            elif k is not False:
                s = st.ts.get("subr")
                r.need(s is not None and good(st, "subr") is True, "success-means-submitted", at(fr, line), "success is reported although the result was not submitted", st)
        ctx.run(R(scope=SC, stops=stops, after=after, branch=branch, write=write, reach=reach, iter=it, ret=ret), [f])
    ctx.need("uploaded-before-submitted", 2)
    ctx.need("success-means-submitted")


# ---- D09: retry windows --------------------------------------------------------------
FPU = r"^fcp/client/federated_protocol_util\.(cc|h)$"


def zero(t):
    return t.op == "call" and (isname(t, "ZeroDuration") or isname(t, "max", "min") and all(zero(x) for x in t.args[2])) or \
        t.op == "arith" and t.args[0] == "*" and any(zero(x) for x in t.args[1:3]) or tm.is_const(t) and tm.cval(t) in (0, 0.0)


def nonneg(st, t, d=0):
    if d > 8:
        return False
    if zero(t) or tm.is_const(t) and isinstance(tm.cval(t), (int, float)) and tm.cval(t) >= 0:
        return True
    if t.op == "call" and isname(t, "max") and any(nonneg(st, x, d + 1) for x in t.args[2]):
        return True
    if t.op == "call" and isname(t, "min") and all(nonneg(st, x, d + 1) for x in t.args[2]):
        return True
    if t.op == "call" and isname(t, "Uniform") and len(t.args[2]) >= 3:
        return nonneg(st, t.args[2][-2], d + 1)
    if t.op == "call" and isname(t, "clamp") and len(t.args[2]) == 3:
        return nonneg(st, t.args[2][1], d + 1)
    if t.op == "arith" and t.args[0] in ("*", "/"):
        return nonneg(st, t.args[1], d + 1) and nonneg(st, t.args[2], d + 1)
    for a, pol in st.facts.items():
        if a.op == "lt" and not pol and a.args[0] is t and zero(a.args[1]):
            return True
        if a.op == "lt" and pol and a.args[1] is t and zero(a.args[0]):
            return True
        if a.op == "lt" and tm.is_const(a.args[0]) and a.args[1] is t and pol and isinstance(tm.cval(a.args[0]), (int, float)) and tm.cval(a.args[0]) >= -1:
            return True
    if t.op == "lin":
        c, m = tm._lin(t)
        pos = [x for x, k in m.items() for _ in range(int(k)) if k > 0]
        negs = [x for x, k in m.items() for _ in range(int(-k)) if k < 0]
        if c < 0:
            # something at least as large as the missing constant
            for x in pos:
                if x.op == "call" and isname(x, "max") and any(tm.is_const(y) and tm.cval(y) >= -c for y in x.args[2]):
                    pos.remove(x)
                    break
            else:
                return False
        for n in negs:
            for p in pos:
                if p is not n and at_or_above(st, p, n, d + 1) or p is n:
                    pos.remove(p)
                    break
            else:
                return c >= 1 and len(negs) == 1 and any(f.op == "lt" and not pol and tm.is_const(f.args[0]) and tm.cval(f.args[0]) <= c and f.args[1] is n for f, pol in st.facts.items()) or \
                    c >= 1 and len(negs) == 1 and n.op == "call" and (isname(n, "min") and any(tm.is_const(y) and tm.cval(y) <= c for y in n.args[2]) or
                                                                       isname(n, "clamp") and tm.is_const(n.args[2][2]) and tm.cval(n.args[2][2]) <= c or isname(n, "Uniform") and tm.is_const(n.args[2][-1]) and tm.cval(n.args[2][-1]) <= c) and all(nonneg(st, p, d + 1) for p in pos)
        return all(nonneg(st, p, d + 1) for p in pos)
    return False


def at_or_above(st, a, b, d=0):
    """a >= b is known."""
    if a is b:
        return True
    if d > 8:
        return False
    if a.op == "call" and isname(a, "max") and any(at_or_above(st, x, b, d + 1) for x in a.args[2]):
        return True
    if b.op == "call" and isname(b, "min") and any(at_or_above(st, a, x, d + 1) for x in b.args[2]):
        return True
    for f, pol in st.facts.items():
        if f.op == "lt" and (not pol and f.args[0] is a and f.args[1] is b or pol and f.args[0] is b and f.args[1] is a):
            return True
    if a.op == "lin" or b.op == "lin":
        return nonneg(st, tm.add(a, b, -1), d + 1)
    return False


def d09(ctx):
    def spread(st, D):
        """D = lo + (hi - lo) * u  ->  (lo, hi, u)"""
        c, m = tm._lin(D)
        for x, k in m.items():
            if k == 1 and x.op == "arith" and x.args[0] == "*":
                for w, u in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                    if u.op == "call" and isname(u, "Uniform"):
                        rest = tm.add(D, x, -1)
                        return rest, tm.add(rest, w), u
        return None

    def inrange(r, st, D, at_, what):
        if has_sub(D, lambda t: joined(t)):
            r.need(None, "delay-in-window", at_, "", st)
            return None
        r.need(nonneg(st, D), "delay-not-negative", at_, "a retry delay may be negative", st)
        sp = spread(st, D)
        if sp is None:
            r.need(None, "delay-in-window", at_, "", st)
            return None
        lo, hi, u = sp
        n = [tm.cval(x) for x in u.args[2] if tm.is_const(x)]
        r.need(len(n) >= 2 and n[-2] == 0 and n[-1] == 1, "delay-in-window", at_, "the random part of a retry delay does not spread over exactly the window", st)
        r.need(at_or_above(st, hi, lo), "delay-in-window", at_, "the random part of a retry delay may be negative", st)
        return lo, hi

    def src(t, p, sub):
        return has_sub(t, lambda x: x.op == "call" and isname(x, sub) and x.args[1] is not None and has_sub(x.args[1], p))
    for f in [g for g in in_files(ctx, FPU) if sn(g.name) == "PickRetryTimeFromRange" and g.body is not None]:
        def ret(r, st, v, line, fr):
            D = v
            now = [x for x, k in tm._lin(v)[1].items() if x.op == "call" and isname(x, "Now")]
            if len(now) != 1:
                r.need(False if not now else None, "counted-from-now", at(fr, line), "the retry time is not counted from now", st)
                return
            D = tm.add(v, now[0], -1)
            lh = inrange(r, st, D, at(fr, line), "")
            if lh:
                lo, hi = lh
                r.need(all(src(lo, P_(f, 0), n) for n in ("seconds", "nanos")) and not has_sub(lo, P_(f, 1)), "window-used", at(fr, line), "the earliest retry is not the start of the window", st)
                r.need(all(src(hi, P_(f, 1), n) for n in ("seconds", "nanos")), "window-used", at(fr, line), "the latest retry is not the end of the window", st)
                r.need(not any(k > 0 and has_sub(x, P_(f, 0)) and not has_sub(x, P_(f, 1)) for x, k in tm._lin(hi)[1].items()), "window-used", at(fr, line), "the latest retry lies after the end of the window", st)
        ctx.run(R(scope=FPU, ret=ret), [f])
    for f in [g for g in in_files(ctx, FPU) if sn(g.name) in ("GenerateRetryWindowFromTargetDelay", "GenerateRetryWindowFromRetryTime") and g.body is not None]:
        def write(r, st, place, val, line, fr):
            if place[0] == "t" and place[1].op == "call" and isname(place[1], "mutable_delay_min", "mutable_delay_max"):
                D = val.args[2][0] if val.op == "call" and isname(val, "ConvertAbslToProtoDuration") else None
                w = sn(place[1].args[0])
                st.ts[w] = val
                if D is None:
                    r.need(None, "delay-not-negative", at(fr, line), "", st)
                elif sn(f.name).endswith("TargetDelay"):
                    lh = inrange(r, st, D, at(fr, line), "")
                    if lh:
                        lo, hi = lh
                        r.need((zero(lo) or has_sub(lo, P_(f, 0))) and has_sub(hi, P_(f, 0)), "window-used", at(fr, line), "the delay is not taken around the target", st)
                        j = [x for x in tm.subterms(lo) if x.op == "lin" and has_sub(x, P_(f, 1)) and not has_sub(x, P_(f, 0))]
                        for e in (lo, hi):
                            for x in tm.subterms(e):
                                if x.op == "lin" and has_sub(x, P_(f, 1)) and not has_sub(x, P_(f, 0)):
                                    k0, m0 = tm._lin(x)
                                    r.need(None if k0 != 1 or len(m0) != 1 else all(abs(q) == 1 for q in m0.values()), "jitter-bounded", at(fr, line), "the delay deviates by more than the jitter share", st)
                                    r.need(not has_sub(x, lambda t: t.op == "arith" and t.args[0] == "*" and has_sub(t, P_(f, 1)) and any(tm.is_const(y) and tm.cval(y) > 1 for y in t.args[1:3])),
                                           "jitter-bounded", at(fr, line), "the delay deviates by more than the jitter share", st)
                        if j:
                            r.need(all(nonneg(st, x) for x in j), "jitter-bounded", at(fr, line), "the jitter may exceed the target delay", st)
                else:
                    r.need(nonneg(st, D), "delay-not-negative", at(fr, line), "a retry delay may be negative", st)
                    if zero(D) and fact(st, lambda a: a.op == "lt" and has_sub(a, P_(f, 0))):
                        return
                    r.need(has_sub(D, P_(f, 0)) and has_sub(D, call_p("Now")), "window-used", at(fr, line), "the delay does not lead to the chosen time", st)
                    for x in tm.subterms(D):
                        m0 = tm._lin(x)[1] if x.op == "lin" else {}
                        if any(call_p("Now")(y) for y in m0) and any(P_(f, 0)(y) for y in m0):
                            r.need(all(q == (-1 if call_p("Now")(y) else 1) for y, q in m0.items()), "window-used", at(fr, line), "the delay does not lead from now to the chosen time", st)

        def ret(r, st, v, line, fr):
            a, b = st.ts.get("mutable_delay_min"), st.ts.get("mutable_delay_max")
            r.need(a is not None and b is not None and a is b if (a is not None or b is not None) else None, "window-complete", at(fr, line), "only one end of the retry window is set", st)
        ctx.run(R(scope=FPU, write=write, ret=ret), [f])
    ctx.need("delay-not-negative")
    ctx.need("delay-in-window")

    # which window is used after which outcome
    for f in fns(ctx, "HttpFederatedProtocol", "GetLatestRetryWindow"):
        def ret(r, st, v, line, fr):
            known = [a_.args[0] for a, pol in st.facts.items() if a.op == "eq" and pol for a_ in a.args if a_.op == "enum" and "State::k" in a_.args[0]]
            if len(known) != 1:
                r.need(None, "window-by-outcome", at(fr, line), "", st)
                return
            s = sn(known[0])[1:]
            perm = has_sub(v, lambda x: x.op == "call" and "permanent_error" in x.args[0])
            trans = has_sub(v, lambda x: x.op == "call" and "transient_error" in x.args[0])
            acc = has_sub(v, lambda x: x.op == "fld" and x.args[0].endswith("if_accepted"))
            rej = has_sub(v, lambda x: x.op == "fld" and x.args[0].endswith("if_rejected"))
            if not (perm or trans or acc or rej):
                r.need(None, "window-by-outcome", at(fr, line), "", st)
                return
            if s.endswith("PermanentError"):
                good = perm
            elif s == "ReportCalled":
                good = acc
            elif re.search(r"Rejected|Disabled|Enabled|NoAvailable|Partial", s):
                good = rej
            elif s.endswith("Failed") or s == "Initialized":
                got = fact(st, lambda a: a.op == "has")
                good = rej if got and got[1] else trans if got else rej or trans
            else:
                good = acc or rej
            r.need(bool(good), "window-by-outcome", at(fr, line), "after %s the retry window of another outcome is used" % s, st)
            if acc or rej:
                r.need(fact(st, lambda a: a.op == "has", True) is not None, "window-received", at(fr, line), "a retry window is used that was never received", st)
        ctx.run(R(scope=SC, stops=[r"::GetTheLatestStateFromAllTasks$", r"::GenerateRetryWindow"], ret=ret), [f])
        en = next((v for k, v in ctx.db.enums.items() if k.endswith("::ObjectState")), None)
        sw = [n for n in walk(f.body) if n[0] == "switch"]
        if en and len(sw) == 1:
            cases = {e[1].rsplit("::", 1)[-1] for n in walk(sw[0]) if n[0] == "case" for e in walk(n) if e[0] == "enum"}
            dflt = any(n[0] == "default" for n in walk(sw[0]))
            miss = [] if dflt else [e[0] for e in en if e[0] not in cases]
            if cases:
                ctx.check("every-outcome-covered", f.rel(), f.line, not miss, "no retry window for outcome " + ", ".join(miss))
    ctx.need("window-by-outcome")

    # windows as received
    for f in [g for g in in_files(ctx, SC) if g.body is not None and list(calls_in(g, "PickRetryTimeFromRange"))]:
        def call(r, st, c):
            if isname(c, "PickRetryTimeFromRange") and len(c.args) == 3:
                a, b = c.args[0], c.args[1]
                if a.op == b.op == "call":
                    r.need(sn(a.args[0]) == "delay_min" and sn(b.args[0]) == "delay_max" and a.args[1] is b.args[1], "window-as-received", c, "a retry time is not picked from one window's start and end", st)

        def write(r, st, place, val, line, fr):
            if val.op == "list" and place[0] == "f" and any(has_sub(x, call_p("PickRetryTimeFromRange")) for x in val.args[1] if isinstance(x, T)):
                cl = ctx.db.classes.get(val.args[0])
                fl = [x[0].rsplit("::", 1)[-1] for x in cl["fields"]] if isinstance(cl, dict) and "fields" in cl else None
                if fl is None:
                    fl = [k.rsplit("::", 1)[-1] for k in ctx.db.fields if k.rsplit("::", 1)[0] == val.args[0]]
                if len(fl) == len(val.args[1]):
                    for n, x in zip(fl, val.args[1]):
                        want = "accepted" if "accepted" in n else "rejected"
                        r.need(has_sub(x.args[2][0] if x.op == "call" else x, lambda y: y.op == "call" and sn(y.args[0]).endswith("if_" + want)), "window-as-received", at(fr, line),
                               "the %s retry time comes from another window" % want, st)
                st.ts["times"] = True
            elif place[0] == "f" and val.op == "enum" and "State::k" in val.args[0] and not re.search("Failed", val.args[0]):
                r.need(bool(st.ts.get("times")), "window-before-outcome", at(fr, line), "an outcome is recorded before its retry window", st)
        ctx.run(R(scope=SC, stops=BIG + [r"::FetchProtoResource"], call=call, write=write), [f])
    ctx.need("window-as-received")

    # permanent errors are told apart on every failed step
    stops = BIG + [r"::HandleEligibilityEvalTaskResponse$", r"::HandleTaskAssignmentOperationResponse$", r"::HandleMultipleTaskAssignments\w*Response$", r"::Perform\w+$"]
    for f in [g for n in STEPS[:3] for g in fns(ctx, "HttpFederatedProtocol", n)]:
        def write(r, st, place, val, line, fr):
            if val.op == "enum" and "State::k" in val.args[0]:
                st.ts["wrote"] = sn(val.args[0])

        def ret(r, st, v, line, fr):
            if status_of(st, v) is True:
                return
            con = [(a, pol) for a, pol in st.facts.items() if a.op in ("call", "haskey") and (a.op == "haskey" or isname(a, "contains", "count")) and has_sub(a, lambda x: x.op == "call" and isname(x, "code", "raw_code"))]
            if not con:
                r.need(False if not any(joined(x) for x in tm.subterms(v)) else None, "permanent-errors-recognised", at(fr, line), "a failed step is not checked for a permanent error", st)
                return
            if con[-1][1]:
                r.need(str(st.ts.get("wrote")).endswith("PermanentError"), "permanent-errors-recognised", at(fr, line), "a permanent error is recorded as a passing one", st)
        ctx.run(R(scope=SC, stops=stops, write=write, ret=ret), [f])
    ctx.need("permanent-errors-recognised")


# ---- D10: a task runs with its own resources, all of them ------------------------------
RES = {"plan": "plan", "checkpoint": "init_checkpoint", "confidential_data_access_policy": "data_access_policy"}


def d10(ctx):
    def pushes(node, ty):
        return any(n[0] == "call" and sn(n[1]) in ("push_back", "emplace_back") and ty in (n[9] or "") for n in walk(node))

    def field_of(t):
        for x in tm.subterms(t):
            if x.op == "call" and isname(x, "ConvertResourceToUriOrInlineData") and x.args[2][0].op == "fld":
                return sn(x.args[2][0].args[0])
        return None
    order = set()
    for f in [g for g in in_files(ctx, SC) if g.body is not None and list(calls_in(g, "FetchResourcesInMemory")) and any(n[0] in ("for", "rfor", "while") for n in walk(g.body))
              and pushes(g.body, "UriOrInlineData")]:
        def loop(r, st, node, fr):
            if node[0] != "do":
                st.ts["uris"], st.ts["slots"], st.ts["adv"], st.ts["made"], st.ts["good"] = (), (), 0, False, None

        def branch(r, st, atom, pol, line, fr):
            if atom.op == "ok" and atom.args[0].op == "elem":
                st.ts["good"] = pol

        def call(r, st, c):
            if isname(c, "push_back", "emplace_back") and "uris" in st.ts:
                if "UriOrInlineData" in (c.recvtype or ""):
                    st.ts["uris"] += (field_of(c.args[0]) if c.args else None,)
                elif "FetchedTaskResources" in (c.recvtype or ""):
                    st.ts["slots"] += (status_of(st, c.args[0]) if c.args and c.args[0].op != "list" else True,)
            if c.kind == "list" and c.name.endswith("::FetchedTaskResources") and len(c.args) == 2:
                parts = [c.args[0].args[1][0], c.args[0].args[1][1], c.args[1]] if c.args[0].op == "list" and len(c.args[0].args[1]) == 2 else None
                base = []
                for p in parts or []:
                    b = next((x.args[1] for x in tm.subterms(p) if x.op == "fld" and x.args[0].endswith("InMemoryHttpResponse::body")), None)
                    base.append(b)
                if not parts or any(b is None for b in base):
                    return
                for b, w in zip(base, RES):
                    k = st.known(tm.mk("ok", b))
                    r.need(True if k else None if k is None and b.op == "out" else False, "every-resource-arrived", c, "a task is handed over although its %s could not be fetched" % w, st)
                off = []
                root = None
                for b in base:
                    cc, m = tm._lin(b)
                    if len(m) == 1:
                        x = next(iter(m))
                        if root is None or x is root:
                            root = x
                            off.append(cc)
                if len(off) == 3 and order:
                    o = next(iter(order))
                    for k, w in zip(off, RES):
                        r.need(0 <= k < len(o) and o[k] == w, "resource-in-its-place", c, "the response to another request is used as the %s" % w, st)
                st.ts["made"] = True

        def write(r, st, place, val, line, fr):
            if place[0] == "v" and val.op == "lin" and "adv" in st.ts:
                cc, m = tm._lin(val)
                if len(m) == 1 and next(iter(m)).op == "hav" and next(iter(m)).args[1] in (place, place[1:]):
                    st.ts["adv"] = cc

        def it(r, st, node, fr):
            if pushes(node, "UriOrInlineData"):
                s, u = st.ts.get("slots", ()), st.ts.get("uris", ())
                if None in s or None in u:
                    r.need(None, "one-result-per-task", at(fr, node[1]), "", st)
                    return
                r.need(len(s) == 1, "one-result-per-task", at(fr, node[1]), "a task gets no result or several", st)
                if s == (True,):
                    r.need(sorted(u) == sorted(RES), "every-resource-requested", at(fr, node[1]), "not every resource of the task is requested once", st)
                    order.add(u)
                elif s:
                    r.need(not u, "failed-task-requests-nothing", at(fr, node[1]), "resources of a failed task are requested, shifting the responses of the tasks after it", st)
            elif order and (st.ts.get("made") or st.ts.get("good") is not None):
                n = len(next(iter(order)))
                if not st.ts.get("adv") and st.ts.get("made"):
                    r.need(None, "responses-in-step", at(fr, node[1]), "", st)
                else:
                    if st.ts.get("good") is not None:
                        r.need(st.ts["adv"] == (n if st.ts["good"] else 0), "responses-in-step", at(fr, node[1]), "the responses get out of step with the tasks", st)
        ctx.run(R(scope=SC, stops=[r"::ConvertResourceToUriOrInlineData$", r"::FetchResourcesInMemory$"], loop=loop, branch=branch, call=call, write=write, iter=it), [f])
    ctx.need("one-result-per-task")
    ctx.need("every-resource-arrived")

    for f in [g for g in in_files(ctx, SC) if g.body is not None and list(calls_in(g, "FetchTaskResources"))]:
        paths = []

        # the request of one task
        def call(r, st, c):
            if c.kind == "list" and c.name.endswith("::TaskResources") and len(c.args) == 3:
                own = None
                for a, (w, acc) in zip(c.args, RES.items()):
                    if a.op != "call":
                        continue
                    if a.args[1] is None or isname(a, "Resource"):
                        continue
                    r.need(isname(a, acc), "own-resources", c, "the %s of a task is requested from another field" % w, st)
                    b = a.args[1]
                    if b.op == "call" and isname(b, "confidential_aggregation_info"):
                        b = b.args[1]
                    r.need(own is None or b is own, "own-resources", c, "resources of two tasks are mixed", st)
                    own = b
            if isname(c, "push_back", "emplace_back") and "pend" in st.ts:
                k = "res" if "TaskResources" in (c.recvtype or "") else "pend" if "TaskAssignment" in (c.recvtype or "") else None
                if k:
                    st.ts[k] += 1

        def loop(r, st, node, fr):
            if node[0] != "do":
                st.ts["res"], st.ts["pend"], st.ts["adv"], st.ts["entry"] = 0, 0, None, None

        def write(r, st, place, val, line, fr):
            if place[0] == "f" and place[2].endswith("::payloads"):
                st.ts["pay"] = True
                b = next((x.args[1] for x in tm.subterms(val) if x.op == "fld" and x.args[0].endswith("::plan_and_checkpoint_payloads")), None)
                if b is not None:
                    k = st.known(tm.mk("ok", b))
                    r.need(k is True, "payloads-were-fetched", at(fr, line), "a task gets the resources of a failed fetch", st)
                if val.op == "fld" and b is None:
                    r.need(None, "payloads-were-fetched", at(fr, line), "", st)
            elif place[0] == "f" and place[2].endswith("::object_state_") and val.op == "enum" and re.search("kCheckinAccepted$", val.args[0]):
                r.need(bool(st.ts.get("pay")), "accepted-with-resources", at(fr, line), "a task counts as accepted without its resources", st)
            elif place[0] == "i" and place[1].op == "fld" and place[1].args[0].endswith("::task_assignments"):
                st.ts["entry"] = (place[2], status_of(st, val), val)
                if val.op in ("elem",):
                    kb = next((x for x in tm.subterms(place[2]) if x.op == "elem"), None)
                    r.need(kb is val, "entry-of-this-task", at(fr, line), "a task is recorded under another task's name", st)
            elif place[0] == "v" and val.op == "lin" and "adv" in st.ts:
                cc, m = tm._lin(val)
                if len(m) == 1 and next(iter(m)).op == "hav" and next(iter(m)).args[1] in (place, place[1:]):
                    st.ts["adv"] = cc

        def it(r, st, node, fr):
            if pushes(node, "TaskResources"):
                n, p = st.ts.get("res", 0), st.ts.get("pend", 0)
                r.need(n == p and n <= 1, "requests-in-step", at(fr, node[1]), "requests and tasks get out of step", st)
                if n == 0:
                    e = st.ts.get("entry")
                    r.need(e is not None and e[1] is not True, "every-task-answered", at(fr, node[1]), "a task is dropped without an error", st)
            elif st.ts.get("entry") is not None or st.ts.get("adv") is not None:
                if not r.eng.muted:
                    paths.append((at(fr, node[1]), st.ts.get("adv"), st))
                e = st.ts.get("entry")
                r.need(e is not None, "every-task-answered", at(fr, node[1]), "a task is dropped without an error", st)
        ctx.run(R(scope=SC, stops=BIG + [r"::FetchTaskResources$", r"::FetchProtoResource$", r"::CreatePerTaskInfo\w*$"], call=call, loop=loop, write=write, iter=it), [f])
        if any(p[1] for p in paths):
            for w, adv, st in paths:
                ctx.ob("results-in-step", w[0], w[1])
                if adv != 1:
                    ctx.viol("results-in-step", w[0], w[1], "results and tasks get out of step", st)
    ctx.need("payloads-were-fetched")
    ctx.need("own-resources")

    for f in [g for g in in_files(ctx, SC) if g.body is not None and sn(g.name) == "FetchProtoResource"]:
        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            p = fact(st, lambda a: a.op == "call" and isname(a, "ParseFromStringOrCord", "ParseFromString", "ParseFromCord", "ParsePartialFromString"))
            if has_sub(v, joined) or status_of(st, v) is None and v.op == "call":
                r.need(None if p is None else True, "resource-readable", at(fr, line), "", st)
                return
            r.need(p is not None and p[1], "resource-readable", at(fr, line), "a resource that cannot be read is used", st)
        ctx.run(R(scope=SC, stops=BIG + [r"::ConvertResourceToUriOrInlineData$", r"::FetchResourcesInMemory$"], ret=ret), [f])
