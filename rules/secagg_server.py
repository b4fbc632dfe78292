"""Rules over the secure aggregation server."""
import re

from fcx.kit import *
from fcx.engine import Engine, okness

UNITS = [r"^fcp/secagg/server/", r"^fcp/secagg/shared/"]
SCOPE = r"^fcp/secagg/server/(?!secagg_trace|graph_parameter|distribution)"
BASE = "fcp::secagg::SecAggServerState"
IMPL = "fcp::secagg::SecAggServerProtocolImpl"
# bookkeeping that cannot change protocol state
QUIET = [r"::MessageReceived$", r"::StateName$", r"MessageType$"]

# message accepted in a round: (status required before, status after)
ROUNDS = {
    "advertise_keys": ("READY_TO_START", "ADVERTISE_KEYS_RECEIVED"),
    "share_keys_response": ("ADVERTISE_KEYS_RECEIVED", "SHARE_KEYS_RECEIVED"),
    "masked_input_response": ("SHARE_KEYS_RECEIVED", "MASKED_INPUT_RESPONSE_RECEIVED"),
    "unmasking_response": ("MASKED_INPUT_RESPONSE_RECEIVED", "UNMASKING_RESPONSE_RECEIVED"),
}
DEAD = ("DEAD_BEFORE_SENDING_ANYTHING", "DEAD_AFTER_ADVERTISE_KEYS_RECEIVED", "DEAD_AFTER_SHARE_KEYS_RECEIVED",
        "DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED", "DEAD_AFTER_UNMASKING_RESPONSE_RECEIVED")
MIN = lambda t: t.op == "fld" and sn(t.args[0]) == "minimum_number_of_clients_to_proceed_" or call_p("minimum_number_of_clients_to_proceed")(t)
TOTAL = lambda t: t.op == "fld" and sn(t.args[0]) == "total_number_of_clients_" or call_p("total_number_of_clients")(t)


def state_classes(ctx):
    db = ctx.db
    out, todo = [], [BASE]
    while todo:
        b = todo.pop()
        for n, c in db.classes.items():
            if b in [re.sub(r"<.*", "", x) for x in c["bases"]] and n not in out:
                out.append(n)
                todo.append(n)
    if len(out) < 6:
        raise AnalysisError("anchor vanished: server state classes (found %s)" % out)
    return sorted(out)


def method(ctx, cls, short):
    return sorted([f for f in ctx.db.funcs.values() if f.cls == cls and f.short == short and f.body is not None], key=lambda f: f.line)


def is_a(ctx, cls, base):
    seen, todo = set(), [cls]
    while todo:
        c = todo.pop()
        if c == base:
            return True
        if c in seen:
            continue
        seen.add(c)
        todo += [re.sub(r"<.*", "", x) for x in ctx.db.classes.get(c, {"bases": []})["bases"]]
    return False


def STATUS(i):
    """A client's status, looked up by the id term i."""
    return lambda t: t.op == "idx" and t.args[1] is i or t.op == "call" and sn(t.args[0]) == "client_status" and t.args[2] and t.args[2][-1] is i


def status_write(place, val):
    return place[0] == "i" and isinstance(val, T) and val.op == "enum" and "ClientStatus" in val.args[0]


def now(st, i):
    """Status of client i as overwritten on this path (None: not overwritten)."""
    for p, v in st.mem.items():
        if p[0] == "i" and p[2] is i and isinstance(v, T) and v.op == "enum" and "ClientStatus" in v.args[0]:
            return sn(v.args[0])
    return None


def alive(st, i):
    """Client i is known not to be dropped."""
    if now(st, i) in DEAD:
        return False
    if now(st, i):
        return True
    pos = fact(st, lambda a: a.op == "eq" and a.args[0].op == "enum" and sn(a.args[0].args[0]) not in DEAD
               and "ClientStatus" in a.args[0].args[0] and STATUS(i)(a.args[1]), True)
    return bool(pos) or all(enum_not(st, STATUS(i), d) for d in DEAD)


def dead(st, i):
    return now(st, i) in DEAD or bool(enum_is(st, STATUS(i), *DEAD))


def is_send(c):
    return isname(c, "fcp::secagg::SendToClientsInterface::Send")


def fld(st, name):
    """Current value of a member of the state object."""
    for p, v in st.mem.items():
        if p[0] == "f" and p[1] is THIS and sn(p[2]) == name:
            return v
    return mk("fld", BASE + "::" + name, THIS, st.epoch.get(THIS, 0))


def delta(st, name):
    """Change of an integer member along the path (None if not a constant)."""
    v = fld(st, name)
    if v.op == "fld":
        return 0
    c, m = tm._lin(v)
    if len(m) == 1 and list(m.values()) == [1] and next(iter(m)).op == "fld" and sn(next(iter(m)).args[0]) == name:
        return c
    return None


# ---- S07 ------------------------------------------------------------------------
MUT = ("HandleMessage", "AbortClient", "Abort", "ProceedToNextRound")


def s07(ctx):
    ms = methods(ctx, "fcp::secagg::SecAggServer")
    pub = [f for f in ms if f.access == 0 and f.kind != "ctor"]

    def call(r, st, c):
        if c.name.startswith(BASE + "::") and c.short in MUT:
            for q, what in (("IsAborted", "has aborted"), ("IsCompletedSuccessfully", "has completed")):
                k = fact(st, call_p(q), False)
                r.need(bool(k) or (None if opaque(st, lambda t: t.op == "fld" and "state" in sn(t.args[0])) else False),
                       "terminal-check-first", c, "%s acts on the session without establishing that it %s not" % (c.short, what.replace("has ", "has ")), st)
            if c.short in ("HandleMessage", "AbortClient") and c.args:
                i = c.args[0]
                r.need(at_least(st, TOTAL, is_(i), 1), "client-id-checked", c, "client id used without being checked against the number of clients", st)
    ctx.run(R(scope=r"^fcp/secagg/server/secagg_server\.cc", call=call), pub)
    ctx.need("terminal-check-first", 3)
    ctx.need("client-id-checked", 2)
    # client ids are unsigned; comparing them as signed numbers lets the large ones through
    for f in ms:
        us = [p for p in f.params if re.search(r"unsigned|uint", p[2])]
        if us and f.body is not None:
            signed = [n for n in walk(f.body) if n[0] == "op" and n[1] in ("<", ">", "<=", ">=") and any(
                y[0] == "cast" and re.search(r"^(int|short|long|signed char|int(8|16|32)_t)$", str(y[1])) and plain(y[2])[0] == "var" and plain(y[2])[1] in [p[1] for p in us]
                for y in walk([n[2], n[3]]))]
            ctx.check("client-id-compared-unsigned", f.rel(), f.line, not signed, "a client id is compared as a signed number, so large ids pass")

    # the state object is replaced in one place, entered right after, and never with null
    def w(r, st, place, val, line, fr):
        if place[0] == "f" and place[1] is THIS and sn(place[2]) == "state_":
            st.ts["entered"] = 0

    def c2(r, st, c):
        if c.name == BASE + "::EnterState":
            st.ts["entered"] = 1

    def ret(r, st, v, line, fr):
        if "entered" in st.ts:
            r.need(st.ts["entered"] == 1, "state-entered", (fr.file, line), "the session moves to a new state without entering it", st)
    ctx.run(R(scope=r"^fcp/secagg/server/secagg_server\.cc", call=c2, write=w, ret=ret), [f for f in pub if f.short != "Create"])
    ctx.need("state-entered")

    # terminal answers of the state classes
    for cls in state_classes(ctx):
        for q, want in (("IsAborted", "Aborted"), ("IsCompletedSuccessfully", "Completed")):
            f = resolve(ctx, cls, q)

            def ret2(r, st, v, line, fr, cls=cls, want=want):
                exp = want in sn(cls)
                t = True if v is TRUE else False if v is FALSE else st.known(v)
                if t is None:
                    by_kind = has_sub(v, lambda x: x.op == "fld" and "kind" in sn(x.args[0]) or x.op == "call" and sn(x.args[0]) == "State")
                    r.need(None if by_kind else False, "terminal-state-answers", (fr.file, line), "%s does not always answer %s to the terminal-state query" % (sn(cls), exp), st)
                    return
                r.need(t == exp, "terminal-state-answers", (fr.file, line), "%s answers %s to the terminal-state query" % (sn(cls), t), st)
            ctx.run(R(scope=SCOPE, ret=ret2), [f])
    ctx.need("terminal-state-answers", 3)

    # dropping a client or aborting is impossible for a finished session and
    # changes nothing for a client already gone
    f = method(ctx, BASE, "AbortClient")

    def call3(r, st, c):
        if c.short == "HandleAbortClient" or is_send(c):
            i = c.args[0]
            r.need(all(enum_not(st, STATUS(i), d) for d in DEAD),
                   "dropped-client-left-alone", c, "a client already dropped is dropped or notified again", st)
    if f:
        ctx.run(R(scope=SCOPE, stops=QUIET, call=call3), f)
        ctx.need("dropped-client-left-alone")


def resolve(ctx, cls, op):
    while cls:
        fs = method(ctx, cls, op)
        if fs:
            return fs[0]
        bs = [re.sub(r"<.*", "", b) for b in ctx.db.classes[cls]["bases"]]
        cls = bs[0] if bs and bs[0] in ctx.db.classes else None
    raise AnalysisError("anchor vanished: %s" % op)


# ---- S08 ------------------------------------------------------------------------
READY = "number_of_clients_ready_for_next_round_"
MSGS = "number_of_messages_received_in_this_round_"
BEFORE = "number_of_clients_failed_before_sending_masked_input_"
AFTER = "number_of_clients_failed_after_sending_masked_input_"
TERM = "number_of_clients_terminated_without_unmasking_"


def content(t):
    """Name of the client message content a term was taken from."""
    for x in tm.closure(t):
        if x.op == "call":
            n = sn(x.args[0])
            n = n[8:] if n.startswith("mutable_") else n
            if n in ROUNDS and "ClientToServerWrapperMessage" in x.args[0]:
                return n
    return None


def s08(ctx):
    hs = []
    for cls in state_classes(ctx):
        hs += method(ctx, cls, "HandleMessage")
    if len(hs) < 4:
        raise AnalysisError("anchor vanished: server HandleMessage")
    counters = [f for f in (READY, MSGS) if BASE + "::" + f in ctx.db.fields]

    def call(r, st, c):
        if is_a(ctx, c.name.rsplit("::", 1)[0], IMPL) and c.args:
            k = next((content(a) for a in c.args if isinstance(a, T) and content(a)), None)
            if not k or c.short.startswith("set_client"):
                return
            cid = mk_param(r)
            r.need(bool(enum_is(st, STATUS(cid), ROUNDS[k][0])), "expected-status", c,
                   "a %s message is handled although the client's status may not be %s" % (k, ROUNDS[k][0]), st)
            has = fact(st, call_p("has_" + k), True) or enum_is(st, call_p("message_content_case"), "k" + "".join(p.capitalize() for p in k.split("_")))
            r.need(bool(has), "expected-type", c, "message content %s is read without checking it is what was sent" % k, st)
            if "HandleM" not in c.short and c.args and c.args[0].op == "param":
                r.need(c.args[0] is cid, "own-message", c, "message is handled under another client's id", st)
            r.need(not st.ts.get("handled"), "handled-once", c, "message content is handled twice", st)
            st.ts["handled"] = k
            st.ts["hterm"] = None
        if c.short == "AbortClient" and c.name.startswith(BASE):
            st.ts["aborted"] = 1
            r.need(c.args[0] is mk_param(r), "aborts-sender", c, "another client than the sender is dropped", st)
        if is_send(c):
            r.need(bool(st.ts.get("aborted")), "no-reply-in-handler", c, "handler sends a message to a client it is not dropping", st)

    def after(r, st, c, ret):
        if st.ts.get("handled") and st.ts.get("hterm") is None and is_a(ctx, c.name.rsplit("::", 1)[0], IMPL) and any(
                isinstance(a, T) and content(a) for a in c.args):
            st.ts["hterm"] = ret

    def write(r, st, place, val, line, fr):
        if status_write(place, val) and sn(val.args[0]) not in DEAD:
            k = st.ts.get("handled")
            t = st.ts.get("hterm")
            ok = bool(k) and sn(val.args[0]) == ROUNDS[k][1] and place[2] is mk_param(r)
            r.need(ok, "status-advances-one-step", (fr.file, line), "client status set to %s after %s" % (sn(val.args[0]), k or "no message"), st)
            if k and t is not None:
                r.need(st.known(mk("ok", t)) is True or okness(t) is True, "status-advances-on-success", (fr.file, line),
                       "client is counted although handling its message may have failed", st)
            st.ts["set"] = 1
        if place[0] == "f" and place[1] is THIS and sn(place[2]) in counters and fr.func is r.eng.entry:
            t = st.ts.get("hterm")
            r.need(bool(st.ts.get("handled")) and (t is None or st.known(mk("ok", t)) is True or okness(t) is True), "counted-only-if-accepted", (fr.file, line),
                   "a message that was not accepted is counted", st)

    def ret(r, st, v, line, fr):
        at = (fr.file, line)
        if st.ts.get("set"):
            r.need(not st.ts.get("aborted"), "accepted-or-dropped", at, "a client is both accepted and dropped", st)
            for f in counters:
                d = delta(st, f)
                r.need(d == 1 if d is not None else None, "accepted-counted-once", at, "%s changes by %s for one accepted message" % (f, d), st)
        else:
            if status_of(st, v) is not False:
                r.need(bool(st.ts.get("aborted")), "rejected-is-dropped", at, "a message that is not accepted leaves the client in the round", st)
            for f in counters:
                d = delta(st, f)
                if not st.ts.get("aborted"):
                    r.need(d == 0 if d is not None else None, "rejected-not-counted", at, "%s changes by %s without an accepted message" % (f, d), st)
        if fact(st, call_p("has_abort"), True):
            r.need(not st.ts.get("handled"), "abort-message-drops", at, "an abort message is handled as a round message", st)

    def mk_param(r):
        return mk("param", r.eng.entry.params[0][1], r.eng.entry.name)
    ctx.run(R(scope=SCOPE, stops=QUIET + [r"ServerState::AbortClient$", r"ProtocolImpl::Handle"], call=call, after=after, write=write, ret=ret), hs)
    for n in ("expected-status", "expected-type", "status-advances-one-step", "accepted-counted-once", "rejected-is-dropped"):
        ctx.need(n)
    # dropping a client always reaches the round's own bookkeeping
    def cdrop(r, st, c):
        if c.short == "HandleAbortClient":
            st.ts["dropped"] = min(2, st.ts.get("dropped", 0) + 1)
            r.need(c.args[0] is mk_param(r), "drop-reaches-the-round", c, "another client than the one to be dropped is taken out of the round", st)

    def rdrop(r, st, v, line, fr):
        cid = mk_param(r)
        n = st.ts.get("dropped", 0)
        if not dead(st, cid) and (n or alive(st, cid)):
            r.need(n == 1, "drop-reaches-the-round", (fr.file, line), "a client to be dropped is taken out of the round %d times" % n, st)
    ctx.run(R(scope=SCOPE, stops=QUIET + [r"ServerState::Send$", r"::HandleAbortClient$"], call=cdrop, ret=rdrop), method(ctx, BASE, "AbortClient"))
    ctx.need("drop-reaches-the-round")
    # after masked input is committed, clients may leave but nothing is accepted any more
    drop_bookkeeping(ctx)


KIND_DROP = {
    # state kind: (status of a client that already answered this round, its dead status, the other dead status)
    "R0_ADVERTISE_KEYS": ("ADVERTISE_KEYS_RECEIVED", "DEAD_BEFORE_SENDING_ANYTHING", "DEAD_BEFORE_SENDING_ANYTHING"),
    "R1_SHARE_KEYS": ("SHARE_KEYS_RECEIVED", "DEAD_AFTER_ADVERTISE_KEYS_RECEIVED", "DEAD_AFTER_ADVERTISE_KEYS_RECEIVED"),
    "R2_MASKED_INPUT_COLLECTION": ("MASKED_INPUT_RESPONSE_RECEIVED", "DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED", "DEAD_AFTER_SHARE_KEYS_RECEIVED"),
    "R3_UNMASKING": ("UNMASKING_RESPONSE_RECEIVED", "DEAD_AFTER_UNMASKING_RESPONSE_RECEIVED", "DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED"),
}


def kind_of(ctx, cls):
    for f in ctx.db.funcs.values():
        if f.cls == cls and f.kind == "ctor":
            for n in walk(f.inits):
                if n[0] == "enum" and "SecAggServerStateKind" in n[1]:
                    return sn(n[1])
    return None


ROUND_OF = {"R0_ADVERTISE_KEYS": "AdvertiseKeys", "R1_SHARE_KEYS": "ShareKeysResponse"}


def near_field(t):
    """Innermost member an indexed place belongs to."""
    while isinstance(t, T) and t.op in ("idx", "elem", "upd"):
        t = t.args[0] if t.op != "upd" else t.args[1]
    return sn(t.args[0]) if isinstance(t, T) and t.op == "fld" else None


def recv_root(c):
    """Data member a call's receiver lives in (indexing and dereferences stripped)."""
    e = c.node[2] if c.node and c.node[0] == "call" else None
    while isinstance(e, list) and e:
        if e[0] in ("fld", "member", "mem"):
            return sn(e[1]) if isinstance(e[1], str) else sn(e[2])
        nxt = [x for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str)]
        if not nxt:
            return None
        e = nxt[0]
    return None


def fields_in(node):
    return {sn(x[1] if isinstance(x[1], str) else x[2]) for x in walk(node) if x[0] in ("fld", "member", "mem") and len(x) > 2}


def relayed(ctx, msg):
    """Members a round's handler stores into and a Prepare* method passes on."""
    if not msg:
        return set()
    stored = set()
    for f in ctx.db.funcs.values():
        if is_a(ctx, f.cls or "", IMPL) and f.short.startswith("Handle") and f.body is not None and any(re.search(r"\b%s\b" % msg, p[2]) for p in f.params):
            for n in walk(f.body):
                if n[0] == "asg":
                    stored |= fields_in(n[2])
                elif n[0] == "call" and sn(n[1]) == "operator=":
                    stored |= fields_in([n[2], n[3][:1]])
    read = set()
    for f in ctx.db.funcs.values():
        if is_a(ctx, f.cls or "", IMPL) and f.short.startswith("Prepare") and f.body is not None:
            read |= fields_in(f.body)
    return stored & read


def erased_in_callees(ctx, n):
    """Members cleared or overwritten inside loops of the methods a call node reaches."""
    out = set()
    if n[0] != "call":
        return out
    for f in ctx.db.funcs.values():
        if f.name == n[1] and f.body is not None and is_a(ctx, f.cls or "", IMPL):
            for m in walk(f.body):
                if m[0] in ("for", "rfor", "while"):
                    for x in walk(m):
                        if x[0] == "call" and sn(x[1]) in ("clear", "erase", "Clear", "operator="):
                            out |= fields_in([x[2], x[3][:1]])
                        elif x[0] == "asg":
                            out |= fields_in(x[2])
    return out


def drop_bookkeeping(ctx):
    """What dropping a client in each round must leave behind."""
    n = 0
    for cls in state_classes(ctx):
        kind = kind_of(ctx, cls)
        if kind not in KIND_DROP:
            continue
        got, d_got, d_not = KIND_DROP[kind]
        for f in method(ctx, cls, "HandleAbortClient"):
            n += 1
            cid = mk("param", f.params[0][1], f.name)
            keep = relayed(ctx, ROUND_OF.get(kind))

            def erase(r, st, place, val, line, fr):
                fl = near_field(place[1]) if place[0] == "i" else None
                if fl:
                    st.ts["erased"] = st.ts.get("erased", ()) + (fl,)

            def erase_call(r, st, c):
                if c.short in ("clear", "erase", "reset", "Clear") and recv_root(c):
                    rt = c.recv
                    if isinstance(rt, T) and rt.op == "idx" and rt.args[0].op == "idx" and near_field(rt) in keep:
                        r.need(rt.args[0].args[1] is not cid, "drop-forgets-contribution", c, "what others sent to a dropped client is forgotten instead of what it sent to them", st)
                    st.ts["erased"] = st.ts.get("erased", ()) + (recv_root(c),)

            def ret(r, st, v, line, fr, kind=kind, got=got, d_got=d_got, d_not=d_not, cid=cid):
                at = (fr.file, line)
                had = True if enum_is(st, STATUS(cid), got) else False if enum_not(st, STATUS(cid), got) else None
                if had is None and d_got != d_not:
                    had = "?"
                s = now(st, cid)
                want = (d_got,) if had is True else (d_not,) if had is False else (d_got,) if d_got == d_not else ()
                r.need(s in want, "drop-status", at, "a client dropped in round %s ends with status %s (answered this round: %s)" % (kind, s, had), st)
                ds = [delta(st, x) for x in (BEFORE, AFTER, TERM)]
                rd = delta(st, READY)
                if None in ds or rd is None:
                    r.need(None, "drop-counted-once", at, "counter changed in an unrecognised way")
                    return
                if kind == "R3_UNMASKING" and had is True:
                    r.need(ds == [0, 0, 0], "drop-counted-once", at, "a client that already unmasked is counted as lost", st)
                    return
                r.need(sum(ds) == 1 and min(ds) == 0, "drop-counted-once", at, "dropping one client changes the loss counters by %s" % ds, st)
                before = kind in ("R0_ADVERTISE_KEYS", "R1_SHARE_KEYS") or kind.startswith("R2") and had is not True
                r.need((ds[0] == 1) == before, "drop-counted-before-or-after-input", at,
                       "a client lost %s submitting input is counted on the other side" % ("before" if before else "after"), st)
                if kind != "R3_UNMASKING":
                    r.need(rd == (-1 if had is True else 0) if had in (True, False) else False, "ready-count-follows-drop", at,
                           "the number of clients ready for the next round changes by %s when dropping a client that %s answered" % (rd, "had" if had is True else "had not"), st)
                if had is True and kind in ROUND_OF:
                    gone = st.ts.get("erased", ())
                    looped = {x for n in walk(r.eng.entry.body) for x in erased_in_callees(ctx, n)}
                    for x in keep:
                        r.need(x in gone or x in looped, "drop-forgets-contribution", at, "what a dropped client contributed (%s) is still passed on to others" % x, st)
                # too few left => the session must be marked for abort
                na = fld(st, "needs_to_abort_")
                if na is not TRUE:
                    r.need(enough(st, kind), "too-few-marks-abort", at, "after a drop the number of clients left is not compared with the minimum", st)
            ctx.run(R(scope=SCOPE, ret=ret, write=erase, call=erase_call), [f])
    if n < 4:
        raise AnalysisError("anchor vanished: HandleAbortClient overrides")
    ctx.need("drop-forgets-contribution", 1)
    for x in ("drop-status", "drop-counted-once", "ready-count-follows-drop", "too-few-marks-abort"):
        ctx.need(x, 2)


def enough(st, kind):
    """Recorded: (number of clients left) >= minimum, with current counters."""
    for m, c in bounds(st):
        mn = [t for t in m if MIN(t)]
        tt = [t for t in m if TOTAL(t)]
        if len(mn) == 1 and len(tt) == 1 and m[mn[0]] == -1 and m[tt[0]] == 1:
            need = {BEFORE, AFTER, TERM}
            got = {sn(t.args[0]): q for t, q in m.items() if t.op == "fld"}
            rest = {x: q for x, q in got.items() if x not in need and "minimum" not in x and "total" not in x}
            if rest and not (kind == "R3_UNMASKING" and rest == {READY: -1, MSGS: 1}):
                continue
            if all(got.get(x) == -1 for x in need):
                exp = -sum(delta(st, x) for x in (BEFORE, AFTER, TERM))
                if c == exp or kind == "R3_UNMASKING" and c <= exp:
                    return True
    return False


def gives_up(node):
    """A counting loop whose test or body may end it before its count is reached."""
    var = {n[2] for n in walk(node[4]) if n[0] == "var"} if node[4] is not None else set()

    def conj(e):
        e = plain(e)
        return conj(e[1]) + conj(e[2]) if e and e[0] == "and" else [e]
    return bool(var) and node[3] is not None and any(e and not any(n[0] == "var" and n[2] in var for n in walk([e])) for e in conj(node[3])) or leaves(node)


def leaves(node):
    """The body of a loop contains a break of its own."""
    def look(x, top):
        if not isinstance(x, list):
            return False
        k = x[0] if x and isinstance(x[0], str) else None
        if k == "lambda" or k in ("for", "rfor", "while", "do", "switch") and not top:
            return False
        return k == "break" or any(look(y, False) for y in x)
    return look(node, True)


# ---- S09 ------------------------------------------------------------------------
def s09(ctx):
    classes = state_classes(ctx)
    fs = []
    for cls in classes:
        fs += method(ctx, cls, "ProceedToNextRound")
    if len(fs) < 5:
        raise AnalysisError("anchor vanished: ProceedToNextRound")
    cnt = lambda t: t.op == "fld" and sn(t.args[0]) in (READY, MSGS)

    def call(r, st, c):
        if c.kind in ("ctor", "new") and c.name in classes:
            kind = kind_of(ctx, r.eng.entry.cls)
            if "Aborted" in c.short:
                r.ok(r.eng, "abort-transition", c.file, c.line)
                return
            if kind == "PRNG_RUNNING":
                has = fact(st, lambda a: a.op in ("has",) and has_sub(a, fld_p("completion_status_")), True)
                ok = fact(st, lambda a: a.op == "ok" and has_sub(a, fld_p("completion_status_")), True)
                r.need(bool(ok) and bool(has), "complete-only-on-success", c, "session completes although unmasking may not have finished successfully", st)
                return
            mine = (lambda t: t.op == "fld" and sn(t.args[0]) == READY) if kind != "R3_UNMASKING" else cnt
            r.need(at_least(st, mine, MIN, 0), "enough-clients-to-proceed", c, "next round entered without the minimum number of clients having answered", st)
            nab = fact(st, fld_p("needs_to_abort_"), False)
            r.need(bool(nab), "no-proceed-when-aborting", c, "next round entered although too many clients were lost", st)
            if kind == "R2_MASKED_INPUT_COLLECTION":
                idle = fact(st, lambda a: has_sub(a, fld_p("async_token_")) and (a.op == "fld" or a.op == "has"), False) or \
                    fact(st, lambda a: has_sub(a, fld_p("async_token_")) and (call_p("IsIdle")(a) or a.op == "eq"), True)
                r.need(bool(idle), "inputs-all-added", c, "next round entered while received inputs may still be waiting to be added", st)
    ctx.run(R(scope=SCOPE, stops=QUIET + [r"::AbortClient$", r"::BroadcastMessage$", r"ServerState::Send$", r"::ExitState$"], call=call), fs)
    ctx.need("enough-clients-to-proceed", 3)
    ctx.need("no-proceed-when-aborting", 3)
    ctx.need("complete-only-on-success")
    ctx.need("inputs-all-added")
    ctx.need("abort-transition", 1)

    # clients that did not answer in time are dropped before the next round starts
    for f in fs:
        kind = kind_of(ctx, f.cls)
        if kind not in KIND_DROP:
            continue
        got = KIND_DROP[kind][0]

        def c3(r, st, c):
            if c.short == "AbortClient":
                st.ts["ab"] = c.args[0]
                st.ts["swept"] = 1

        def loop(r, st, node, fr):
            st.ts.pop("ab", None)

        def it(r, st, node, fr, got=got):
            if not any(sn(n[1]) == "AbortClient" for n in walk(node) if n[0] == "call"):
                return
            ids = {a.args[1].args[1] for a in st.facts if a.op == "eq" and a.args[0].op == "enum" and "ClientStatus" in a.args[0].args[0] and a.args[1].op == "idx"}
            if node[0] == "for":
                r.need(not gives_up(node), "late-clients-all-visited", (fr.file, node[1]), "the pass that drops clients without an answer may end before the last client", st)
            for i in ids:
                r.need(i.op != "hav" or tm.sweeps(i) is not False, "late-clients-all-visited", (fr.file, node[1]), "the pass that drops clients without an answer leaves some clients out", st)
                if st.ts.get("ab") is not None:
                    continue
                r.need(dead(st, i) or bool(enum_is(st, STATUS(i), got)), "late-clients-dropped", (fr.file, node[1]),
                       "a client that is neither dropped nor has answered stays in the session", st)
            st.ts.pop("ab", None)

        def c4(r, st, c):
            c3(r, st, c)
            if c.kind in ("ctor", "new") and c.name in classes and "Aborted" not in c.short:
                full = [a for a in st.univ if a.op == "lt" and TOTAL(a.args[1]) or a.op == "eq" and "ClientStatus" in str(a.args[0].args[0])]
                r.need(bool(full), "late-clients-swept", c, "next round entered without going over all clients", st)
        ctx.run(R(scope=SCOPE, stops=QUIET + [r"::AbortClient$", r"::BroadcastMessage$", r"ServerState::Send$", r"::ExitState$"],
                  call=c4, loop=loop, iter=it), [f])
    ctx.need("late-clients-dropped", 1)

    # the threshold the session was created with is at least the one asked for
    for f in methods(ctx, "fcp::secagg::SecAggServer"):
        if f.short != "Create":
            continue
        p = mk("param", f.params[0][1], f.name)

        def c5(r, st, c):
            if c.kind in ("ctor", "new") and isname(c, "AesSecAggServerProtocolImpl") or c.short.startswith("make_unique") and any("ProtocolImpl" in str(x) for x in [c.name, c.rtype]):
                ks = [q for g in ctx.db.funcs.values() if g.kind == "ctor" and sn(g.cls or "") == "AesSecAggServerProtocolImpl" for q, x in enumerate(g.params) if "minimum" in x[1]]
                vs = [a for a in c.args if isinstance(a, T) and flows_from(a, is_(p))]
                if ks and len(c.args) > ks[0]:
                    vs = [c.args[ks[0]]]
                    if vs[0].op == "hav":
                        r.need(None, "minimum-never-lowered", c, "", st)
                        return
                ok = any(a is p or a.op == "call" and sn(a.args[0]) == "max" and has_sub(a, is_(p)) or a.op in ("max",) for a in vs)
                r.need(ok or None if not vs else ok, "minimum-never-lowered", c, "the session's minimum number of clients is not at least the one requested", st)
        ctx.run(R(scope=r"^fcp/secagg/server/secagg_server\.cc", call=c5), [f])
    ctx.need("minimum-never-lowered")
    failure_recorded(ctx)




# ---- S10: client messages are validated as a whole before anything is stored ----
STORES = ("pairwise_public_keys_", "pairs_of_public_keys_", "encrypted_shares_", "pairwise_shamir_share_table_", "self_shamir_share_table_",
          "masked_input_queue_", "masked_input_")


def store_field(place):
    """Name of the member container a write goes to."""
    b = place[1] if place[0] in ("i", "f") else None
    if place[0] == "f" and b is THIS:
        return None
    while isinstance(b, T):
        if b.op == "fld":
            if b.args[1] is THIS or b.args[1] is None:
                return sn(b.args[0])
            b = b.args[1]
        elif b.op in ("idx", "elem", "upd"):
            b = b.args[0] if b.op != "upd" else b.args[1]
        elif b.op == "call" and b.args[1] is not None:
            b = b.args[1]
        else:
            return None
    return None


def s10(ctx):
    fs = [f for f in ctx.db.funcs.values() if is_a(ctx, f.cls or "", IMPL) and f.short.startswith("Handle") and f.body is not None
          and any(re.search(r"AdvertiseKeys|Response", p[2]) for p in f.params)]
    if len(fs) < 4:
        raise AnalysisError("anchor vanished: server message validators (%s)" % [f.short for f in fs])
    msgp = lambda t: t.op == "param" and re.search(r"keys|response|message|request", t.args[0])

    # nothing is stored on a path that ends in an error
    def write(r, st, place, val, line, fr):
        f = store_field(place)
        if f:
            st.ts["stored"] = (f, line)

    def call(r, st, c):
        if c.recv is not None:
            if c.short in ("emplace_back", "push_back", "emplace", "insert", "Add", "insert_or_assign") and base_field(c.recv):
                st.ts["stored"] = (base_field(c.recv), c.line)

    def ret(r, st, v, line, fr):
        if status_of(st, v) is False:
            r.need("stored" not in st.ts, "reject-leaves-no-trace", (fr.file, line),
                   "a rejected message has already been partly stored (%s)" % (st.ts.get("stored"),), st)
        elif status_of(st, v) is True:
            r.ok(r.eng, "accepting-exit", fr.file, line)
    ctx.run(R(scope=SCOPE, write=write, call=call, ret=ret), fs)
    ctx.need("reject-leaves-no-trace", 4)
    ctx.need("accepting-exit", 3)

    by = {f.short: f for f in fs}

    def pick(rx):
        m = [f for f in fs if any(re.search(rx, p[2]) for p in f.params)]
        if not m:
            raise AnalysisError("anchor vanished: handler for %s" % rx)
        return m

    # public keys
    enc, noise = call_p("enc_pk"), call_p("noise_pk")
    const_p = lambda t: t.op == "gvar" or tm.is_int(t)

    def wkeys(r, st, place, val, line, fr):
        if store_field(place) and place[0] == "i":
            cid = mk("param", r.eng.entry.params[0][1], r.eng.entry.name)
            r.need(place[2] is cid, "keys-filed-under-sender", (fr.file, line), "keys are filed under another client than the sender", st)
            eq = equal(st, size_p(enc), size_p(noise)) or equal(st, size_p(enc), const_p) and equal(st, size_p(noise), const_p)
            sz = equal(st, size_p(enc), const_p) or equal(st, size_p(noise), const_p) or at_least(st, size_p(enc), const_p) and True \
                or at_least(st, size_p(enc), 33) or at_least(st, size_p(noise), 33)
            r.need(eq, "key-pair-same-length", (fr.file, line), "public keys of different lengths are accepted", st)
            r.need(sz, "key-length-checked", (fr.file, line), "a public key is stored without its length being checked", st)
    ctx.run(R(scope=SCOPE, write=wkeys), pick("AdvertiseKeys"))
    ctx.need("key-length-checked")

    # key shares: right number, present exactly for living neighbours
    DEG = lambda t: call_p("GetDegree", "number_of_neighbors")(t)

    def share_loop(node):
        return any(n[0] == "call" and sn(n[1]) == "encrypted_key_shares" for n in walk(node)) and any(
            n[0] == "enum" and "DEAD_BEFORE" in n[1] or n[0] == "call" and sn(n[1]) in ("empty", "size") for n in walk(node))

    def it(r, st, node, fr):
        if not share_loop(node):
            return
        idx = [x for k in st.facts for x in tm.subterms(k) if x.op == "call" and sn(x.args[0]) == "GetNeighbor" and len(x.args[2]) == 2]
        if not idx:
            return
        nb = idx[0]
        cid = mk("param", r.eng.entry.params[0][1], r.eng.entry.name)
        share = lambda t: has_sub(t, call_p("encrypted_key_shares"))
        empty = fact(st, lambda a: a.op == "eq" and a.args[0] is const(0) and share(a.args[1]), True) or fact(
            st, lambda a: call_p("empty")(a) and share(a), True)
        full = fact(st, lambda a: a.op == "eq" and a.args[0] is const(0) and share(a.args[1]), False) or fact(
            st, lambda a: call_p("empty")(a) and share(a), False)
        if nb.args[2][1].op == "hav":
            r.need(full_count(st, nb.args[2][1]), "every-share-looked-at", (fr.file, node[1]), "some of the shares a client sent are not looked at", st)
        own = equal(st, is_(nb), is_(cid))
        gone = bool(enum_is(st, STATUS(nb), "DEAD_BEFORE_SENDING_ANYTHING"))
        live = differs(st, is_(nb), is_(cid)) and enum_not(st, STATUS(nb), "DEAD_BEFORE_SENDING_ANYTHING")
        if not (empty or full):
            if any(n[0] in ("asg", "call") and store_like(n) for n in walk(node)):
                return
        r.need(bool(empty) and (own or gone) or bool(full) and live, "share-present-iff-neighbour-alive", (fr.file, node[1]),
               "a share is accepted or left out without regard to whether the neighbour is alive", st)

    def store_like(n):
        return n[0] == "asg"

    def wshare(r, st, place, val, line, fr):
        f = store_field(place)
        if f and place[0] == "i" and has_sub(val, call_p("encrypted_key_shares")):
            cid = mk("param", r.eng.entry.params[0][1], r.eng.entry.name)
            cnt = equal(st, size_p(lambda t: has_sub(t, call_p("encrypted_key_shares"))), DEG)
            r.need(cnt, "share-count-checked", (fr.file, line), "shares are stored without checking their number", st)
    ctx.run(R(scope=SCOPE, iter=it, write=wshare), pick("ShareKeysResponse"))
    share_routing(ctx)
    ctx.need("share-present-iff-neighbour-alive")
    ctx.need("share-count-checked")

    # unmasking shares: kind matches what the neighbour's status calls for
    SHARE = call_p("oneof_shares_case")
    KIND = {"kNoiseSkShare": ("SHARE_KEYS_RECEIVED", "DEAD_AFTER_SHARE_KEYS_RECEIVED"),
            "kPrfSkShare": ("MASKED_INPUT_RESPONSE_RECEIVED", "DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED", "UNMASKING_RESPONSE_RECEIVED",
                            "DEAD_AFTER_UNMASKING_RESPONSE_RECEIVED")}

    def statuses(st, nb):
        """Statuses neighbour nb may have, given the path."""
        allv = set(sum(KIND.values(), ())) | {"READY_TO_START", "DEAD_BEFORE_SENDING_ANYTHING", "ADVERTISE_KEYS_RECEIVED", "DEAD_AFTER_ADVERTISE_KEYS_RECEIVED"}
        for k, v in st.facts.items():
            if k.op == "eq" and k.args[0].op == "enum" and STATUS(nb)(k.args[1]):
                n = sn(k.args[0].args[0])
                if v:
                    allv &= {n}
                else:
                    allv.discard(n)
        return allv

    def it2(r, st, node, fr):
        if not any(n[0] == "call" and sn(n[1]) == "oneof_shares_case" for n in walk(node)):
            return
        nbs = {x.args[1] for k in st.facts for x in tm.subterms(k) if x.op == "idx" and call_p("GetNeighbor")(x.args[1])}
        kinds = [k for k, v in st.facts.items() if k.op == "eq" and k.args[0].op == "enum" and SHARE(k.args[1])]
        other = [x for k in st.facts for x in tm.subterms(k) if x.op == "idx" and x.args[1].op == "param" and "status" in (base_field(x) or "")]
        if not nbs and other:
            r.need(False, "share-kind-fits-status", (fr.file, node[1]), "the kind of share is checked against the status of another client than the neighbour it is for", st)
        for nb in nbs:
            if nb.args[2][-1].op == "hav":
                r.need(full_count(st, nb.args[2][-1]), "every-share-looked-at", (fr.file, node[1]), "some of the shares a client sent are not looked at", st)
            ss = statuses(st, nb)
            if not ss:
                continue  # a default branch no status reaches
            known = [sn(k.args[0].args[0]) for k in kinds if st.facts[k]]
            if "GetNeighborIndex" in str([x.args[0] for k in st.facts for x in tm.subterms(k) if x.op == "call"]):
                return      # the storing pass
            if ss <= set(KIND["kNoiseSkShare"]):
                r.need(known == ["kNoiseSkShare"], "share-kind-fits-status", (fr.file, node[1]), "wrong kind of share accepted for a neighbour lost before submitting input", st)
            elif ss <= set(KIND["kPrfSkShare"]):
                r.need(known == ["kPrfSkShare"], "share-kind-fits-status", (fr.file, node[1]), "wrong kind of share accepted for a neighbour whose input was included", st)
            elif not ss & set(sum(KIND.values(), ())):
                r.need(known == ["ONEOF_SHARES_NOT_SET"], "share-kind-fits-status", (fr.file, node[1]), "a share is accepted for a neighbour that never shared keys", st)
            else:
                r.need(False, "share-kind-fits-status", (fr.file, node[1]), "the kind of share is not checked against the neighbour's status", st)

    def idx2(r, st, c):
        if c.short == "noise_or_prf_key_shares" and c.args and "UnmaskingResponse" in c.name:
            i = c.args[-1]
            n = lambda t: has_sub(t, call_p("noise_or_prf_key_shares", "noise_or_prf_key_shares_size"))
            szp = lambda t: size_p(n)(t) or call_p("noise_or_prf_key_shares_size")(t)
            ok = at_least(st, szp, is_(i), 1) or (at_least(st, DEG, is_(i), 1) and (equal(st, szp, DEG) or at_least(st, szp, DEG)))
            r.need(ok, "unmasking-share-count-checked", c, "an unmasking share is read without checking how many the client sent", st)

    def w2(r, st, place, val, line, fr):
        if not has_sub(val, call_p("noise_sk_share", "prf_sk_share")):
            return
        f = store_field(place)
        if not f:
            return
        cid = mk("param", r.eng.entry.params[0][1], r.eng.entry.name)
        noisy = has_sub(val, call_p("noise_sk_share"))
        r.need(("pairwise" in f) == noisy if ("pairwise" in f or "self" in f) else None, "share-table-by-kind", (fr.file, line), "a share is filed in the table of the other kind", st)
        sh = next(x for x in tm.subterms(val) if call_p("noise_or_prf_key_shares")(x))
        i = sh.args[2][-1] if sh.args[2] else None
        b = place[1] if place[0] == "f" else mk("idx", place[1], place[2])
        if b.op == "idx" and b.args[0].op == "idx" and i is not None:
            row, col = b.args[0].args[1], b.args[1]
            ok = call_p("GetNeighbor")(row) and row.args[2] == (cid, i)
            g = next((x for x in tm.subterms(col) if call_p("GetNeighborIndex", "GetNeighborIndexOrDie")(x)), None)
            r.need(ok and g is not None and g.args[2] == (row, cid), "unmasking-share-routed", (fr.file, line), "a share is filed under the wrong neighbour or position", st)
    ctx.run(R(scope=SCOPE, iter=it2, call=idx2, write=w2), pick("UnmaskingResponse"))
    ctx.need("share-kind-fits-status")
    ctx.need("share-table-by-kind", 1)
    ctx.need("unmasking-share-count-checked", 1)
    masked_input(ctx, pick("MaskedInputCollectionResponse"))
    queued_inputs(ctx)


def share_routing(ctx):
    """An encrypted share is filed where only its addressee will be sent it."""
    def wshare(r, st, place, val, line, fr):
        if store_field(place) and place[0] == "i" and has_sub(val, call_p("encrypted_key_shares")):
            cid = mk("param", r.eng.entry.params[0][1], r.eng.entry.name)
            # [neighbour][position of the sender among the neighbour's neighbours] = share i
            sh = next(x for x in tm.subterms(val) if call_p("encrypted_key_shares")(x))
            i = sh.args[2][-1] if sh.args[2] else None
            row = place[1].args[1] if place[1].op == "idx" else None
            col = place[2]
            ok = None
            if row is not None and i is not None:
                if call_p("GetNeighbor")(row):
                    ok = row.args[2] == (cid, i)
                    g = next((x for x in tm.subterms(col) if call_p("GetNeighborIndex", "GetNeighborIndexOrDie")(x)), None)
                    ok = ok and g is not None and g.args[2] == (row, cid)
                elif row is cid or row is i:
                    ok = False
            r.need(ok, "share-routed-to-owner", (fr.file, line), "an encrypted share is filed under the wrong neighbour or position", st)
    fs = [f for f in ctx.db.funcs.values() if is_a(ctx, f.cls or "", IMPL) and f.short.startswith("Handle") and f.body is not None
          and any("ShareKeysResponse" in p[2] for p in f.params)]
    ctx.run(R(scope=SCOPE, write=wshare), fs)
    ctx.need("share-routed-to-owner")


def masked_input(ctx, fs):
    """Masked input is accepted only when it fits the specification, and added once."""
    spec = lambda t: has_sub(t, lambda x: x.op in ("fld", "elem") and "spec" in str(x.args[0])) or has_sub(t, call_p("input_vector_specs"))

    LENGTH = any_p(call_p("length"), size_p(lambda t: t.op == "elem" and spec(t)), fld_p("length_"))

    def call(r, st, c):
        if c.kind == "ctor" and isname(c, "SecAggVector") and c.args and has_sub(c.args[0], call_p("mutable_encoded_vector", "encoded_vector")):
            sz = fact(st, lambda a: a.op == "eq" and has_sub(a, size_p(lambda t: has_sub(t, call_p("encoded_vector", "mutable_encoded_vector")))) and has_sub(a, LENGTH), True)
            r.need(bool(sz), "vector-size-checked", c, "a masked vector is unpacked without checking its size against the specification", st)
            if sz:
                els = {x.args[1] for x in tm.subterms(sz[0]) if call_p("length", "size", "modulus", "bit_width")(x) and x.args[1] is not None and x.args[1].op in ("elem", "idx") and spec(x.args[1])}
                r.need(len(els) <= 1, "vector-size-by-own-entry", c, "the size of a vector is checked against the specification of another one", st)
                div = [x for x in tm.subterms(sz[0]) if x.op == "arith" and x.args[0] in ("/", ">>") and tm.is_int(x.args[2]) and has_sub(x.args[1], LENGTH)]
                for x in div:
                    q, m = tm._lin(x.args[1])
                    r.need(q > 0 or (None if has_sub(x, lambda y: y.op == "arith" and y.args[0] == "%") else False), "vector-size-rounded-up", c, "the last, partly filled byte of a vector is not counted", st)
                narrow = [n for n in walk(r.eng.entry.body) if n[0] == "cast" and re.search(r"(^|\b)(u?int(8|16)_t|(unsigned )?(short|char))$", str(n[1]))]
                r.need(not narrow, "vector-size-rounded-up", c, "the size of a vector is cut down to a few bits before it is compared", st)
            nm = fact(st, lambda a: a.op == "haskey" and has_sub(a, call_p("vectors", "mutable_vectors")) or a.op == "eq" and has_sub(a, call_p("end")), None)
            r.need(bool(nm), "vector-name-checked", c, "a masked vector is read without checking it was sent", st)
        if accumulate(c):
            cnt = fact(st, lambda a: a.op == "eq" and has_sub(a, size_p(lambda t: has_sub(t, call_p("vectors", "mutable_vectors")))) or a.op == "eq" and has_sub(a, call_p("vectors_size")), True)
            r.need(bool(cnt), "vector-count-checked", c, "masked input is added without checking the number of vectors", st)
            u = ufact(st, lambda a: a.op == "eq" and has_sub(a, call_p("encoded_vector", "mutable_encoded_vector")) and has_sub(a, LENGTH), True)
            r.need(bool(u), "all-vectors-checked-before-adding", c, "masked input is added before all its vectors were checked", st)
            st.ts["acc"] = min(2, st.ts.get("acc", 0) + 1)
            if "queue" in (base_field(c.recv) or ""):
                st.ts["queued"] = 1
                st.ts["pre"] = fact(st, EMPTYQ) is not None or bool(st.ts.get("asked"))
        if c.short == "Schedule" and st.ts.get("queued"):
            st.ts["sched"] = 1

    EMPTYQ = lambda a: a.op == "eq" and a.args[0] is const(0) and has_sub(a, lambda t: t.op == "fld" and "queue" in sn(t.args[0]))

    def asked(r, st, place, val, line, fr):
        if isinstance(val, T) and has_sub(val, EMPTYQ):
            st.ts["asked"] = 1

    def accumulate(c):
        f = c.recv is not None and base_field(c.recv)
        return bool(f) and ("masked_input" in f) and c.short in ("Add", "emplace_back", "push_back")

    def ret(r, st, v, line, fr):
        n = st.ts.get("acc", 0)
        ok = status_of(st, v)
        if ok is True:
            r.need(n == 1, "input-added-once", (fr.file, line), "an accepted masked input is added %d times" % n, st)
            if st.ts.get("queued"):
                was_empty = st.ts.get("pre") and fact(st, EMPTYQ, False)
                r.need(bool(st.ts.get("sched") or was_empty), "queued-input-scheduled", (fr.file, line), "a masked input is queued but nothing is scheduled to add it", st)
        elif ok is False:
            r.need(n == 0, "rejected-input-not-added", (fr.file, line), "a rejected masked input is added", st)
    ctx.run(R(scope=SCOPE, stops=[r"Accumulator.*::Schedule$"], call=call, write=asked, ret=ret), fs)
    for n in ("vector-size-checked", "vector-name-checked", "vector-count-checked", "all-vectors-checked-before-adding", "input-added-once"):
        ctx.need(n)


def queued_inputs(ctx):
    """Every element of a batch of queued inputs goes into the running sum exactly once."""
    fs = [f for f in ctx.db.funcs.values() if f.body is not None and "/secagg/server/" in f.rel()
          and any(re.search(r"vector<.*unique_ptr<.*SecAggVectorMap", p[2]) for p in f.params)]
    for f in fs:
        q = next(p for p in f.params if re.search(r"vector<.*unique_ptr<.*SecAggVectorMap", p[2]))
        others = [mk("param", p[1], f.name) for p in f.params if p is not q and "VectorMap" in p[2]]
        batch = mk("param", q[1], f.name)
        consts, starts, whole, bad = set(), set(), [], []

        def call(r, st, c):
            if c.short != "Add" and not (c.kind == "ctor" and isname(c, "SecAggUnpackedVectorMap")):
                return
            if c.recv is not None and any(has_sub(c.recv, is_(o)) for o in others):
                st.ts["out"] = min(2, st.ts.get("out", 0) + 1)
            if r.eng.muted:
                return
            for a in c.args:
                for x in tm.subterms(a):
                    if x.op == "idx" and x.args[0] is batch:
                        k = x.args[1]
                        if tm.is_int(k):
                            consts.add(int(k.args[-1]))
                        elif tm.START.get(k):
                            starts.update(int(y.args[-1]) if tm.is_int(y) else None for y in tm.START[k])
                            steps = [tm._lin(y) for y in tm.STEP.get(k, ())]
                            if any(m == {k: 1} and n != 1 for n, m in steps):
                                bad.append(c.line)
                        else:
                            starts.add(None)
                    elif x.op == "elem" and x.args[0] is batch:
                        whole.append(c.line)

        def ret(r, st, v, line, fr):
            if others:
                r.need(st.ts.get("out", 0) == 1, "batch-reaches-sum", (fr.file, line), "a batch of queued inputs is added to the running sum %d times" % st.ts.get("out", 0), st)
        ctx.run(R(scope=r"^fcp/secagg/server/aes/", stops=[r"::Add$"], call=call, ret=ret), [f])
        ok = None
        if bad:
            ok = False
        elif whole:
            ok = not consts and not starts
        elif starts and None not in starts:
            ok = len(starts) == 1 and consts == set(range(next(iter(starts))))
        elif consts and not starts:
            ok = False
        if ok is not None:
            ctx.check("batch-elements-once", f.rel(), f.line, ok, "an input of the batch is left out of the sum or added twice (fixed positions %s, loop from %s)" % (sorted(consts), sorted(starts)))


# ---- S12: messages go to living clients only ---------------------------------------
def s12(ctx):
    fs = []
    for cls in state_classes(ctx):
        fs += [f for f in ctx.db.funcs.values() if f.cls == cls and f.body is not None and f.kind != "ctor"]
    fs += [f for f in ctx.db.funcs.values() if f.cls == BASE and f.body is not None and f.kind != "ctor" and f.access == 0]
    fs = roots_of(ctx, fs)

    def call(r, st, c):
        if c.short.startswith("mutable_") and "ServerToClientWrapperMessage" in c.name:
            st.ts["m"] = c.short[8:]
        if c.kind == "ctor" and c.name == "fcp::secagg::ServerToClientWrapperMessage":
            st.ts["m"] = "none"
        if c.short == "AbortClient" or c.short == "HandleAbortClient":
            st.ts["dropping"] = c.args[0]
        if is_send(c):
            i = c.args[0]
            if i.op == "param" and r.eng.entry.short == "Send":
                return
            if st.ts.get("m") == "abort" and st.ts.get("dropping") is i:
                ok = all(enum_not(st, STATUS(i), d) for d in DEAD)
            else:
                ok = alive(st, i)
            r.need(ok, "send-to-living-only", c, "a %s message may be sent to a client that was already dropped" % st.ts.get("m"), st)
    ctx.run(R(scope=SCOPE, stops=QUIET + [r"::ExitState$"], call=call), fs)
    ctx.need("send-to-living-only", 1)

    # every living client receives the round's request
    for cls in state_classes(ctx):
        for f in method(ctx, cls, "ProceedToNextRound"):
            kind = kind_of(ctx, cls)
            if kind not in ("R0_ADVERTISE_KEYS", "R1_SHARE_KEYS", "R2_MASKED_INPUT_COLLECTION"):
                continue

            def sends(node):
                return any(n[0] == "call" and sn(n[1]) == "Send" for n in walk(node))

            def c2(r, st, c):
                if c.short == "Send":
                    if not st.ts.get("s") is c.args[0] or c.name.startswith(BASE):
                        st.ts["n"] = st.ts.get("n", 0) + (1 if c.name.startswith(BASE) or not st.ts.get("s") else 0)
                    st.ts["s"] = c.args[0]
                if c.short == "AbortClient":
                    st.ts["ab"] = c.args[0]

            def loop(r, st, node, fr):
                if sends(node):
                    for k in ("s", "n", "ab"):
                        st.ts.pop(k, None)

            def it(r, st, node, fr):
                if not sends(node):
                    return
                ids = {a.args[1].args[1] for a in st.facts if a.op == "eq" and a.args[0].op == "enum" and "ClientStatus" in a.args[0].args[0]
                       and a.args[1].op == "idx" and a.args[1].args[1].op != "idx"}
                s = st.ts.get("s")
                if s is None:
                    for i in ids:
                        r.need(dead(st, i) or st.ts.get("ab") is i, "every-living-client-addressed", (fr.file, node[1]),
                               "a client still in the session does not receive the next request", st)
                for k in ("s", "n", "ab"):
                    st.ts.pop(k, None)
            ctx.run(R(scope=SCOPE, stops=QUIET + [r"::AbortClient$", r"::BroadcastMessage$", r"ServerState::Send$", r"::ExitState$"], call=c2, loop=loop, iter=it), [f])
    ctx.need("every-living-client-addressed", 1)

    # a request is built afresh for each recipient
    for cls in state_classes(ctx):
        for f in method(ctx, cls, "ProceedToNextRound"):
            def lp(r, st, node, fr):
                if any(n[0] == "call" and sn(n[1]) == "Send" for n in walk(node)):
                    st.ts["fresh"] = ()

            def c5(r, st, c):
                if "fresh" not in st.ts:
                    return
                if c.kind == "ctor" and isname(c, "ServerToClientWrapperMessage", "ShareKeysRequest", "MaskedInputCollectionRequest", "UnmaskingRequest"):
                    st.ts["fresh"] = ("*",)
                elif c.short == "Clear":
                    st.ts["fresh"] = ("*",)
                elif c.short.startswith("clear_"):
                    st.ts["fresh"] += (c.short[6:],) if "WrapperMessage" not in c.name else ("*",)
                elif c.short.startswith("add_") and re.search(r"(ShareKeys|MaskedInputCollection|Unmasking)Request", c.name):
                    ok = "*" in st.ts["fresh"] or c.short[4:] in st.ts["fresh"]
                    r.need(ok, "request-built-afresh", c, "entries meant for one client stay in the request sent to the next", st)
            ctx.run(R(scope=SCOPE, stops=QUIET + [r"::AbortClient$", r"::BroadcastMessage$", r"ServerState::Send$", r"::ExitState$"], call=c5, loop=lp), [f])

    # what is sent to a client was prepared for that client
    for cls in state_classes(ctx):
        for f in method(ctx, cls, "ProceedToNextRound"):
            def c6(r, st, c):
                if c.short.startswith("Prepare") and "ProtocolImpl" in c.name and c.args:
                    st.ts["prep"] = c.args[0]
                elif c.short == "Send" and c.args and len(c.args) > 1 and st.ts.get("prepares"):
                    r.need(st.ts.get("prep") is c.args[0], "prepared-for-recipient", c, "a client is sent a request that was not prepared for it", st)

            def lp6(r, st, node, fr):
                if any(n[0] == "call" and sn(n[1]) == "Send" for n in walk(node)):
                    st.ts.pop("prep", None)
                    st.ts["prepares"] = any(n[0] == "call" and sn(n[1]).startswith("Prepare") for n in walk(node))
            ctx.run(R(scope=SCOPE, stops=QUIET + [r"::AbortClient$", r"::BroadcastMessage$", r"ServerState::Send$", r"::ExitState$", r"ProtocolImpl::Prepare"], call=c6, loop=lp6), [f])
    ctx.need("prepared-for-recipient")

    # requests carry the addressee's own view
    own_view(ctx)
    share_routing(ctx)


def own_view(ctx):
    prep = [f for f in ctx.db.funcs.values() if is_a(ctx, f.cls or "", IMPL) and f.short.startswith("Prepare") and f.body is not None]

    def call(r, st, c):
        if not c.args:
            return
        cid = mk("param", r.eng.entry.params[0][1], r.eng.entry.name)
        if c.short == "add_encrypted_key_shares":
            v = c.args[-1]
            if v.op == "idx" and v.args[0].op == "idx":
                r.need(v.args[0].args[1] is cid, "own-shares-delivered", c, "a client is sent shares addressed to another client", st)
                r.need(at_least(st, lambda t: call_p("GetDegree", "number_of_neighbors")(t), is_(v.args[1]), 1), "own-shares-delivered", c, "shares are read outside the neighbour list", st)

    def w2(r, st, place, val, line, fr):
        if val is not None and isinstance(val, T) and val.op == "idx" and base_field(val) == "pairs_of_public_keys_":
            cid = mk("param", r.eng.entry.params[0][1], r.eng.entry.name)
            k = val.args[1]
            r.need(call_p("GetNeighbor")(k) and k.args[2][0] is cid if k.op == "call" else False if k.op in ("hav", "param", "lin", "arith") and not has_sub(k, call_p("GetNeighbor")) else None, "own-neighbours-announced", (fr.file, line),
                   "a client is sent public keys of clients that are not its neighbours", st)
    ctx.run(R(scope=SCOPE, call=call, write=w2), prep)
    ctx.need("own-shares-delivered")

    # one entry per neighbour, so that positions mean the same on both sides
    ADD = ("add_encrypted_key_shares", "add_pairs_of_public_keys")

    def c8(r, st, c):
        if c.short in ADD:
            st.ts["added"] = min(2, st.ts.get("added", 0) + 1)

    def lp8(r, st, node, fr):
        st.ts.pop("added", None)

    def it8(r, st, node, fr):
        if node[0] in ("for", "rfor", "while") and any(n[0] == "call" and sn(n[1]) in ADD for n in walk(node)):
            r.need(st.ts.pop("added", 0) == 1 and not leaves(node), "one-entry-per-neighbour", (fr.file, node[1]), "a neighbour's entry is left out, so those after it move to other positions", st)
    ctx.run(R(scope=SCOPE, call=c8, loop=lp8, iter=it8), prep)
    ctx.need("one-entry-per-neighbour")

    # dropped-client lists name exactly clients lost before submitting input
    for cls in state_classes(ctx):
        if kind_of(ctx, cls) != "R2_MASKED_INPUT_COLLECTION":
            continue

        def c3(r, st, c):
            if c.short == "add_dead_3_client_ids":
                v = c.args[-1]
                g = [x for x in tm.subterms(v) if call_p("GetNeighborIndex")(x)]
                if g:
                    st.ts["gi"] = g[0].args[2][0]
                    r.need(bool(fact(st, lambda a: a.op == "has" and a.args[0] is g[0], True)), "dead-id-is-neighbour", c, "a client that is not a neighbour is reported lost", st)
                    r.need(v is tm.add(g[0], const(1)) or v is tm.add(mk("call", "?", None, ()), const(1)) or _plus_one(v, g[0]), "dead-id-one-based", c, "a lost neighbour is reported with the wrong index", st)

            if c.short == "Send" and len(c.args) > 1 and st.ts.get("gi") is not None:
                r.need(st.ts["gi"] is c.args[0], "dead-ids-from-recipients-view", c, "lost neighbours are numbered from another client's point of view", st)
                st.ts.pop("gi")

        def lp3(r, st, node, fr):
            if any(n[0] == "call" and sn(n[1]) == "Send" for n in walk(node)):
                st.ts.pop("gi", None)
            elif any(n[0] == "call" and sn(n[1]) == "add_dead_3_client_ids" for n in walk(node)):
                r.need(not leaves(node), "all-lost-neighbours-named", (fr.file, node[1]), "the list of lost neighbours may be left incomplete", st)
        ctx.run(R(scope=SCOPE, stops=QUIET + [r"::AbortClient$", r"::BroadcastMessage$", r"ServerState::Send$", r"::ExitState$"], call=c3, loop=lp3), method(ctx, cls, "ProceedToNextRound"))

        def ret(r, st, v, line, fr):
            cid = mk("param", r.eng.entry.params[0][1], r.eng.entry.name)
            lost = now(st, cid) == "DEAD_AFTER_SHARE_KEYS_RECEIVED"
            r.need(bool(st.ts.get("listed")) == lost, "lost-client-listed", (fr.file, line), "the list of clients lost before submitting input does not match their status", st)

        def c4(r, st, c):
            if c.short in ("push_back", "insert", "emplace_back", "emplace") and c.recv is not None and base_field(c.recv):
                st.ts["listed"] = 1
        ctx.run(R(scope=SCOPE, call=c4, ret=ret), method(ctx, cls, "HandleAbortClient"))
    ctx.need("lost-client-listed")
    ctx.need("dead-id-one-based")


def _plus_one(v, g):
    c, m = tm._lin(v)
    return c == 1 and len(m) == 1 and list(m.values()) == [1] and has_sub(next(iter(m)), is_(g))


# ---- S13: the sum is released once, only by a completed session ---------------------
def s13(ctx):
    for cls in state_classes(ctx) + [BASE]:
        for f in method(ctx, cls, "Result"):
            done = "Completed" in sn(cls)

            def ret(r, st, v, line, fr, done=done, cls=cls):
                if not done:
                    r.need(err_return(st, v), "result-only-when-completed", (fr.file, line), "%s hands out a result" % sn(cls), st)
                else:
                    if not err_return(st, v):
                        t = [x for x in tm.closure(v) if x.op == "fld" and sn(x.args[0]) == "result_" or call_p("TakeResult")(x)]
                        h = fact(st, lambda a: a.op == "has" or a.op == "fld", True)
                        r.need(bool(t) and bool(h), "result-present", (fr.file, line), "an absent result is handed out as success", st)
            ctx.run(R(scope=SCOPE, ret=ret), [f])
    ctx.need("result-only-when-completed")
    ctx.need("result-present")

    # result is moved out, and set at most once
    for f in ctx.db.funcs.values():
        if f.cls == IMPL and f.short == "TakeResult":
            mv = [n for n in walk(f.body) if n[0] in ("move",) and not any(x[0] in ("deref",) or x[0] == "un" and x[1] == "*" or x[0] == "call" and sn(x[1]) == "operator*" for x in walk(n))
                  or n[0] == "call" and sn(n[1]) in ("exchange", "release", "swap", "reset")]
            ctx.check("result-moved-out", f.rel(), f.line, bool(mv), "the result stays in place after being taken, so it can be taken twice")
        if f.cls == IMPL and f.short == "SetResult":
            def wr(r, st, place, val, line, fr):
                if place[0] == "f" and sn(place[2]) == "result_":
                    k = fact(st, lambda a: has_sub(a, fld_p("result_")), False)
                    r.need(bool(k), "result-set-once", (fr.file, line), "a result can be overwritten", st)
            ctx.run(R(scope=SCOPE, write=wr), [f])
    ctx.need("result-moved-out")
    ctx.need("result-set-once")

    # completion is announced only after the result is in place
    sp = [f for f in ctx.db.funcs.values() if is_a(ctx, f.cls or "", IMPL) and f.short == "StartPrng" and f.body is not None]
    if not sp:
        raise AnalysisError("anchor vanished: StartPrng")

    def call(r, st, c):
        if c.short == "SetResult":
            st.ts["set"] = 1
            v = c.args[0]
            r.need(flows_from(v, lambda t: t.op == "call" and sn(t.args[0]) == "GetResultAndCancel" or t.op == "hav" or t.op == "fld"), "result-is-accumulated-sum", c, "the result is not the accumulated sum", st)
        if c.kind == "icall" or c.short == "done_callback" or c.name.startswith("std::function"):
            a = c.args[0] if c.args else None
            if a is not None and okness(a) is True:
                r.need(bool(st.ts.get("set")), "result-before-completion", c, "completion is announced before the result is in place", st)

    ctx.run(R(scope=SCOPE, stops=[r"Accumulator.*::(?!SetAsyncObserver)", r"SetResult$"], call=call), sp)
    # what the unmasking work reports is what the session records
    for f in ctx.db.funcs.values():
        if f.body is None or not any(f.cls == c for c in state_classes(ctx)):
            continue
        sts = [mk("param", p[1], f.name) for p in f.params if re.search(r"Status\b", p[2])]
        if not sts or "completion_status_" not in fields_in(f.body):
            continue

        def wst(r, st, place, val, line, fr, sts=sts):
            if place[0] == "f" and sn(place[2]) == "completion_status_" and okness(val) is True:
                r.need(any(st.known(mk("ok", p)) is True for p in sts), "outcome-as-reported", (fr.file, line), "success is recorded whatever the unmasking work reported", st)
            elif place[0] == "f" and sn(place[2]) == "completion_status_":
                r.ok(r.eng, "outcome-as-reported", fr.file, line)
        ctx.run(R(scope=SCOPE, write=wst), [f])

    # a key that cannot be rebuilt is never skipped
    FALL = call_p("Reconstruct", "CreateFromShares", "CreateFromPrivateKey", "ComputeSharedSecret")
    rec = [f for f in ctx.db.funcs.values() if f.body is not None and is_a(ctx, f.cls or "", IMPL) and any(
        n[0] == "call" and sn(n[1]) in ("Reconstruct", "CreateFromShares", "CreateFromPrivateKey", "ComputeSharedSecret") for n in walk(f.body))]

    REC = ("Reconstruct", "CreateFromShares")
    THR = lambda t: call_p("GetThreshold", "minimum_surviving_neighbors_for_reconstruction")(t)

    def c4(r, st, c):
        if c.short in REC:
            st.ts["rebuilt"] = 1
            ints = [a for a in c.args if isinstance(a, T) and (THR(a) or has_sub(a, THR) or has_sub(a, MIN)) and a.op not in ("idx", "elem", "fld")]
            if ints:
                r.need(any(THR(a) for a in ints) or (None if any(a.op in ("hav", "call", "max") and has_sub(a, THR) for a in ints) else False), "rebuilt-from-enough-shares", c,
                       "a secret is rebuilt with another threshold than the one it was shared with", st)
            elif not any(a.op == "hav" for a in c.args if isinstance(a, T)):
                r.need(False, "rebuilt-from-enough-shares", c, "a secret is rebuilt with another threshold than the one it was shared with", st)

    def lp4(r, st, node, fr):
        if any(n[0] == "call" and sn(n[1]) in REC for n in walk(node)):
            st.ts.pop("rebuilt", None)

    def it4(r, st, node, fr):
        if node[0] in ("for", "rfor", "while") and any(n[0] == "call" and sn(n[1]) in REC for n in walk(node)):
            r.need(bool(st.ts.pop("rebuilt", 0)) and not leaves(node), "every-secret-rebuilt", (fr.file, node[1]), "the secret of some client is left out of the reconstruction", st)
        some = [a for a, v in st.facts.items() if a.op == "ok" and any(FALL(x) for x in tm.subterms(a))]
        if some:
            bad = [a for a in some if st.facts[a] is False]
            r.need(not bad, "no-key-skipped", (fr.file, node[1]), "a client whose key cannot be rebuilt is skipped and the sum is still released", st)
    ctx.run(R(scope=SCOPE, stops=[r"::(Reconstruct|CreateFromShares)$"], iter=it4, call=c4, loop=lp4), rec)
    ctx.need("no-key-skipped")
    ctx.need("rebuilt-from-enough-shares")

    failure_recorded(ctx)
    whole_result(ctx)


def failure_recorded(ctx):
    """A failed reconstruction is recorded as the outcome."""
    for cls in state_classes(ctx):
        for f in method(ctx, cls, "EnterState"):
            def ret3(r, st, v, line, fr):
                bad = fact(st, lambda a: a.op == "ok", False)
                if bad:
                    w = fld(st, "completion_status_")
                    for p, x in st.mem.items():
                        if p[0] == "f" and sn(p[2]) == "completion_status_":
                            w = x
                    r.need(w.op != "fld" and status_of(st, w) is not True, "failure-recorded", (fr.file, line), "a failed reconstruction is not recorded as the session's outcome", st)

            def c5(r, st, c):
                if c.short == "StartPrng":
                    r.need(not fact(st, lambda a: a.op == "ok", False), "unmask-only-with-keys", c, "unmasking starts although the keys could not be reconstructed", st)
            ctx.run(R(scope=SCOPE, stops=[r"ProtocolImpl::", r"::PrngRunnerFinished$"], call=c5, ret=ret3), [f])
    ctx.need("failure-recorded")


def whole_result(ctx):
    """Every vector of the accumulated sum is in what is released."""
    for f in [f for f in ctx.db.funcs.values() if is_a(ctx, f.cls or "", IMPL) and f.short == "StartPrng" and f.body is not None]:
        for n in walk(f.body):
            if n[0] in ("for", "rfor", "while") and any(x[0] == "call" and sn(x[1]) in ("emplace", "insert", "try_emplace", "insert_or_assign") for x in walk(n)):
                ctx.check("every-vector-released", f.rel(), n[1], not leaves(n) and not any(x[0] == "continue" for x in walk(n)), "a vector of the sum may be left out of the result")


def mask_lists(ctx):
    """Both lists of keys are expanded with their own sign, each key once."""
    sp = [f for f in ctx.db.funcs.values() if is_a(ctx, f.cls or "", IMPL) and f.short == "StartPrng" and f.body is not None]
    if not sp:
        raise AnalysisError("anchor vanished: StartPrng")
    # the masks scheduled cover all keys given: lists added as added, subtracted as subtracted
    seen = {}

    def call2(r, st, c):
        if isname(c, "UnpackedMapOfMasks", "MapOfMasks"):
            a, b = c.args[0], c.args[1]
            pa = {sn(x.args[0]) for x in tm.closure(a) if x.op == "fld" and "prng_keys" in x.args[0]}
            pb = {sn(x.args[0]) for x in tm.closure(b) if x.op == "fld" and "prng_keys" in x.args[0]}
            r.need(not any("subtract" in x for x in pa) and not any("add" in x for x in pb), "mask-sign-kept", c, "keys to subtract are added or keys to add are subtracted", st)
            if not r.eng.muted:
                for x in pa | pb:
                    seen[x] = 1
    ctx.run(R(scope=SCOPE, stops=[r"Accumulator.*::(?!SetAsyncObserver)"], call=call2), sp)
    ctx.need("mask-sign-kept")
    ctx.check("both-mask-lists-expanded", sp[0].rel(), sp[0].line, not seen or {"prng_keys_to_add", "prng_keys_to_subtract"} <= set(seen), "one of the two lists of masks is never expanded")

    # every expansion task is handed to the scheduler
    def call3(r, st, c):
        if c.short == "Schedule":
            st.ts["sch"] = min(2, st.ts.get("sch", 0) + 1)
            for x in c.args:
                if isinstance(x, T) and x.op == "idx" and x.args[1].op == "hav":
                    r.need(full_count(st, x.args[1]), "every-mask-task-scheduled", c, "some batches of masks are never scheduled", st)

    def lp3(r, st, node, fr):
        st.ts.pop("sch", None)

    def it3(r, st, node, fr):
        if any(n[0] == "call" and sn(n[1]) == "Schedule" for n in walk(node)):
            r.need(not cut_short(node), "every-mask-task-scheduled", (fr.file, node[1]), "some batches of masks are never scheduled", st)
            r.need(st.ts.pop("sch", 0) == 1, "every-mask-task-scheduled", (fr.file, node[1]), "a batch of masks is not scheduled exactly once", st)
    ctx.run(R(scope=SCOPE, stops=[r"Accumulator.*::"], call=call3, loop=lp3, iter=it3), sp)

    # consecutive batches neither overlap nor leave keys out
    for f in sp:
        for n in walk(f.body):
            if n[0] != "for" or n[4] is None:
                continue
            inc = [] if n[4] is None else [x for x in walk(n[4]) if x[0] == "asg" and x[1] == "+=" or x[0] == "call" and sn(x[1]) == "operator+="]
            for x in inc:
                var, step = (x[2], x[3]) if x[0] == "asg" else (x[2], x[3][0]) if x[2] is not None else (x[3][0], x[3][1])
                if var[0] != "var":
                    continue
                ends = []
                for y in walk(n[5]):
                    if y[0] == "op" and y[1] == "+" and y[2][:3] == var[:3]:
                        ends.append(y[3])
                    elif y[0] == "call" and sn(y[1]) == "operator+":
                        ab = [y[2]] + y[3] if y[2] is not None else y[3]
                        if ab[0][:3] == var[:3]:
                            ends.append(ab[1])
                def off(y):
                    return [z for z in walk(y) if z[0] == "op" and z[1] == "+" and z[2][:3] == var[:3] or z[0] == "call" and sn(z[1]) == "operator+"
                            and ([z[2]] + z[3] if z[2] is not None else z[3])[0][:3] == var[:3]]
                ctx.check("batches-reach-the-end", f.rel(), n[1], not off(n[3]), "the walk over the keys stops before a last batch that is not full")
                cut = [y for y in walk(n[5]) if y[0] == "op" and y[1] == "-" and off(y[2]) or y[0] == "call" and sn(y[1]) == "operator-"
                       and off(([y[2]] + y[3] if y[2] is not None else y[3])[0])]
                ctx.check("batches-contiguous", f.rel(), n[1], not cut, "a batch ends before the next one starts")
                for e in ends:
                    ctx.check("batches-contiguous", f.rel(), n[1], plain(e) == plain(step), "the step between batches differs from the batch size")


def plain(e):
    while e and e[0] in ("cast", "conv"):
        e = e[2] if e[0] == "cast" else e[-1]
    return e


# ---- S06, server half --------------------------------------------------------------
def s06_server(ctx):
    mask_lists(ctx)
    fs = [f for f in ctx.db.funcs.values() if f.cls == IMPL and f.short == "InitializePrng"]
    if not fs:
        raise AnalysisError("anchor vanished: InitializePrng")
    contributed = ("MASKED_INPUT_RESPONSE_RECEIVED", "UNMASKING_RESPONSE_RECEIVED", "DEAD_AFTER_UNMASKING_RESPONSE_RECEIVED", "DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED")

    def lst(c):
        r = recv_field(c)
        return "add" if r and "add" in r else "sub" if r and "sub" in r else None

    def call(r, st, c):
        if c.short not in ("push_back", "emplace_back") or "AesKey" not in (c.recvtype or ""):
            return
        role = lst(c)
        if role is None:
            r.need(None, "server-pairwise-sign", c, "list not recognised")
            return
        k = c.args[0]
        sh = next((x for x in tm.closure(k) if call_p("ComputeSharedSecret")(x)), None)
        if sh is None:
            # a self mask: was added by the client, so it is taken away
            r.need(role == "sub", "server-self-mask-removed", c, "a client's own mask is added again instead of removed", st)
            st.ts["self"] = min(2, st.ts.get("self", 0) + 1)
            return
        r.need(st.known(mk("ok", sh)) is True, "server-shared-secret-checked", c, "a key is used although computing it may have failed", st)
        out = fact(st, call_p("IsOutgoingNeighbor"))
        if not out:
            pub = [x.args[1] for x in tm.subterms(sh) if x.op == "idx" and "public_keys" in (base_field(x) or "")]
            by_id = pub and fact(st, lambda a: a.op == "lt" and any(is_(pub[0])(y) for y in a.args) and not any(TOTAL(y) for y in a.args))
            r.need(False if by_id else None, "server-pairwise-sign", c, "the sign of a pairwise mask is not taken from the neighbour relation the clients use", st)
            return
        a, v = out
        i, j = a.args[2]
        pub = [x.args[1] for x in tm.subterms(sh) if x.op == "idx" and "public_keys" in (base_field(x) or "")]
        flip = False
        if pub and j is pub[0]:
            flip = True      # asked from the lost client's side
        elif pub and i is not pub[0]:
            r.need(False, "server-pairwise-sign", c, "sign is chosen for a different pair of clients", st)
            return
        r.need((role == "add") == (v != flip), "server-pairwise-sign", c, "a pairwise mask left over from a lost client is corrected with the wrong sign", st)
        r.need(bool(fact(st, call_p("AreNeighbors"), True)) or bool(fact(st, lambda x: x.op == "has" and has_sub(x, call_p("GetNeighborIndex")), True)),
               "server-only-neighbours", c, "a pairwise mask is removed for clients that are not neighbours", st)

    def loop(r, st, node, fr):
        if any(n[0] == "enum" and "ClientStatus" in n[1] for n in walk(node)) or any(n[0] == "call" and sn(n[1]) == "client_status" for n in walk(node)):
            st.ts.pop("self", None)

    def it(r, st, node, fr):
        if not any(n[0] == "call" and sn(n[1]) == "client_status" for n in walk(node)):
            return
        ids = {a.args[1] for a in st.facts if a.op == "eq" and a.args[0].op == "enum" and "ClientStatus" in a.args[0].args[0]}
        for s in ids:
            eq = [sn(a.args[0].args[0]) for a, v in st.facts.items() if v and a.op == "eq" and a.args[1] is s and a.args[0].op == "enum"]
            ne = [sn(a.args[0].args[0]) for a, v in st.facts.items() if not v and a.op == "eq" and a.args[1] is s and a.args[0].op == "enum"]
            n = st.ts.get("self", 0)
            if eq and eq[0] in contributed:
                r.need(n == 1, "server-self-mask-per-contributor", (fr.file, node[1]), "a contributor's own mask is removed %d times" % n, st)
            elif eq:
                r.need(n == 0, "server-self-mask-per-contributor", (fr.file, node[1]), "a mask is removed for a client without included input", st)
            elif n == 0:
                need = set(contributed) - {"MASKED_INPUT_RESPONSE_RECEIVED"}
                r.need(need <= set(ne), "server-self-mask-per-contributor", (fr.file, node[1]), "a client whose input was included (%s) keeps its mask in the sum" % sorted(need - set(ne)), st)
            else:
                r.need(None, "server-self-mask-per-contributor", (fr.file, node[1]), "status not decided")
    ctx.run(R(scope=SCOPE, call=call, loop=loop, iter=it), fs)
    ctx.need("server-pairwise-sign")
    ctx.need("server-self-mask-removed")
    ctx.need("server-self-mask-per-contributor")

    # share tables: exactly the clients whose key of that kind has to be rebuilt
    pair = {"SHARE_KEYS_RECEIVED", "DEAD_AFTER_SHARE_KEYS_RECEIVED"}
    own = set(contributed)
    for f in [f for f in ctx.db.funcs.values() if f.cls == IMPL and f.short == "SetUpShamirSharesTables"]:
        def c2(r, st, c):
            if c.recv is not None and c.short in ("emplace", "try_emplace", "insert", "insert_or_assign") and recv_field(c):
                st.ts["tab"] = recv_field(c)

        def lp(r, st, node, fr):
            st.ts.pop("tab", None)

        def it2(r, st, node, fr):
            t = st.ts.pop("tab", None)
            allv = pair | own | {"READY_TO_START", "DEAD_BEFORE_SENDING_ANYTHING", "ADVERTISE_KEYS_RECEIVED", "DEAD_AFTER_ADVERTISE_KEYS_RECEIVED"}
            some = False
            for a, v in st.facts.items():
                if a.op == "eq" and a.args[0].op == "enum" and "ClientStatus" in a.args[0].args[0]:
                    some = True
                    n = sn(a.args[0].args[0])
                    if v:
                        allv &= {n}
                    else:
                        allv.discard(n)
            if not some:
                return
            at = (fr.file, node[1])
            if not allv:
                return  # a default branch no status reaches
            if allv <= pair:
                r.need(t is not None and "pairwise" in t, "table-of-lost-clients", at, "no table for the pairwise key of a client lost before submitting input", st)
            elif allv <= own:
                r.need(t is not None and "self" in t, "table-of-contributors", at, "no table for the own mask of a contributor", st)
            elif not allv & (pair | own):
                r.need(t is None, "no-table-otherwise", at, "shares are collected for a client that shared no keys", st)
            else:
                r.need(False, "table-of-contributors", at, "tables are set up without distinguishing clients lost before and after submitting input (%s)" % sorted(allv), st)
        ctx.run(R(scope=SCOPE, call=c2, loop=lp, iter=it2), [f])
    ctx.need("table-of-contributors", 1)

    # both graph kinds: of two distinct neighbours exactly one sees the other as outgoing
    graphs = [f for f in ctx.db.funcs.values() if f.short == "IsOutgoingNeighbor" and is_a(ctx, f.cls or "", "fcp::secagg::SecretSharingGraph") and f.body is not None
              and f.cls != "fcp::secagg::SecretSharingGraph"]
    for f in graphs:
        p1 = mk("param", f.params[0][1], f.name)
        p2 = mk("param", f.params[1][1], f.name)

        def ret(r, st, v, line, fr, p1=p1, p2=p2):
            for val, s in bool_cases(st, v):
                if val:
                    direct = at_least(s, is_(p2), is_(p1), 0)
                    gi = lambda t: has_sub(t, lambda x: call_p("GetNeighborIndex")(x) and x.args[2] == (p1, p2)) or flows_from(t, is_(p2))
                    by = [(m, c) for m, c in bounds(s) if any(gi(t) and q == 1 for t, q in m.items()) and any(q == -1 and not gi(t) for t, q in m.items())]
                    r.need(direct or bool(by), "outgoing-means-later", (fr.file, line), "a neighbour counts as outgoing without being later in the order", s)
                    for m, c in by if not direct else ():
                        for t in m:
                            if call_p("value_or")(t) and gi(t):
                                d = t.args[2][0] if t.args[2] else None
                                r.need(tm.cval(d) < 0 if d is not None and tm.is_int(d) else False if d is not None and d.op != "hav" else None, "outgoing-means-later", (fr.file, line),
                                       "a client that is no neighbour counts as an outgoing one", s)
                            elif t.op == "arith" and t.args[0] == "/" and not gi(t):
                                # index of the node itself: neighbours lie on both sides of it
                                r.need(c in (0, -1), "one-side-outgoing", (fr.file, line), "for some pairs of neighbours neither or both see the other as outgoing", s)
        ctx.run(R(scope=SCOPE, stops=[r"GetNeighborIndex$"], ret=ret), [f])
    ctx.need("outgoing-means-later", 2)
    # the position in a neighbour list tells the two sides of a client apart
    for f in [f for f in ctx.db.funcs.values() if f.short == "GetNeighborIndex" and is_a(ctx, f.cls or "", "fcp::secagg::SecretSharingGraph") and f.body is not None]:
        pos = set()

        def gret(r, st, v, line, fr):
            if not r.eng.muted and v.op != "null" and not (v.op == "c" and v is NULL):
                pos.add(v)
        ctx.run(R(scope=SCOPE, ret=gret), [f])
        dist = [v for v in pos if has_sub(v, lambda x: x.op == "call" and sn(x.args[0]) in ("abs", "min") or x.op in ("min", "abs"))]
        if dist:
            ctx.check("sides-told-apart", f.rel(), f.line, len(pos) > 1, "neighbours on either side of a client at the same distance get the same position")
