"""Rules for running work on the device: interruption, eligibility, tasks and their reports."""

import re

from fcx.kit import *
from rules.base import at, P_, const_of, of_type

NS = "fcp::client::"


def fns(ctx, cls, short):
    fs = [f for f in methods(ctx, NS + cls) if f.short == short]
    if not fs:
        raise AnalysisError("anchor vanished: %s::%s" % (cls, short))
    return fs


def free(ctx, short):
    fs = [f for f in ctx.db.funcs.values() if f.name.startswith(NS) and sn(f.name) == short and f.body is not None]
    if not fs:
        raise AnalysisError("anchor vanished: %s" % short)
    return fs


IR_UNITS = [r"^fcp/client/interruptible_runner\.(cc|h)$"]
IR = r"^fcp/client/interruptible_runner"


# ---- D11: interruption -----------------------------------------------------------------
def d11(ctx):
    cls = "fcp::client::InterruptibleRunner"
    asks = of_type(ctx.db, cls, r"function<bool")

    def asked(t):
        return t.op == "call" and isname(t, "operator()") and t.args[1] is not None and t.args[1].op == "fld" and t.args[1].args[0] in asks
    for f in fns(ctx, "InterruptibleRunner", "Run"):
        def call(r, st, c):
            if isname(c, "ScheduleFuture", "Schedule"):
                r.need(st.ts.get("ans") is False, "not-started-when-interrupted", c, "work is started without asking whether to stop first", st)
                st.ts["run"] = True
            elif isname(c, "operator()") and c.recv is not None and c.recv.op == "param":
                if P_(f, 1)(c.recv):
                    st.ts["told"] = True
                elif P_(f, 0)(c.recv):
                    r.need(False, "work-in-background", c, "the work runs where it cannot be interrupted", st)
            elif isname(c, "Wait") and st.ts.get("run"):
                r.need(bool(c.args), "wait-bounded", c, "waiting for the work without a time limit", st)
                if st.ts.get("ans"):
                    r.need(bool(st.ts.get("told")), "told-before-wait", c, "the work is waited for without having been told to stop", st)
                per = {sn(t.args[0]) for a in c.args for t in tm.subterms(a) if t.op == "fld" and sn(t.args[0]).endswith("_period")}
                if per:
                    st.ts["stage"] = st.ts.get("stage", 0) + 1 if st.ts.get("ans") else 0
                    want = ("polling_period", "graceful_shutdown_period", "extended_shutdown_period")[min(st.ts["stage"], 2)]
                    r.need(want in per, "periods-as-configured", c, "the work is waited for during %s instead of %s" % (sorted(per)[0], want), st)

        def branch(r, st, atom, pol, line, fr):
            if asked(atom):
                st.ts["ans"] = pol
                st.ts["fresh"] = True
            elif atom.op == "call" and isname(atom, "Wait"):
                st.ts["done"] = pol
                if pol:
                    st.ts["own"] = not st.ts.get("ans")

        def loop(r, st, node, fr):
            if node[0] != "do":
                st.ts["fresh"] = False

        def it(r, st, node, fr):
            if node[0] != "do" and st.ts.get("run"):
                r.need(bool(st.ts.get("fresh")), "interruption-noticed", at(fr, node[1]), "a round of waiting ends without asking whether to stop", st)

        def ret(r, st, v, line, fr):
            if st.ts.get("run"):
                r.need(bool(st.ts.get("done")), "never-left-running", at(fr, line), "control returns while the work may still be running", st)
                if st.ts.get("ans") and not st.ts.get("own"):
                    r.need(v.op == "call" and isname(v, "CancelledError") if not joined(v) else None, "interruption-reported", at(fr, line), "an interrupted run is not reported as cancelled", st)
                else:
                    r.need(has_sub(v, call_p("Take")) if not joined(v) else None, "outcome-reported", at(fr, line), "the outcome of the work is not what is reported", st)
            else:
                r.need(status_of(st, v) is False, "interruption-reported", at(fr, line), "work that never ran is reported as successful", st)
        ctx.run(R(scope=IR, call=call, branch=branch, loop=loop, iter=it, ret=ret), [f])
    ctx.need("never-left-running")
    ctx.need("not-started-when-interrupted")
    ctx.need("interruption-noticed")
    for f in ctx.db.find(r"^fcp::client::InterruptibleRunner::~InterruptibleRunner$"):
        if f.body is not None:
            ctx.check("destructor-waits", f.rel(), f.line, bool(list(calls_in(f, "WaitUntilIdle"))), "the runner can be destroyed while its work is running")


# ---- D12: eligibility is decided by all policies together --------------------------------
EL_UNITS = [r"^fcp/client/eligibility_decider\.cc$", r"^fcp/client/fl_runner\.cc$"]
EL = r"^fcp/client/eligibility_decider\.cc$"
POLICY_OF = ("swor_policy", "data_availability_policy", "min_sep_policy", "tf_custom_policy")


def root_key(t):
    """The variable a container term comes from, whatever was done to it since."""
    while t is not None:
        if t.op == "upd":
            t = t.args[1]
        elif t.op == "out":
            c = t.args[0]
            if c.op != "call" or not isinstance(t.args[1], int) or t.args[1] >= len(c.args[2]):
                return None
            t = c.args[2][t.args[1]]
        elif t.op == "hav":
            k = t.args[1]
            return tuple(k[-2:]) if isinstance(k, tuple) else k
        elif t.op == "obj":
            return tuple(t.args[1:3])
        else:
            return t
    return None


def d12(ctx):
    def policy_loop(n):
        return n[0] in ("for", "rfor", "while") and any(c[0] == "call" and sn(c[1]) in POLICY_OF for c in walk(n))

    def erasing(n):
        return n[0] in ("for", "rfor", "while") and any(c[0] == "call" and sn(c[1]) == "erase" for c in walk(n))
    roles = {}
    for f in free(ctx, "ComputeEligibility"):
        excluded, preds = {}, []

        def loop(r, st, node, fr):
            if node[0] == "do":
                return
            for k in ("match", "ins", "in", "er", "weights"):
                st.ts.pop(k, None)
            if policy_loop(node):
                st.ts["eval"], st.ts["applied"] = False, False
            elif any(c[0] == "call" and sn(c[1]) == "policy_type_case" for c in walk(node)):
                st.ts.pop("ver", None)
                st.ts["stored"] = False

        def branch(r, st, atom, pol, line, fr):
            if atom.op == "lt" and has_sub(atom.args[1], call_p("min_version")):
                st.ts["ver"] = not pol
            elif atom.op == "lt" and has_sub(atom.args[0], call_p("min_version")):
                st.ts["ver"] = pol
                r.need(atom.args[0].op == "lin" or not tm.is_const(atom.args[1]), "supported-version-suffices", at(fr, line), "a policy of just the version the client supports is refused", st)
            elif atom.op == "eq" and any(has_sub(x, call_p("eligibility_policy_indices")) for x in atom.args):
                st.ts["match"] = pol
                off = sum(tm._lin(x)[0] * (1 if i else -1) for i, x in enumerate(atom.args))
                r.need(off == 0, "policy-tasks-noted", at(fr, line), "a task is put down under another policy than the one it names", st)
            elif atom.op == "haskey" and atom.args[1].op == "elem":
                st.ts["in"] = pol

        def call(r, st, c):
            if isname(c, "insert", "emplace") and st.ts.get("match"):
                st.ts["ins"] = True
                roles.setdefault(root_key(c.recv), set()).add(bool(st.ts.get("ver")))
            elif any(isinstance(a, T) and has_sub(a, call_p(*POLICY_OF)) for a in c.args) or isname(c, "ComputeTfCustomPolicyEligibility"):
                if c.func is not None:
                    st.ts["eval"] = True
            elif isname(c, "erase", "erase_if"):
                k = root_key(c.recv if isname(c, "erase") else c.args[0])
                st.ts["er"] = k
                if isname(c, "erase_if") and st.ts.get("eval"):
                    st.ts["applied"] = True
                st.ts["gone"] = tuple(sorted(set(st.ts.get("gone", ())) | {k}, key=str))
            elif isname(c, "set_weight") and c.args:
                st.ts["weights"] = st.ts.get("weights", 0) + 1
                a = c.args[0]
                h = fact(st, lambda x: x.op == "haskey" and has_sub(x.args[1], call_p("task_name")))
                if not tm.is_const(a):
                    r.need(None, "weight-by-eligibility", c, "", st)
                else:
                    r.need(h is not None and h[1] == (tm.cval(a) > 0), "weight-by-eligibility", c, "a task's weight does not follow from its eligibility", st)
                    if h is not None:
                        excluded["E"] = root_key(h[0].args[0])

        def write(r, st, place, val, line, fr):
            if place[0] == "v" and val.op in ("lt", "not") and has_sub(val, call_p("min_version")):
                st.ts["ver"] = None     # the verdict is in the variable: keep this path apart
            if place[0] == "i" and has_sub(place[2], call_p("name")):
                r.need(bool(st.ts.get("ver")), "only-supported-policies-run", at(fr, line), "a policy newer than the client supports is evaluated", st)
                st.ts["stored"] = True

        def it(r, st, node, fr):
            if st.ts.get("match"):
                r.need(bool(st.ts.get("ins")), "policy-tasks-noted", at(fr, node[1]), "a task's use of a policy is forgotten", st)
            if st.ts.get("stored") is False and st.ts.get("ver") and node[0] != "do" and any(n[0] == "call" and sn(n[1]) == "min_version" for n in walk(node)) and not policy_loop(node):
                unused = fact(st, lambda a: a.op == "eq" and any(tm.is_const(x) and tm.cval(x) == 0 for x in a.args) and has_sub(a, call_p("size", "empty")), True)
                r.need(unused is not None, "policy-tasks-noted", at(fr, node[1]), "the tasks of a policy the client supports are forgotten", st)
            if policy_loop(node):
                if st.ts.get("eval"):
                    r.need(bool(st.ts.get("applied")), "verdict-applied", at(fr, node[1]), "a policy is evaluated but its verdict is not applied", st)
                else:
                    just = fact(st, lambda a: a.op == "haskey" and has_sub(a.args[1], call_p("name")), False) or \
                        fact(st, lambda a: a.op == "eq" and any(tm.is_const(x) and tm.cval(x) == 0 for x in a.args) and has_sub(a, call_p("size", "empty")), True)
                    r.need(just is not None, "every-policy-evaluated", at(fr, node[1]), "a policy is skipped although tasks depend on it", st)
            elif erasing(node) and "in" in st.ts and st.ts.get("eval"):
                if st.ts["in"]:
                    r.need(st.ts.get("er") is None, "eligible-task-kept", at(fr, node[1]), "a task every policy allows is removed", st)
                else:
                    r.need(st.ts.get("er") is not None, "ineligible-task-removed", at(fr, node[1]), "a task a policy refuses stays eligible", st)
            if any(c[0] == "call" and sn(c[1]) == "set_weight" for c in walk(node)) and node[0] != "do" and not policy_loop(node):
                r.need(st.ts.get("weights") == 1, "one-weight-per-task", at(fr, node[1]), "a task gets no weight or several", st)

        def reach(r, st, node, fr):
            if erasing(node) and not policy_loop(node):
                st.ts["applied"] = True
                if not st.ts.get("eval"):
                    st.ts["gone"] = tuple(st.ts.get("gone", ())) or ("loop",)
            elif policy_loop(node):
                bad = {k for k, v in roles.items() if False in v}
                good = {k for k, v in roles.items() if True in v}
                if not bad:
                    r.need(None, "unsupported-policies-exclude", at(fr, node[1]), "", st)
                    return
                r.need(not (bad & good), "unsupported-policies-exclude", at(fr, node[1]), "tasks using unsupported policies are not told apart", st)
                none = fact(st, lambda a: a.op == "eq" and any(tm.is_const(x) and tm.cval(x) == 0 for x in a.args) and
                            any(x.op == "call" and isname(x, "size", "empty") and root_key(x.args[1]) in bad for x in tm.subterms(a)), True)
                r.need(none is not None or bool(st.ts.get("gone")), "unsupported-policies-exclude", at(fr, node[1]), "tasks using unsupported policies stay eligible", st)

        def lamval(r, st, v, fr, node):
            # the predicates handed to erase_if
            neg = v
            pol = True
            while neg.op == "not":
                neg, pol = neg.args[0], not pol
            if st.ts.get("eval"):
                if tm.is_const(v):
                    refused = fact(st, lambda a: a.op == "haskey", False)
                    r.need(True if refused is not None and tm.cval(v) else None, "ineligible-task-removed", (fr.func.rel(), node[1]), "", st)
                else:
                    r.need(any(x.op == "haskey" for x in tm.subterms(v)) or None, "ineligible-task-removed", (fr.func.rel(), node[1]), "", st)
                return
            if neg.op == "haskey":
                k = root_key(neg.args[0])
                if not r.eng.muted:
                    preds.append((k, pol, fr.func.rel(), node[1]))
                if k in roles:
                    r.need(pol == (False in roles[k]), "unsupported-policies-exclude", (fr.func.rel(), node[1]), "the tasks to exclude and to keep are swapped", st)
        ctx.run(R(scope=EL, stops=[r"::Compute(PerTask|DataAvail|TfCustom|MinimumSep)\w*$"], loop=loop, reach=reach, branch=branch, call=call, write=write, iter=it, lamval=lamval), [f])
        for k, pol, file, line in preds:
            if k == excluded.get("E"):
                ctx.check("policy-asked-about-candidates", file, line, not pol, "a policy is asked about the tasks that are out already, not about those left")
        for n in walk(f.body):
            if n[0] == "op" and n[1] in ("<", ">", "<=", ">=") and any(c[0] == "call" and sn(c[1]) == "min_version" for c in walk(n)):
                ctx.check("supported-version-exact", f.rel(), n[4], not any(c[0] == "op" and c[1] in ("+", "-", "*", "/") for x in (n[2], n[3]) for c in walk(x)), "the version a policy needs is not compared with the one supported")
            if n[0] in ("for", "rfor") and (erasing(n) and not policy_loop(n) or any(c[0] == "call" and sn(c[1]) == "eligibility_policy_indices" for x in n[2:-1] if isinstance(x, list) for c in walk(x))):
                inner = [m for m in walk(n) if m[0] in ("for", "rfor", "while", "switch", "do") and m is not n and m[0] != "do"]
                ins = [i for i, m in enumerate(flat(n)) if m[0] == "call" and sn(m[1]) in ("insert", "emplace")]
                brk = [i for i, m in enumerate(flat(n)) if m[0] == "break"]
                if not inner:
                    ctx.check("no-task-skipped", f.rel(), n[1], not brk or bool(ins) and brk[0] > ins[0], "the tasks of a policy are not gone through to the end")
        verdicts(ctx, f)
    for r_ in ("weight-by-eligibility", "ineligible-task-removed", "verdict-applied", "only-supported-policies-run"):
        ctx.need(r_)

    # which tasks the server is asked for
    for f in [g for g in ctx.db.in_files(r"^fcp/client/fl_runner\.cc$") if g.body is not None and any(n[0] == "for" or n[0] == "rfor" for n in walk(g.body)) and list(calls_in(g, "task_weights"))
              and list(calls_in(g, "push_back"))]:
        def call(r, st, c):
            if isname(c, "push_back", "emplace_back") and c.args and has_sub(c.args[0], lambda x: x.op == "elem" and has_sub(x, call_p("task_weights"))):
                w = fact(st, lambda a: a.op == "lt" and has_sub(a, call_p("weight")))
                r.need(w is not None and w[1] and zero_(w[0].args[0]), "only-eligible-tasks-requested", c, "a task is requested although the device is not eligible for it", st)

        def write(r, st, place, val, line, fr):
            if place[0] == "f" and "task_names" in place[2] and not tm.is_const(val) and fact(st, lambda a: a.op == "lt" and has_sub(a, call_p("weight"))):
                r.need(False, "only-eligible-tasks-requested", at(fr, line), "tasks are requested whether or not the device is eligible for them", st)
        ctx.run(R(scope=r"^fcp/client/fl_runner\.cc$", call=call, write=write), [f])
    ctx.need("only-eligible-tasks-requested")


def flat(n):
    return list(walk(n))


def zero_(t):
    return tm.is_const(t) and tm.cval(t) == 0


def verdicts(ctx, f):
    """Only a policy that was evaluated successfully can leave tasks eligible."""
    pols = {}
    for n in walk(f.body):
        if n[0] == "call" and re.search(r"^Compute", sn(n[1])):
            pols[sn(n[1])] = n[6] or ""
    checked = {k for k, v in pols.items() if "StatusOr" in v}
    flags = {k for k in checked if re.search(r"StatusOr<bool>", pols[k])}
    erased = {n[4] for n in walk(f.body) if n[0] == "call" and sn(n[1]) in ("erase", "erase_if")}

    def write(r, st, place, val, line, fr):
        if place[0] != "v":
            return
        if val.op == "call" and sn(val.args[0]) in checked - flags and "StatusOr" not in vtype(fr, place):
            k = st.known(tm.mk("ok", val))
            r.need(k is True, "failed-policy-excludes", at(fr, line), "a policy that could not be evaluated makes tasks eligible", st)
        elif val.op == "out" and st.ts.get("flag") is not None and line not in erased:
            c = st.ts["flag"]
            r.need(st.known(tm.mk("ok", c)) is True and (sn(c.args[0]) not in flags or st.known(c) is True), "failed-policy-excludes", at(fr, line), "tasks stay eligible although the policy did not allow them", st)

    def after(r, st, c, ret):
        if sn(c.name) in checked:
            st.ts["flag"] = ret
        elif re.search("^Compute", sn(c.name)):
            st.ts["flag"] = None

    def vtype(fr, place):
        for n in walk(fr.func.body):
            if n[0] == "decl" and n[2] == place[2]:
                return str(n[4])
        return ""

    def loop(r, st, node, fr):
        st.ts["flag"] = None
    ctx.run(R(scope=EL, stops=[r"::Compute(PerTask|DataAvail|TfCustom|MinimumSep)\w*$"], write=write, after=after, loop=loop), [f])


# ---- D13: what the individual policies allow ----------------------------------------------
def coef(t, p):
    """The factor with which a term counts in a sum (0: not at all)."""
    if t.op == "lin":
        for k, x in t.args[1]:
            if has_sub(x, p):
                return k
        return 0
    return 1 if has_sub(t, p) else 0


def plain(t, name):
    """A policy's own number, converted but not scaled or shifted."""
    while t.op == "call" and not isname(t, name):
        a = [x for x in tuple(t.args[2]) if isinstance(x, T)]
        if t.args[1] is not None or len(a) != 1:
            return False
        t = a[0]
    return t.op == "call"


def d13(ctx):
    inel = [f for f in ctx.db.in_files(EL) if f.body is not None]
    trust = call_p("earliest_trustworthy_time")

    def takes(f, ty, ret):
        return any(ty in p[2] for p in f.params) and re.search(ret, f.ret)

    def last(t):
        return t.op == "call" and sn(t.args[0]).startswith("GetLastSuccessfulContribution")

    def trusted(st, period):
        return fact(st, lambda a: a.op == "lt" and plain(a.args[1], period) and coef(a.args[0], trust) == -1 and coef(a.args[0], call_p("Now")) == 1, False) is not None or \
            fact(st, lambda a: a.op == "lt" and plain(a.args[0], period) and coef(a.args[1], trust) == -1 and coef(a.args[1], call_p("Now")) == 1, True) is not None

    def far(st, least, now):
        """A fact about how long ago the last contribution was: True long enough, False not, None unknown."""
        if fact(st, lambda a: a.op == "has" and has_sub(a, last), False):
            return True
        w = fact(st, lambda a: a.op == "lt" and plain(a.args[0], least) and coef(a.args[1], last) == -1 and coef(a.args[1], call_p(now)) == 1)
        return None if w is None else w[1]

    def judge(f, period, least, now, always):
        def allowed(r, st, w, what):
            ok = far(st, least, now)
            r.need(ok is True, "contributed-long-enough-ago", w, "%s although the last contribution was too recent or was not looked at" % what, st)
            t = trusted(st, period) or (not always and (fact(st, call_p("check_trustworthiness_for_min_sep_policy"), False) or
                                        fact(st, lambda a: a.op == "eq" and has_sub(a, call_p(period)) and has_sub(a, call_p("ZeroDuration")), True)))
            r.need(bool(t), "history-reaches-back-far-enough", w, "%s although the record of contributions does not cover the period" % what, st)

        def call(r, st, c):
            if sn(c.name).startswith("GetLastSuccessfulContribution") and not any(has_sub(x, lambda y: y.op == "ctor" and sn(y.args[0]) == "RE2") for x in c.args if isinstance(x, T)) and len(c.args) == 2:
                x = c.args[1]
                r.need(None if has_sub(x, lambda y: y.op == "hav") else has_sub(x, lambda y: y.op == "elem"), "own-contribution-asked", c, "another task's contribution decides about a task", st)
            if isname(c, "insert", "emplace") and c.args and any(x.op == "elem" and x.args[0].op == "param" for x in c.args if isinstance(x, T)):
                st.ts["in"] = True
                allowed(r, st, c, "a task is allowed")

        def loop(r, st, node, fr):
            if node[0] != "do":
                st.ts.pop("in", None)

        def it(r, st, node, fr):
            if node[0] != "do" and not st.ts.get("in") and any(n[0] == "call" and sn(n[1]) in ("insert", "emplace") for n in walk(node)):
                r.need(far(st, least, now) is False, "allowed-when-due", at(fr, node[1]), "a task is refused although its last contribution is long enough ago", st)

        def ret(r, st, v, line, fr):
            if fr.func is not f:
                return
            if v.op in ("ctor", "list") and not v.args[1] and trusted(st, period) and always:
                r.need(far(st, least, now) is not True, "allowed-when-due", at(fr, line), "tasks are refused although the last contribution is long enough ago or there is none", st)
            if v.op == "param":
                allowed(r, st, at(fr, line), "all tasks are allowed")
                r.need(not fact(st, lambda a: a.op == "ok" and has_sub(a, lambda x: x.op == "ctor" and sn(x.args[0]) == "RE2"), False), "bad-pattern-refuses", at(fr, line), "a pattern that cannot be used allows tasks", st)
        ctx.run(R(scope=EL, call=call, loop=loop, iter=it, ret=ret), [f])
    for f in inel:
        if takes(f, "SamplingWithoutReplacementPolicy", "flat_hash_set"):
            judge(f, "min_period", "min_period", "Now", True)
        elif takes(f, "MinimumSeparationPolicy", "flat_hash_set"):
            judge(f, "min_trustworthiness_period", "minimum_separation", "current_index", False)
        elif takes(f, "DataAvailabilityPolicy", r"StatusOr<bool>"):
            least = call_p("min_example_count")

            def ret(r, st, v, line, fr, f=f):
                if fr.func is not f:
                    return
                if tm.is_const(v) and isinstance(tm.cval(v), (bool, int)):
                    ge = fact(st, lambda a: a.op == "lt" and least(a.args[1]) and a.args[0].op != "lin", False) or fact(st, lambda a: a.op == "lt" and least(a.args[0]), True)
                    if tm.cval(v):
                        other = fact(st, lambda a: a.op in ("lt", "eq") and has_sub(a, lambda x: x.op == "hav") and not has_sub(a, least) and not has_sub(a, lambda x: x.op == "call"))
                        r.need(True if ge is not None else None if other else False, "enough-examples", at(fr, line), "data counts as available without the required number of examples", st)
                    else:
                        failed = fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("Next")), False)
                        end = fact(st, call_p("IsOutOfRange"), True) or (not failed and fact(st, lambda a: a.op == "lt" and has_sub(a.args[1], least), True)) or \
                            fact(st, lambda a: a.op == "eq" and has_sub(a, lambda x: x.op == "enum" and sn(str(x.args[0])) == "kOutOfRange"), True)
                        r.need(bool(end), "shortage-only-at-the-end", at(fr, line), "data counts as missing although the examples were not read to their end", st)
                elif v.op in ("not", "lt"):
                    neg = v.op == "not"
                    a = v.args[0] if neg else v
                    if a.op == "lt" and has_sub(a, least):
                        r.need(has_sub(a.args[1], least) if neg else has_sub(a.args[0], least), "enough-examples", at(fr, line), "the number of examples is compared the wrong way round", st)
                    elif a.op == "lt" and not has_sub(a, least):
                        short = fact(st, lambda b: b.op == "lt" and least(b.args[1]) and has_sub(a, lambda x: x == b.args[0]), True)
                        r.need(False if short or not has_sub(a, lambda x: x.op == "hav") else None, "enough-examples", at(fr, line), "the number of examples is not compared with the one required", st)

            def write(r, st, place, val, line, fr):
                if place[0] == "v" and val.op == "lin" and val.args[0] == 1 and len(val.args[1]) == 1 and val.args[1][0][1].op == "hav" and fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("Next"))):
                    r.need(fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("Next")), True) is not None, "only-real-examples-count", at(fr, line), "something that is not an example is counted", st)
            ctx.run(R(scope=EL, ret=ret, write=write), [f])
        elif re.search("StatusOr<absl::flat_hash_set", f.ret) and list(calls_in(f, "RunPlan")):
            def call(r, st, c, f=f):
                if isname(c, "insert", "emplace") and c.args and has_sub(c.args[0], lambda x: x.op == "elem" and has_sub(x, call_p("task_weights"))):
                    w = fact(st, lambda a: a.op == "lt" and has_sub(a, call_p("weight")))
                    r.need(w is not None and w[1] and zero_(w[0].args[0]), "positive-weight-needed", c, "a task of weight zero is allowed", st)
                    o = fact(st, lambda a: a.op == "eq" and has_sub(a, lambda x: x.op == "enum" and str(x.args[0]).endswith("PlanOutcome::kSuccess")))
                    r.need(o is not None and o[1], "failed-run-refuses", c, "a custom policy that did not run successfully allows tasks", st)

            ctx.run(R(scope=EL, call=call), [f])
    for r_ in ("contributed-long-enough-ago", "history-reaches-back-far-enough", "enough-examples", "positive-weight-needed"):
        ctx.need(r_)


def proto_enum(ctx, ending):
    """Values of a generated enum by the name their owner uses for them."""
    out = {}
    for k, v in ctx.db.enums.items():
        if k.endswith(ending):
            for e, n in v:
                out[re.sub(r"^.*?%s_" % ending, "", sn(e))] = n
    if not out:
        raise AnalysisError("anchor vanished: enum %s" % ending)
    return out


# ---- D14: contributions and their reports ---------------------------------------------------
FL_UNITS = [r"^fcp/client/fl_runner\.cc$", r"^fcp/client/phase_logger_impl\.(cc|h)$"]
FL = r"^fcp/client/fl_runner\.cc$"


def struct_of(ctx, ty):
    """The class a type text names, if it is one of ours."""
    for n in ctx.db.classes:
        if re.search(r"(^|[ <:])%s\b" % re.escape(n.split("::")[-1]), ty) and n.startswith(NS):
            yield n


def run_fns(ctx):
    """The functions that run a task: they give an outcome together with the results."""
    out = []
    for f in ctx.db.in_files(FL):
        if f.body is None:
            continue
        for n in struct_of(ctx, f.ret):
            tys = [x[1] for x in ctx.db.classes[n]["fields"]]
            if any("PlanOutcome" in t for t in tys) and any("StatusOr<" in t for t in tys):
                out.append(f)
    return out


def ok_of(t, p):
    return t.op == "ok" and has_sub(t.args[0], p) and t.args[0].op == "call" and p(t.args[0])


def d14(ctx):
    runs = run_fns(ctx)
    if not runs:
        raise AnalysisError("anchor vanished: no function runs a task")
    names = {f.name for f in runs}
    contrib = proto_enum(ctx, "ContributionResult")
    done = [f for f in ctx.db.in_files(FL) if f.body is not None and list(calls_in(f, "OnTaskCompleted"))]
    heavy = sorted({"::%s$" % re.escape(sn(n)) for n in names} | {r"::(HandleMultipleTaskAssignments|Issue\w+|FillSelector\w+|Log\w+Status|GetNetworkStatsSince|UpdateRetryWindow\w+|Create(Simple|Eligib)\w+)$"})
    started = call_p("LogResultUploadStarted")
    failing = call_p("LogFailureUploadStarted")
    sent = call_p("ReportCompleted")
    notsent = call_p("ReportNotCompleted")

    def ran(t):
        return t.op == "call" and t.args[0] in names

    def fresh(st):
        for k in ("sent", "up", "ran", "reports", "done", "res", "out", "log"):
            st.ts.pop(k, None)

    for f in done:
        def call(r, st, c):
            if c.name in names:
                fresh(st)
                st.ts["ran"] = True
            elif isname(c, "ReportCompleted", "ReportNotCompleted"):
                good = isname(c, "ReportCompleted")
                st.ts["reports"] = st.ts.get("reports", 0) + 1
                st.ts["sent"] = good
                r.need(st.ts["reports"] == 1, "one-report-per-task", c, "a task is reported more than once", st)
                r.need(st.ts.get("log") == ("results" if good else "failure"), "recorded-before-upload", c, "the upload starts although its start was not recorded", st)
                if good:
                    r.need(st.ts.get("res") is True and has_sub(c.args[0], ran), "results-of-the-task-uploaded", c, "what is uploaded is not the results of a task that has some", st)
                else:
                    r.need(st.ts.get("res") is not True, "results-not-withheld", c, "a failure is reported although there are results", st)
                el = [x for x in tm.subterms(c.args[2]) if x.op == "elem"] if len(c.args) > 2 else []
                arg = [t for t in tm.subterms(c.args[0]) if ran(t)] or [t for a in st.facts for t in tm.subterms(a[0] if isinstance(a, tuple) else a) if ran(t)]
                mine = arg and any(x.op == "elem" for x in tm.subterms(arg[0].args[2][0]))
                if mine:
                    r.need(any(e == x for e in el for x in tm.subterms(arg[0].args[2][0])), "own-session", c, "a task is reported under another task's session", st)
                elif arg:
                    r.need(not el, "own-session", c, "a task is reported under another task's session", st)
            elif isname(c, "set_result") and c.args:
                v = bool(tm.cval(c.args[0])) if tm.is_const(c.args[0]) else st.known(c.args[0])
                ok = bool(st.ts.get("sent")) and st.ts.get("up") is True and st.ts.get("res") is True
                if v is None:
                    r.need(None, "success-means-uploaded", c, "", st)
                elif v:
                    r.need(ok and st.ts.get("out") is not False, "success-means-uploaded", c, "a task counts as contributed although its results were not uploaded", st)
                else:
                    r.need(not (ok and st.ts.get("out") is not False), "uploaded-means-success", c, "a task whose results were uploaded does not count", st)
            elif isname(c, "push_back", "emplace_back") and st.ts.get("ran") and c.args and has_sub(c.args[0], lambda x: x.op == "fld" and sn(x.args[0]) == "task_name"):
                ok = bool(st.ts.get("sent")) and st.ts.get("up") is True and st.ts.get("res") is True
                r.need(ok, "success-means-uploaded", c, "a task is listed as contributed although its results were not uploaded", st)
            elif isname(c, "OnTaskCompleted"):
                st.ts["done"] = st.ts.get("done", 0) + 1
                r.need(st.ts["done"] == 1, "told-once-per-task", c, "the embedder is told about a task twice", st)
                r.need(st.ts.get("reports") == 1 or st.ts.get("log") == "failed", "every-task-reported", c, "a task that ran is not reported", st)
            elif isname(c, "set_contribution_result") and c.args:
                v = c.args[0]
                nm = {n: k for k, n in contrib.items()}.get(tm.cval(v)) if tm.is_const(v) else None
                if nm in ("SUCCESS", "PARTIAL"):
                    e = fact(st, lambda a: a.op == "eq" and has_sub(a, call_p("size")) and not any(zero_(x) for x in a.args))
                    r.need(e is not None and e[1] == (nm == "SUCCESS"), "contribution-as-counted", c, "full and partial contributions are confused", st)
                    for x in (tm.subterms(e[0]) if e else ()):
                        if x.op == "call" and isname(x, "size") and x.args[1] is not None:
                            if x.args[1].op == "upd" and sn(x.args[1].args[0]) in ("push_back", "emplace_back") or \
                                    fact(st, lambda a: a.op == "eq" and any(zero_(y) for y in a.args) and any(y == x for y in a.args), False):
                                break
                    else:
                        r.need(False, "contribution-as-counted", c, "a contribution is announced although no task counted", st)
                st.ts["contrib"] = True

        def branch(r, st, atom, pol, line, fr):
            if atom.op == "ok" and atom.args[0].op == "call":
                x = atom.args[0]
                if started(x) or failing(x):
                    st.ts["log"] = ("results" if started(x) else "failure") if pol else "failed"
                elif sent(x):
                    st.ts["up"] = pol
            if atom.op == "ok" and atom.args[0].op == "fld" and has_sub(atom.args[0].args[1], ran):
                st.ts["res"] = pol
            if atom.op == "eq" and has_sub(atom, ran) and has_sub(atom, lambda x: x.op == "enum" and str(x.args[0]).endswith("PlanOutcome::kSuccess")):
                st.ts["out"] = pol

        def loop(r, st, node, fr):
            if node[0] != "do":
                fresh(st)

        def finish(r, st, w):
            if st.ts.get("ran"):
                r.need(st.ts.get("done") == 1, "told-once-per-task", w, "the embedder is not told about a task that ran", st)

        def it(r, st, node, fr):
            if node[0] != "do" and any(n[0] == "call" and sn(n[1]) == "OnTaskCompleted" for n in walk(node)):
                finish(r, st, at(fr, node[1]))

        def ret(r, st, v, line, fr, f=f):
            if fr.func is f:
                if not any(n[0] in ("for", "rfor", "while") and any(c[0] == "call" and sn(c[1]) == "OnTaskCompleted" for c in walk(n)) for n in walk(f.body)):
                    finish(r, st, at(fr, line))
                if "FLRunnerResult" in f.ret and not fact(st, lambda a: a.op == "ok", False):
                    r.need(bool(st.ts.get("contrib")), "contribution-stated", at(fr, line), "the outcome says nothing about the contribution", st)
        ctx.run(R(scope=FL, stops=heavy, call=call, branch=branch, loop=loop, iter=it, ret=ret), [f])
    for r_ in ("recorded-before-upload", "success-means-uploaded", "told-once-per-task", "every-task-reported"):
        ctx.need(r_)

    # results exist only for a run that succeeded
    makers = [f for f in ctx.db.in_files(FL) if f.body is not None and re.search(r"StatusOr<.*ComputationResults>|StatusOr<absl::node_hash_map<.*QuantizedTensor", f.ret)]
    succeeded = lambda a: a.op == "eq" and has_sub(a, lambda x: x.op == "enum" and str(x.args[0]).endswith("PlanOutcome::kSuccess"))
    for m in makers:
        guarded = set()

        def ccall(r, st, c, m=m):
            if c.name == m.name:
                guarded.add(fact(st, succeeded, True) is not None)
        for g in runs:
            ctx.run(R(scope=r"^$", call=ccall), [g])
        if guarded == {True}:
            ctx.ob("results-only-of-a-success", m.rel(), m.line)
            continue

        def mret(r, st, v, line, fr, m=m):
            if fr.func is m and status_of(st, v) is not False:
                r.need(fact(st, succeeded, True) is not None, "results-only-of-a-success", at(fr, line), "results are made from a run that did not succeed", st)
        ctx.run(R(scope=r"^$", ret=mret), [m])

    # the start of an upload is on disk before it is announced as recorded
    kinds = proto_enum(ctx, "EventKind")
    for short, kind in (("LogResultUploadStarted", "EVENT_KIND_RESULT_UPLOAD_STARTED"), ("LogFailureUploadStarted", "EVENT_KIND_FAILURE_UPLOAD_STARTED")):
        for f in fns(ctx, "PhaseLoggerImpl", short):
            def call(r, st, c, kind=kind):
                if isname(c, "AddEvent", "AddEventWithErrorMessage") and c.args and tm.is_const(c.args[0]) and tm.cval(c.args[0]) == kinds.get(kind):
                    st.ts["ev"] = True
                elif isname(c, "CommitToStorage"):
                    st.ts["commit"] = bool(st.ts.get("ev"))

            def ret(r, st, v, line, fr, f=f):
                if fr.func is not f:
                    return
                if has_sub(v, call_p("CommitToStorage")):
                    r.need(bool(st.ts.get("commit")), "start-of-upload-stored", at(fr, line), "the start of the upload is not among what is stored", st)
                elif status_of(st, v) is True:
                    good = st.ts.get("commit") and fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("CommitToStorage")), True)
                    r.need(bool(good), "start-of-upload-stored", at(fr, line), "the upload may start although its start was not stored", st)
            ctx.run(R(scope=r"^fcp/client/phase_logger", call=call, ret=ret), [f])
    ctx.need("start-of-upload-stored")


# ---- D15: the order of a session ------------------------------------------------------------
def d15(ctx):
    runs = run_fns(ctx)
    names = {f.name for f in runs}
    infl = [f for f in ctx.db.in_files(FL) if f.body is not None]
    tops = [f for f in infl if list(calls_in(f, "set_contribution_result")) and "FLRunnerResult" in f.ret]
    if not tops or not names:
        raise AnalysisError("anchor vanished: no function runs a session")
    # plans are run and results built elsewhere (D12-D14); stay with the session itself
    heavy = ["::%s$" % re.escape(sn(n)) for n in names] + \
        [r"::%s$" % re.escape(f.short) for f in infl if re.search(r"PlanResult|ComputationResults|EligibilityEvalResult>?$", f.ret) and not list(calls_in(f, "EligibilityEvalCheckin"))] + \
        [r"::(Log\w+|GetNetworkStatsSince|GetCumulative\w+|FillSel\w+|Create(Simple|Elig)\w+|ComputeElig\w+|RunElig\w+|ReportPlanResult)$"]
    talk = ("EligibilityEvalCheckin", "Checkin", "PerformMultipleTaskAssignments", "MultipleTaskAssignments", "ReportCompleted", "ReportNotCompleted")

    for f in tops:
        def call(r, st, c):
            if isname(c, *talk):
                r.need(st.ts.get("abort") is False, "asked-before-talking", c, "the server is contacted without asking first whether to stop", st)
                if not isname(c, "EligibilityEvalCheckin"):
                    r.need(st.ts.get("elig") is True, "eligibility-comes-first", c, "a task is asked for although the eligibility step failed or was refused", st)
                else:
                    st.ts["elig"] = True
                st.ts["stale"] = True
                if isname(c, "Checkin"):
                    st.ts["given"] = None
            elif c.name in reporters:
                st.ts["stale"] = True
            elif isname(c, "GetLatestRetryWindow"):
                st.ts["stale"] = False
            elif c.name in names:
                r.need(st.ts.get("elig") is True and st.ts.get("given") is not False and status_of(st, c.args[0]) is not False, "run-only-when-assigned", c, "a task is run although none was assigned", st)

        def branch(r, st, atom, pol, line, fr):
            if atom.op == "call" and isname(atom, "ShouldAbort"):
                st.ts["abort"] = pol
            if atom.op == "ok" and atom.args[0].op == "call":
                x = atom.args[0]
                if isname(x, "EligibilityEvalCheckin") and not pol:
                    st.ts["elig"] = False
                elif isname(x, "Checkin") and not pol:
                    st.ts["given"] = False
                elif x.args[0] in fnames and not pol and any(y.op == "call" and re.search(r"::get(_if)?<EligibilityEvalTask>$", y.args[0]) for y in x.args[2] if isinstance(y, T)):
                    st.ts["elig"] = False
            if atom.op == "call" and atom.args[0] == "std::holds_alternative<Rejection>" and pol:
                for x in atom.args[2]:
                    if x.op == "call" and isname(x, "EligibilityEvalCheckin"):
                        st.ts["elig"] = False
                    elif x.op == "call" and isname(x, "Checkin"):
                        st.ts["given"] = False
        fnames = {g.name for g in infl}
        reporters = {g.name for g in infl if list(calls_in(g, "ReportCompleted"))}

        def ret(r, st, v, line, fr, f=f):
            if fr.func is f:
                r.need(not st.ts.get("stale"), "schedule-up-to-date", at(fr, line), "the session ends with an outdated retry window", st)
        ctx.run(R(scope=FL, stops=heavy, call=call, branch=branch, ret=ret), [f])
    for r_ in ("asked-before-talking", "eligibility-comes-first", "run-only-when-assigned", "schedule-up-to-date"):
        ctx.need(r_)


# ---- D16: what is recorded is what happened ----------------------------------------------------
PL = r"^fcp/client/phase_logger"
SUBJECT = {"ELIGIBILITY", "MULTIPLE", "RESULT", "FAILURE", "COMPUTATION", "UPLOAD"}
OUTCOME = {"IO", "INTERRUPTED", "ABORTED", "REJECTED", "PAYLOAD", "ARGUMENT", "ITERATOR", "TENSORFLOW", "FATAL", "NONFATAL", "PARTIAL", "URI", "DISABLED"}
ALIAS = {"TURNED": "REJECTED", "CONFIGURED": "DISABLED", "COMPLETED": "FINISHED", "ENABLED": "FINISHED", "ACCEPTED": "FINISHED", "I": "IO"}
RUNS_OF = {"INTERRUPTED": "kInterrupted", "ARGUMENT": "kInvalidArgument", "ITERATOR": "kExampleIteratorError"}


def words(name):
    if "_" in name or name.isupper():
        ws = name.upper().split("_")
    else:
        ws = [w.upper() for w in re.findall(r"IO|TF|[A-Z][a-z0-9]*", name)]
    return {ALIAS.get(w, w) for w in ws}


def d16(ctx):
    kinds = {n: k for k, n in proto_enum(ctx, "EventKind").items()}
    phases = {n: k for k, n in proto_enum(ctx, "PhaseStats_Phase").items()}
    keep = of_type(ctx.db, NS + "PhaseLoggerImpl", r"^(const )?bool$")
    logs = [f for f in methods(ctx, NS + "PhaseLoggerImpl") if f.overrides and f.short.startswith("Log")]
    for f in logs:
        w = words(f.short[3:])
        texts = [i for i, p in enumerate(f.params) if re.search(r"Status\b", p[2])]

        def kind(c):
            for a in c.args:
                if tm.is_const(a) and isinstance(tm.cval(a), int) and tm.cval(a) in kinds:
                    return kinds[tm.cval(a)]

        def call(r, st, c, f=f, w=w, texts=texts):
            if isname(c, "AddEvent", "AddEventWithErrorMessage", "AddEventAndSetTaskName"):
                k = kind(c)
                if k is None:
                    r.need(None, "recorded-as-what-it-was", c, "", st)
                    return
                e = words(k.replace("EVENT_KIND_", ""))
                same = (e & (SUBJECT | OUTCOME)) == (w & (SUBJECT | OUTCOME)) and ("FINISHED" in e) == ("FINISHED" in w) and ("STARTED" in e) == ("STARTED" in w)
                r.need(same, "recorded-as-what-it-was", c, "%s is recorded as %s" % (f.short[3:], k), st)
                r.need(not st.ts.get("stop"), "recorded-in-its-phase", c, "an event is recorded after its phase was closed", st)
                if "STARTED" in w and "NOT" not in w:
                    r.need(bool(st.ts.get("start")), "recorded-in-its-phase", c, "the start of a phase is recorded before the phase is opened", st)
                st.ts["ev"] = st.ts.get("ev", 0) + 1
            elif sn(c.name).startswith("Publish"):
                e = words(sn(c.name)[7:])
                r.need((e & (SUBJECT | OUTCOME)) == (w & (SUBJECT | OUTCOME)), "announced-as-what-it-was", c, "%s is announced as %s" % (f.short[3:], sn(c.name)[7:]), st)
                st.ts["pub"] = True
            elif isname(c, "StartLoggingForPhase") and c.args and tm.is_const(c.args[0]):
                p = words(phases.get(tm.cval(c.args[0]), ""))
                need = w & {"ELIGIBILITY", "MULTIPLE", "COMPUTATION", "UPLOAD"}
                r.need(p & {"ELIGIBILITY", "MULTIPLE", "COMPUTATION", "UPLOAD"} == need, "recorded-in-its-phase", c, "%s opens the phase %s" % (f.short[3:], phases.get(tm.cval(c.args[0]))), st)
                st.ts["start"] = True
            elif isname(c, "StopLoggingForTheCurrentPhase"):
                st.ts["stop"] = True
            if texts and (sn(c.name).startswith("Publish") or isname(c, "AddEventWithErrorMessage")):
                msg = any(has_sub(a, lambda t: t.op == "call" and isname(t, "message", "ToString") and has_sub(t, P_(f, texts[0]))) for a in c.args if isinstance(a, T))
                if "TENSORFLOW" in w:
                    on = fact(st, lambda a: a.op == "fld" and a.args[0] in keep)
                    r.need(not msg or (on is not None and on[1]), "plan-errors-kept-private", c, "the text of an error raised inside a plan is given out without consent", st)
                    if on is not None and on[1]:
                        r.need(msg, "reason-recorded", c, "the reason of a failure is not recorded", st)
                else:
                    r.need(msg, "reason-recorded", c, "the reason of a failure is not recorded", st)

        def ret(r, st, v, line, fr, f=f, w=w):
            if fr.func is not f or status_of(st, v) is False:
                return
            x = at(fr, line)
            r.need(bool(st.ts.get("pub")), "announced-as-what-it-was", x, "%s is not announced" % f.short[3:], st)
            if not {"COMPUTATION", "NONFATAL"} <= w:
                r.need(st.ts.get("ev") == 1, "recorded-as-what-it-was", x, "%s is recorded %s" % (f.short[3:], "not at all" if not st.ts.get("ev") else "more than once"), st)
            ends = w & {"FINISHED", "INTERRUPTED", "ABORTED", "REJECTED", "DISABLED"} or (w & {"IO", "ARGUMENT", "ITERATOR", "TENSORFLOW"} and "PAYLOAD" not in w) or ("PAYLOAD" in w and "MULTIPLE" not in w)
            if ends:
                r.need(bool(st.ts.get("stop")), "phase-closed", x, "the phase stays open after %s" % f.short[3:], st)
        ctx.run(R(scope=PL, call=call, ret=ret), [f])
    for r_ in ("recorded-as-what-it-was", "announced-as-what-it-was", "recorded-in-its-phase", "phase-closed", "plan-errors-kept-private", "reason-recorded"):
        ctx.need(r_)

    # which of them is chosen
    def named(n):
        return lambda a: a.op == "eq" and has_sub(a, lambda x: x.op == "enum" and sn(str(x.args[0])) == n)

    def call(r, st, c):
        n = sn(c.name)
        if not n.startswith("Log") or "PhaseLogger" not in c.name:
            return
        w = words(n[3:])
        if "ABORTED" in w:
            ok = fact(st, named("kAborted"), True) or fact(st, call_p("IsAborted"), True)
            r.need(ok is not None, "chosen-by-the-outcome", c, "%s is recorded for another outcome" % n[3:], st)
        elif "INTERRUPTED" in w:
            ok = fact(st, named("kCancelled"), True) or fact(st, call_p("IsCancelled"), True) or fact(st, named("kInterrupted"), True)
            r.need(ok is not None, "chosen-by-the-outcome", c, "%s is recorded for another outcome" % n[3:], st)
        elif "FINISHED" in w and w & {"UPLOAD", "COMPUTATION"}:
            ok = fact(st, lambda a: a.op == "ok" and a.args[0].op == "param", True) or ("COMPUTATION" in w and fact(st, named("kSuccess"), True)) or None
            bad = fact(st, lambda a: a.op == "ok" and a.args[0].op == "param", False)
            r.need(ok is not None and bad is None, "chosen-by-the-outcome", c, "%s is recorded for another outcome" % n[3:], st)
        elif w & set(RUNS_OF):
            k = [RUNS_OF[x] for x in w if x in RUNS_OF][0]
            sw = [a for a in st.facts if a.op == "eq" and has_sub(a, lambda x: x.op == "enum" and "PlanOutcome" in str(x.args[0]))]
            if sw:
                r.need(fact(st, named(k), True) is not None, "chosen-by-the-outcome", c, "%s is recorded for another outcome" % n[3:], st)
    out = [f for f in ctx.db.in_files(FL) if f.body is not None and
           any(n[0] == "call" and re.search(r"PhaseLogger::Log\w*(ServerAborted|ClientInterrupted|Interrupted|Completed|ExampleIteratorError|InvalidArgument)$", n[1]) for n in walk(f.body))]
    ctx.run(R(scope=r"^$", call=call), out)
    ctx.need("chosen-by-the-outcome")
