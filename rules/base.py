"""Rules over the base library: futures, schedulers, clocks, ownership
wrappers, identifiers, conversions, compression and file access."""
import re

from fcx.kit import *

UNITS = [r"^fcp/base/", r"^@inst/base"]
SC = r"^fcp/base/"


def at(fr, line):
    return (fr.func.rel(), line)


def of_type(db, cls, regex):
    """Qualified names of the fields of a class whose type matches."""
    out = set()
    for c in db.classes.values():
        if c["name"] == cls or sn(c["name"]) == cls:
            for f in c["fields"]:
                if re.search(regex, f[1]):
                    out.add(c["name"] + "::" + f[0])
    return out


def lin1(t):
    c, m = tm._lin(t)
    if len(m) == 1 and list(m.values()) == [1]:
        return c, next(iter(m))
    return None


# ---- B01: futures ------------------------------------------------------------
def b01(ctx):
    db = ctx.db
    pset = [f for f in methods(ctx, "fcp::thread::Promise") if f.short == "Set"]
    pdtor = [f for f in methods(ctx, "fcp::thread::Promise") if f.kind == "dtor"]
    take = [f for f in methods(ctx, "fcp::thread::Future") if f.short == "Take"]
    wait = [f for f in methods(ctx, "fcp::thread::Future") if f.short == "Wait"]
    mk_ = [f for f in db.funcs.values() if f.short == "MakeFuture"]
    sched = [f for f in db.funcs.values() if f.short == "ScheduleFuture"]
    if not (pset and take and mk_ and sched):
        raise AnalysisError("anchor vanished: promise/future interface")
    if not pdtor:
        c = db.classes.get("fcp::thread::Promise")
        ctx.viol("abandoned-promise-resolves", "fcp/base/future.h", c["line"] if c else 0, "destroying a promise does not resolve its future")

    def call(r, st, c):
        if isname(c, "absl::Notification::Notify"):
            st.ts["n"] = st.ts.get("n", 0) + 1
            r.need(st.ts["n"] == 1, "notified-once", c, "the future is made ready twice", st)
            checked = fact(st, lambda a: a.op == "call" and isname(a, "HasBeenNotified"), False) or \
                fact(st, lambda a: a.op == "eq" and a.args[0].op == "enum" and a.args[1].op == "fld", True)
            r.need(bool(checked), "set-only-when-unset", c, "an outcome is stored without checking that there is none yet", st)
            r.need(bool(st.ts.get("stored")), "value-before-ready", c, "the future becomes ready before its outcome is stored", st)

    def mkwrite(good):
        def write(r, st, place, val, line, fr):
            if place[0] == "f" and "UniqueValue" not in place[2] and "optional" in (ctx.db.fields.get(place[2]) or ["", ""])[1]:
                if st.ts.get("n"):
                    r.need(False, "value-before-ready", (fr.file, line), "the outcome is stored after the future has become ready", st)
                r.need(good(val), "outcome-is-the-promised-one", (fr.file, line), "the stored outcome is not the one provided", st)
                st.ts["stored"] = 1
        return write

    def moved(r, st, place, val, fr):
        if place[0] == "f" and place[1] is THIS:
            st.ts["taken"] = 1

    def consumed(st, cls):
        if st.ts.get("taken"):
            return True
        return any(k[0] == "f" and k[1] is THIS and sn(k[2].rsplit("::", 1)[0]) == cls and v is NULL for k, v in st.mem.items())

    for f in pset:
        v = P_(f, 0)

        def ret(r, st, val, line, fr):
            r.need(st.ts.get("n", 0) == 1, "set-resolves", at(fr, line), "providing a value does not make the future ready", st)
            r.need(consumed(st, "Promise"), "promise-used-up", at(fr, line), "a promise stays usable after its value was provided", st)
        ctx.run(R(scope=SC, call=call, write=mkwrite(lambda t: flows_from(t, v)), ret=ret, move=moved, max_depth=6), [f])
    for f in pdtor:
        def ret(r, st, val, line, fr):
            absent = fact(st, lambda a: a.op == "has" and a.args[0].op == "fld", False)
            r.need(st.ts.get("n", 0) == 1 or bool(absent), "abandoned-promise-resolves", at(fr, line), "a promise destroyed unset leaves its future waiting for ever", st)
        ctx.run(R(scope=SC, call=call, write=mkwrite(lambda t: t is NULL), ret=ret, max_depth=6), [f])
    # overwriting a promise gives it up as well
    asg = [f for f in methods(ctx, "fcp::thread::Promise") if f.short == "operator="]
    for f in asg:
        own = lambda t: t.op == "fld" and t.args[1] is THIS

        def ret(r, st, val, line, fr):
            absent = fact(st, lambda a: a.op == "has" and has_sub(a, own), False)
            same = fact(st, lambda a: a.op == "eq" and THIS in a.args, True)
            r.need(st.ts.get("n", 0) == 1 or bool(absent) or bool(same), "overwritten-promise-resolves", at(fr, line),
                   "a promise overwritten unset leaves its future waiting for ever", st)

        def write(r, st, place, val, line, fr):
            if place[0] == "f" and "UniqueValue" not in place[2] and "optional" in (db.fields.get(place[2]) or ["", ""])[1]:
                st.ts["stored"] = 1
        ctx.run(R(scope=SC, call=call, write=write, ret=ret, max_depth=6), [f])
    if not asg:
        for c in db.classes.values():
            if c["name"] == "fcp::thread::Promise":
                for m in c["methods"]:
                    if m[0] == "operator=" and not m[3]:
                        ctx.viol("overwritten-promise-resolves", "fcp/base/future.h", c["line"], "a promise overwritten unset leaves its future waiting for ever")
    ctx.need("notified-once")
    for f in take:
        def c2(r, st, c):
            if isname(c, "WaitForNotification"):
                st.ts["w"] = 1

        def rd(r, st, field, base, line, fr, wr):
            if "FutureState" in field.rsplit("::", 1)[0] and "Notification" not in (db.fields.get(field) or ["", ""])[1]:
                r.need(bool(st.ts.get("w")), "take-waits", (fr.file, line), "the outcome is looked at before it is ready", st)

        def wr(r, st, place, val, line, fr):
            if place[0] == "f" and "FutureState" in place[2].rsplit("::", 1)[0]:
                st.ts["marked"] = 1

        def ret(r, st, val, line, fr):
            r.need(flows_from(val, lambda t: t.op == "fld" and "optional" in (db.fields.get(t.args[0]) or ["", ""])[1] and "FutureState" in t.args[0]),
                   "take-returns-outcome", at(fr, line), "the value returned is not the stored outcome", st)
            r.need(consumed(st, "Future"), "future-used-up", at(fr, line), "a future stays usable after its value was taken", st)
        ctx.run(R(scope=SC, call=c2, read=rd, write=wr, ret=ret, move=moved, max_depth=6), [f])
    ctx.need("take-waits")
    for f in wait:
        def ret(r, st, val, line, fr):
            r.need(has_sub(val, call_p("WaitForNotificationWithTimeout", "HasBeenNotified")) or
                   bool(fact(st, call_p("WaitForNotificationWithTimeout", "HasBeenNotified"))), "wait-reports-readiness", at(fr, line),
                   "waiting reports something else than whether the outcome is ready", st)
        ctx.run(R(scope=SC, ret=ret, max_depth=6), [f])
    ctx.need("wait-reports-readiness")

    def states(t):
        return {x for x in tm.closure(t) if x.op == "new" and "FutureState" in x.args[0]}
    for f in mk_:
        def ret(r, st, val, line, fr):
            if val.op != "list" and val.op != "ctor":
                return r.need(None, "pair-shares-state", at(fr, line), "shape of the pair not recognised")
            parts = [states(x) for x in (val.args[1] if val.op == "list" else val.args[1]) if isinstance(x, T)]
            r.need(len(parts) == 2 and len(parts[0]) == 1 and parts[0] == parts[1], "pair-shares-state", at(fr, line),
                   "the promise and the future of a pair do not share one state", st)
        ctx.run(R(scope=SC + "|inst", ret=ret, max_depth=6), [f] if not f.dep else entries(ctx, "inst::make"))
    ctx.need("pair-shares-state")
    for f in sched:
        def c3(r, st, c):
            if isname(c, "fcp::Scheduler::Schedule"):
                st.ts["s"] = st.ts.get("s", 0) + 1
            if c.name.endswith("Promise::Set") and st.ts.get("in"):
                st.ts["set"] = st.ts.get("set", 0) + 1
                r.need(len(c.args) == 1 and flows_from(c.args[0], lambda t: t.op == "call" and isname(t, "operator()") or t.op == "icall"), "scheduled-result-delivered", c,
                       "the promise is given something else than the function's result", st)
                st.ts[("st", tuple(sorted(x.uid for x in states(c.recv))))] = 1

        def lam(r, st, fr, node):
            st.ts["in"] = 1

        def lamret(r, st, v, fr, node):
            r.need(st.ts.get("set", 0) == 1, "scheduled-result-delivered", (fr.file, node[1]), "the scheduled function's result is not delivered exactly once", st)

        def ret(r, st, val, line, fr):
            r.need(st.ts.get("s", 0) == 1, "future-work-scheduled", at(fr, line), "the function is not scheduled exactly once", st)
        ctx.run(R(scope=SC, call=c3, lam=lam, lamret=lamret, ret=ret, max_depth=6), [f])
    ctx.need("scheduled-result-delivered")
    ctx.witness("future")


def P_(fn, i):
    name = fn.params[i][1]
    return lambda t: t.op == "param" and t.args[0] == name


# ---- B02: schedulers and workers ------------------------------------------------
INSERT_BACK = ("push", "push_back", "emplace_back", "emplace")
FRONT = ("front",)
POP = ("pop", "pop_front")


def is_task_call(c):
    return c.name == "std::function::operator()" or c.kind == "icall"


def b02(ctx):
    db = ctx.db
    pools = [f for f in db.overriders.get("fcp::Scheduler::Schedule", []) if f.body]
    workers = [f for f in db.overriders.get("fcp::Worker::Schedule", []) if f.body]
    if not pools or not workers:
        raise AnalysisError("anchor vanished: scheduler implementations")
    for f in pools:
        task = P_(f, 0)

        def call(r, st, c):
            if sn(c.name) in INSERT_BACK and c.recv is not None and re.search(r"queue|deque|list|vector", c.recvtype + c.name) and any(flows_from(a, task) for a in c.args):
                st.ts["q"] = st.ts.get("q", 0) + 1
                r.need(bool(st.locks), "queue-under-lock", c, "a task is queued without the lock", st)
            elif sn(c.name) in ("push_front", "emplace_front") and any(flows_from(a, task) for a in c.args):
                r.need(False, "tasks-in-order", c, "a task is queued ahead of earlier ones", st)
            if "CondVar" in c.name and c.short in ("Signal", "SignalAll") and st.ts.get("q"):
                st.ts["s"] = 1

        def ret(r, st, v, line, fr):
            r.need(st.ts.get("q", 0) == 1, "task-queued-once", at(fr, line), "a scheduled task is queued %d times" % st.ts.get("q", 0), st)
            r.need(bool(st.ts.get("s")), "waiters-woken", at(fr, line), "no thread is woken after a task is queued", st)
        ctx.run(R(scope=SC, call=call, ret=ret, max_depth=4), [f])
        cls = f.cls
        ints = of_type(db, cls, r"^(std::size_t|size_t|int|unsigned.*|long|int64_t|std::atomic.*)$")
        queues = of_type(db, cls, r"std::(queue|deque|list|vector)<std::function")
        flags = of_type(db, cls, r"^bool$")
        if len(ints) != 1 or len(queues) != 1:
            ctx.notes.append("pool %s keeps no single counter and queue; thread body not decided" % cls)
            continue
        cnt, q = next(iter(ints)), next(iter(queues))
        qp = lambda t: t.op == "fld" and t.args[0] == q
        inq = lambda t: flows_from(t, qp) or base_field(t) == sn(q)
        ctor = [g for g in methods(ctx, cls) if g.kind == "ctor"]

        def wr(r, st, place, val, line, fr):
            if place[0] == "f" and place[2] == cnt and st.ts.get("in"):
                old = st.mem.get(place)
                a = lin1(val) if isinstance(val, T) else None
                b = lin1(old) if isinstance(old, T) else None
                if a is None:
                    st.ts["d"] = None
                elif b is not None and a[1] is b[1]:
                    st.ts["d"] = None if st.ts.get("d", 0) is None else st.ts.get("d", 0) + a[0] - b[0]
                else:
                    st.ts["d"] = None if st.ts.get("d", 0) is None else st.ts.get("d", 0) + a[0]
                st.ts["cl"] = 1 if any(l[0] for l in st.locks) else 0

        def c2(r, st, c):
            if not st.ts.get("in"):
                if isname(c, "std::thread") and c.kind == "ctor":
                    st.ts["th"] = 1
                return
            d = st.ts.get("d", 0)
            if c.recv is not None and inq(c.recv) and sn(c.name) in POP:
                st.ts["pop"] = st.ts.get("pop", 0) + 1
                r.need(differs(st, size_p(inq), 0) or at_least(st, size_p(inq), 1), "pop-only-when-present", c, "a task is taken from a queue that may be empty", st)
            if c.recv is not None and inq(c.recv) and sn(c.name) == "back":
                r.need(False, "tasks-in-order", c, "the newest task is taken instead of the oldest", st)
            if "CondVar" in c.name and c.short.startswith("Wait"):
                r.need(None if d is None else d == -1, "waiting-not-active", c, "a thread waiting for work is counted as active", st)
                r.need(bool(equal(st, size_p(inq), 0)), "waits-only-when-empty", c, "a thread waits although tasks are queued", st)
            if is_task_call(c):
                r.need(not st.locks, "task-outside-lock", c, "a task is run while the scheduler's lock is held", st)
                r.need(flows_from(c.recv, qp) or c.recv is not None and inq(c.recv), "runs-queued-task", c, "what is run is not the task taken from the queue", st)
                r.need(st.ts.get("pop", 0) == 1, "task-run-once", c, "a task is run without being removed from the queue", st)
                r.need(None if d is None else d == 0, "running-counts-as-active", c, "a running task's thread is not counted as active", st)
                st.ts["ran"] = st.ts.get("ran", 0) + 1

        def it(r, st, node, fr):
            if st.ts.get("in") and st.ts.get("pop"):
                r.need(st.ts.get("ran", 0) == st.ts["pop"], "task-not-dropped", (fr.file, node[1]), "a task taken from the queue is not run exactly once", st)
                st.ts.pop("pop", None)
                st.ts.pop("ran", None)

        def lam(r, st, fr, node):
            st.ts.clear()
            st.ts["in"] = 1

        def lamret(r, st, v, fr, node):
            r.need(bool(equal(st, size_p(inq), 0)), "thread-ends-only-when-empty", (fr.file, node[1]), "a pool thread ends while tasks are queued", st)
            r.need(None if st.ts.get("d", 0) is None else st.ts.get("d", 0) == -1, "ended-thread-not-active", (fr.file, node[1]), "a thread ends still counted as active", st)
            if flags:
                r.need(bool(fact(st, lambda a: a.op == "fld" and a.args[0] in flags, True)), "thread-ends-only-on-shutdown", (fr.file, node[1]), "a pool thread ends before shutdown", st)

        def r2(r, st, v, line, fr):
            v0 = st.mem.get(("f", THIS, cnt))
            n = P_(fr.func, 0)
            r.need(isinstance(v0, T) and flows_from(v0, n), "threads-start-active", at(fr, line), "the number of active threads does not start at the number of threads", st)
        ctx.run(R(scope=SC, call=c2, write=wr, iter=it, lam=lam, lamret=lamret, ret=r2, max_depth=6), ctor)
        ctx.need("task-run-once")
        # idle = nothing queued and nobody active
        conds = set()
        for g in methods(ctx, cls):
            for n in walk([g.body] + [i[1] for i in g.inits]):
                if n[0] == "ctor" and n[1] == "absl::Condition":
                    for m in walk(n):
                        if m[0] in ("fn", "fnref", "func") and len(m) > 1:
                            conds.add(m[1])
        cf = [g for g in methods(ctx, cls) if g.name in conds]
        for g in cf:
            def r3(r, st, v, line, fr):
                for val, s in bool_cases(st, v):
                    e = equal(s, size_p(lambda t: has_sub(t, qp)), 0)
                    z = equal(s, lambda t: t.op == "fld" and t.args[0] == cnt, 0)
                    if val:
                        r.need(bool(e), "idle-means-empty", at(fr, line), "the pool counts as idle with tasks queued", s)
                        r.need(bool(z), "idle-means-inactive", at(fr, line), "the pool counts as idle while tasks run", s)
                    else:
                        r.need(not (e and z), "idle-is-noticed", at(fr, line), "an idle pool does not count as idle", s)
            ctx.run(R(scope=SC, ret=r3, max_depth=3), [g])
        if not cf:
            ctx.notes.append("no idle condition function recognised in %s" % cls)
        for g in [x for x in methods(ctx, cls) if "fcp::Scheduler::WaitUntilIdle" in x.overrides]:
            def c4(r, st, c):
                if c.short in ("LockWhen", "Await") and c.args and (base_field(c.args[0]) or c.args[0].op == "ctor"):
                    st.ts["w"] = 1

            def r4(r, st, v, line, fr):
                r.need(True if st.ts.get("w") else None if any(fact(st, lambda a: has_sub(a, qp)) for _ in [0]) else False,
                       "wait-until-idle-waits", at(fr, line), "waiting for idleness returns without waiting", st)
            ctx.run(R(scope=SC, call=c4, ret=r4, max_depth=3), [g])
        for g in [x for x in methods(ctx, cls) if x.kind == "dtor"]:
            def c5(r, st, c):
                if "CondVar" in c.name and c.short in ("Signal", "SignalAll"):
                    st.ts["s"] = 2 if c.short == "SignalAll" else 1
                if c.name == "std::thread::join":
                    r.need(not st.locks, "join-outside-lock", c, "threads are joined while the lock they need is held", st)
                    r.need(any(k[0] == "f" and k[2] in flags and v is TRUE for k, v in st.mem.items()), "shutdown-requested-before-join", c,
                           "threads are joined without having been asked to end", st)
                    r.need(st.ts.get("s") == 2, "all-threads-woken-for-shutdown", c, "not every waiting thread is woken before it is joined", st)
                    st.ts["j"] = 1
            ctx.run(R(scope=SC, call=c5, max_depth=3), [g])
        ctx.need("shutdown-requested-before-join")
    for f in workers:
        cls = f.cls
        task = P_(f, 0)
        queues = of_type(db, cls, r"std::(queue|deque|list|vector)<std::function")
        flags = of_type(db, cls, r"^bool$")
        if len(queues) != 1 or len(flags) != 1:
            ctx.notes.append("worker %s keeps no single queue and busy flag; not decided" % cls)
            continue
        q, flag = next(iter(queues)), next(iter(flags))
        qp = lambda t: t.op == "fld" and t.args[0] == q
        inq = lambda t: t is not None and (base_field(t) == sn(q) or flows_from(t, qp))
        hands = {g.short for g in methods(ctx, cls) if any(n[0] == "call" and len(n) > 4 and n[1] == "fcp::Scheduler::Schedule" for n in walk(g.body))}

        def call(r, st, c):
            inside = st.ts.get("in")
            if c.recv is not None and inq(c.recv):
                if sn(c.name) in INSERT_BACK and any(flows_from(a, task) for a in c.args):
                    st.ts["q"] = 1
                elif sn(c.name) in ("push_front", "emplace_front", "insert"):
                    r.need(False, "worker-tasks-in-order", c, "a task is queued ahead of earlier ones", st)
                elif sn(c.name) in ("back", "pop_back"):
                    r.need(False, "worker-tasks-in-order", c, "the newest task is taken instead of the oldest", st)
                elif sn(c.name) in POP or c.short == "erase" and len(c.args) == 1 and has_sub(c.args[0], call_p("begin", "cbegin")):
                    st.ts["pop"] = st.ts.get("pop", 0) + 1
            if isname(c, "fcp::Scheduler::Schedule"):
                st.ts["h"] = st.ts.get("h", 0) + 1
                busy = st.mem.get(("f", THIS, flag))
                r.need(busy is TRUE, "worker-marked-busy", c, "a task is handed over without marking the worker busy, so the next one may overlap it", st)
                r.need(bool(fact(st, lambda a: a.op == "fld" and a.args[0] == flag, False)), "worker-one-at-a-time", c,
                       "a task is handed over while another one of the same worker may be running", st)
                r.need(st.ts.get("pop", 0) == 1, "worker-task-once", c, "the task handed over is not removed from the queue", st)
                r.need(bool(st.locks), "worker-state-under-lock", c, "the decision to run the next task is not made under the lock", st)
            if inside and is_task_call(c):
                st.ts["run"] = st.ts.get("run", 0) + 1
                r.need(not st.locks, "worker-task-outside-lock", c, "a task runs while the worker's lock is held", st)
                r.need(inq(c.recv), "worker-runs-queued-task", c, "what runs is not the task taken from the queue", st)
                r.need(not st.ts.get("free"), "worker-one-at-a-time", c, "the worker is marked free before its task has run", st)
            if inside and c.recv is THIS and c.short in hands and st.ts.get("free"):
                st.ts["next"] = 1

        def write(r, st, place, val, line, fr):
            if place[0] == "f" and place[2] == flag and st.ts.get("in") and val is FALSE:
                st.ts["free"] = 1
                r.need(st.ts.get("run", 0) == 1, "worker-one-at-a-time", (fr.file, line), "the worker is marked free before its task has run", st)

        def lam(r, st, fr, node):
            st.ts.clear()
            st.ts["in"] = 1

        def lamret(r, st, v, fr, node):
            r.need(st.ts.get("run", 0) == 1, "worker-task-once", (fr.file, node[1]), "a task is run %d times" % st.ts.get("run", 0), st)
            r.need(bool(st.ts.get("free")), "worker-freed", (fr.file, node[1]), "the worker stays marked busy after its task, so later tasks never run", st)
            r.need(bool(st.ts.get("next")), "worker-continues", (fr.file, node[1]), "after a task the queue is not looked at again", st)

        def ret(r, st, v, line, fr):
            r.need(bool(st.ts.get("q")), "worker-task-queued", at(fr, line), "a task given to a worker is not queued", st)
            busy = fact(st, lambda a: a.op == "fld" and a.args[0] == flag, True)
            empty = equal(st, size_p(lambda t: inq(t)), 0)
            r.need(st.ts.get("h", 0) == 1 or bool(busy) or bool(empty), "worker-starts-when-free", at(fr, line), "a free worker does not start the queued task", st)
        ctx.run(R(scope=SC, call=call, write=write, lam=lam, lamret=lamret, ret=ret, max_depth=6), [f])
        ctx.need("worker-task-once")


# ---- B05: clocks -------------------------------------------------------------------
def b05(ctx):
    db = ctx.db
    ck = "fcp::Clock"
    maps = of_type(db, ck, r"std::(multi)?map<absl::Time")
    lvl = of_type(db, ck, r"^(int|int32_t|unsigned.*|bool)$")
    if len(maps) != 1:
        raise AnalysisError("anchor vanished: pending wakeups of the clock")
    q = next(iter(maps))
    single = not of_type(db, ck, r"std::multimap<absl::Time")
    qp = lambda t: t.op == "fld" and t.args[0] == q
    inq = lambda t: isinstance(t, T) and (base_field(t) == sn(q) or flows_from(t, qp) or has_sub(t, lambda x: x.op == "hav" and sn(str(x.args[-1])) == sn(q)))
    notfirst = call_p("rbegin", "end", "rend", "prev", "next", "lower_bound", "upper_bound", "crbegin")
    first = lambda t: not has_sub(t, notfirst) and is_first(t)
    is_first = lambda t: t.op == "fld" and sn(t.args[0]) == "first" and inq(t.args[1]) or t.op == "call" and inq(t)
    now = lambda t: t.op == "call" and isname(t, "NowLocked", "Now")
    wk = entries(ctx, "fcp::Clock::WakeupWithDeadline")
    disp = entries(ctx, "fcp::Clock::DispatchWakeups")

    def dcall(r, st, c):
        if isname(c, "fcp::Clock::Waiter::WakeUp"):
            r.need(not st.locks, "woken-outside-lock", c, "a waiter is woken while the clock's lock is held", st)
            r.need(inq(c.recv), "woken-from-pending", c, "what is woken was not taken from the pending wakeups", st)
        if c.recv is not None and inq(c.recv) and c.short in ("erase", "extract", "clear"):
            ok = c.short != "clear" and at_least(st, now, first)
            old = st.ts.get("old")
            if old is not None:
                r.need(at_least(st, 0, old), "one-dispatch-at-a-time", c, "wakeups are collected although another dispatch may be running", st)
            r.need(bool(ok), "woken-only-when-due", c, "a wakeup is removed from the pending ones before its deadline", st)
            r.need(bool(st.ts.get("col")) or getattr(r, "loopcol", False), "due-waiters-collected", c, "pending wakeups are removed without being collected for waking", st)
            st.ts.pop("col", None)
            r.need(bool(st.locks), "pending-under-lock", c, "pending wakeups are changed without the lock", st)
        elif any(isinstance(a, T) and inq(a) and not now(a) for a in c.args) and c.name.startswith("std::") and c.short in (
                "move", "copy", "insert", "push_back", "emplace_back", "swap", "append"):
            st.ts["col"] = 1
        if isname(c, "fcp::Clock::ScheduleWakeup", "ScheduleWakeup"):
            st.ts["sch"] = 1
            r.need(bool(c.args) and first(c.args[0]), "next-wakeup-is-earliest", c, "the next wakeup is scheduled for something else than the earliest deadline", st)

    def diter(r, st, node, fr):
        if node[0] == "rfor":
            r.loopcol = bool(st.ts.pop("col", None))
            return
        if st.ts.get("col"):
            r.need(False, "collected-is-removed", (fr.file, node[1]), "a collected wakeup stays pending and would be woken again", st)

    def dwrite(r, st, place, val, line, fr):
        if place[0] == "f" and place[2] in lvl:
            c, m = tm._lin(val)
            if c == 1 and len(m) == 1:
                st.ts["up"], st.ts["old"] = 1, next(iter(m))
            else:
                st.ts["up"] = 0

    def dret(r, st, v, line, fr):
        if lvl and st.ts.get("up"):
            lv = lambda t: t.op == "fld" and t.args[0] in lvl
            r.need(at_least(st, lv, 1), "dispatch-returns-early-only-when-running", at(fr, line), "dispatching is skipped although no other dispatch is running", st)
            return
        empty = False
        for a, p in st.facts.items():
            if a.op == "eq" and p and tm.is_const(a.args[0]) and tm.cval(a.args[0]) == 0 and size_p(inq)(a.args[1]) and not has_sub(a, lambda x: x.op == "hav"):
                empty = True
        sole = True
        if lvl:
            sole = at_least(st, 1, lambda t: t.op == "fld" and t.args[0] in lvl and t is not st.ts.get("old"))
        r.need(empty or bool(st.ts.get("sch")) and sole, "no-wakeup-lost", at(fr, line),
               "dispatching ends with wakeups pending that nobody will look at again", st)
        if st.ts.get("sch") and not empty:
            r.need(at_least(st, first, now, 1) or differs(st, first, now), "due-wakeups-dispatched-now", at(fr, line), "a wakeup already due is left for later", st)
    ctx.run(R(scope=SC, stops=[r"NowLocked$", r"::ScheduleWakeup$"], call=dcall, iter=diter, write=dwrite, ret=dret, max_depth=5), disp)
    taken = [f for f in methods(ctx, ck) if f.body is not None and any(x[0] == "call" and sn(str(x[1])) in ("erase", "extract") and any(y[0] == "fld" and y[1] == q for y in walk(x)) for x in walk(f.body))]

    def eret(r, st, v, line, fr):
        none = fact(st, lambda a: a.op == "eq" and (inq(a.args[0]) or inq(a.args[1])), True)
        r.need(bool(none) or at_least(st, first, now, 1), "due-wakeups-taken", at(fr, line), "a wakeup whose deadline is reached stays pending", st)
    ctx.run(R(scope=SC, stops=[r"NowLocked$", r"::ScheduleWakeup$"], ret=eret, max_depth=3), [f for f in taken if f.ret != "void"])
    ctx.need("woken-outside-lock")
    ctx.need("woken-only-when-due")
    ctx.need("no-wakeup-lost")

    for f in wk:
        dl, wt = P_(f, 0), P_(f, 1)

        def call(r, st, c):
            if c.recv is not None and inq(c.recv) and c.short in ("push_back", "emplace_back", "insert", "emplace", "try_emplace", "operator[]", "insert_or_assign"):
                args = list(c.args)
                if any(flows_from(a, wt) for a in args):
                    st.ts["put"] = 1
                    if qp(c.recv) and single:
                        # a map keeps what it has under a key that is already there
                        have = fact(st, lambda a: a.op == "haskey" and qp(a.args[0]), False) is not None or equal(st, lambda t: t.op == "call" and isname(t, "count") and inq(t), 0)
                        if not have:
                            st.ts["put"] = "lost" if c.short == "insert_or_assign" else "maybe"
                    keyed = any(flows_from(a, dl) for a in args) or has_sub(c.recv, lambda t: t.op == "call" and any(has_sub(a, dl) for a in t.args[2])) or \
                        has_sub(c.recv, lambda t: t.op in ("idx", "elem") and any(isinstance(a, T) and has_sub(a, dl) for a in t.args[1:]))
                    r.need(bool(keyed), "stored-under-its-deadline", c, "a waiter is stored under another time than its deadline", st)
                    r.need(bool(st.locks), "pending-under-lock", c, "pending wakeups are changed without the lock", st)
            if isname(c, "fcp::Clock::DispatchWakeups"):
                r.need(bool(st.ts.get("put")), "registered-before-dispatch", c, "wakeups are dispatched before the new one is registered", st)
                r.need(not st.locks, "dispatch-outside-lock", c, "wakeups are dispatched while the clock's lock is held", st)
                st.ts["d"] = 1

        def ret(r, st, v, line, fr):
            if st.ts.get("put") == "maybe":
                new = fact(st, lambda a: has_sub(a, lambda t: t.op == "call" and isname(t, "insert", "emplace", "try_emplace")), None)
                r.need(new is not None, "waiter-registered", at(fr, line), "a waiter is not registered when another one has the same deadline", st)
            elif st.ts.get("put") == "lost":
                r.need(False, "waiter-registered", at(fr, line), "a waiter is forgotten when another one with the same deadline is registered", st)
            r.need(bool(st.ts.get("put")), "waiter-registered", at(fr, line), "the waiter is not registered", st)
            r.need(bool(st.ts.get("d")), "dispatch-after-register", at(fr, line), "no dispatch follows registering a wakeup", st)
        ctx.run(R(scope=SC, stops=[r"::DispatchWakeups$"], call=call, ret=ret, max_depth=4), [f])
    ctx.need("waiter-registered")
    sim = "fcp::SimulatedClock"
    nowf = of_type(db, sim, r"^absl::Time$")
    for f in [g for g in methods(ctx, sim) if g.short in ("SetTime", "AdvanceTime")]:
        p = P_(f, 0)

        def write(r, st, place, val, line, fr):
            if place[0] == "f" and place[2] in nowf:
                st.ts["w"] = 1
                if fr.func.short == "SetTime":
                    good = p(val)
                else:
                    good = lin_sum(val, p, lambda t: t.op == "fld" and t.args[0] in nowf)
                r.need(bool(good), "time-set-as-told", (fr.file, line), "the clock is set to another time than asked for", st)

        def call(r, st, c):
            if isname(c, "fcp::Clock::DispatchWakeups"):
                r.need(not st.locks, "dispatch-outside-lock", c, "wakeups are dispatched while the clock's lock is held", st)
                st.ts["d"] = st.ts.get("w", 0)

        def ret(r, st, v, line, fr):
            r.need(bool(st.ts.get("d")), "dispatch-after-time-change", at(fr, line), "waiters due at the new time are not woken", st)
        ctx.run(R(scope=SC, stops=[r"::DispatchWakeups$"], call=call, write=write, ret=ret, max_depth=4), [f])
    ctx.need("dispatch-after-time-change")
    # the real clock
    real = "fcp::RealTimeClock"
    nf = of_type(db, real, r"^absl::Time$")
    for f in [g for g in methods(ctx, real) if g.short == "ScheduleWakeup"]:
        p = P_(f, 0)

        def write(r, st, place, val, line, fr):
            if place[0] == "f" and place[2] in nf:
                st.ts["w"] = 1
                r.need(flows_from(val, p), "wakeup-time-kept", (fr.file, line), "the worker is told another time than the one asked for", st)

        def call(r, st, c):
            if "CondVar" in c.name and c.short in ("Signal", "SignalAll"):
                st.ts["s"] = st.ts.get("w", 0)

        def ret(r, st, v, line, fr):
            same = fact(st, lambda a: a.op == "eq" and any(has_sub(x, lambda t: t.op == "fld" and t.args[0] in nf) for x in a.args) and any(flows_from(x, p) for x in a.args), True)
            r.need(bool(st.ts.get("s")) or bool(same), "worker-told-of-new-wakeup", at(fr, line), "a new wakeup time does not reach the clock's thread", st)
        ctx.run(R(scope=SC, call=call, write=write, ret=ret, max_depth=3), [f])
    ctx.need("worker-told-of-new-wakeup")
    ctors = [g for g in methods(ctx, real) if g.kind == "ctor"]

    def call(r, st, c):
        if isname(c, "fcp::Clock::DispatchWakeups"):
            r.need(not st.locks, "dispatch-outside-lock", c, "wakeups are dispatched while the clock's lock is held", st)
            st.ts["d"] = 1

    def write(r, st, place, val, line, fr):
        if place[0] == "f" and place[2] in nf and st.ts.get("in"):
            r.need(at_least(st, lambda t: t.op == "call" and isname(t, "Now"), lambda t: t.op == "fld" and t.args[0] in nf), "alarm-cleared-only-when-due", (fr.file, line),
                   "the pending alarm is dropped before it is due", st)
            st.ts["w"] = 1

    def it(r, st, node, fr):
        if st.ts.get("in"):
            r.need(not st.ts.get("w") or bool(st.ts.get("d")), "alarm-dispatches", (fr.file, node[1]), "the alarm is dropped without dispatching the due wakeups", st)
            st.ts.pop("w", None)
            st.ts.pop("d", None)

    def lam(r, st, fr, node):
        st.ts["in"] = 1
    ctx.run(R(scope=SC, stops=[r"::DispatchWakeups$"], call=call, write=write, iter=it, lam=lam, max_depth=5), ctors)
    ctx.need("alarm-dispatches")


def lin_sum(t, *preds):
    c, m = tm._lin(t)
    if c or len(m) != len(preds) or any(v != 1 for v in m.values()):
        return False
    left = list(m)
    for p in preds:
        h = [x for x in left if p(x)]
        if not h:
            return False
        left.remove(h[0])
    return True


# ---- B06: compression and files ------------------------------------------------------
def b06(ctx):
    db = ctx.db
    comp = entries(ctx, "fcp::CompressWithGzip")
    unc = entries(ctx, "fcp::UncompressWithGzip")
    inp = lambda t: t.op == "param"

    def next_ok(t):
        return t.op == "call" and isname(t, "Next") and t.args[1] is not None

    def ccall(r, st, c):
        if c.short == "copy" and len(c.args) == 3 and c.recv is not None and flows_from(c.recv, inp):
            dst, n, pos = c.args
            room = lambda t: t.op == "out" and next_ok(t.args[0])
            r.need(room(n) or at_least(st, room, n), "chunk-fits-buffer", c, "more is copied than the output buffer holds", st)
            st.ts["copied"] = (n, pos)
        if c.short == "BackUp" and len(c.args) == 1 and st.ts.get("copied"):
            n = st.ts["copied"][0]
            cst, m = tm._lin(tm.add(c.args[0], n))
            r.need(cst == 0 and len(m) == 1 and list(m.values()) == [1] and next(iter(m)).op == "out", "unused-buffer-returned", c,
                   "the part of the buffer given back is not the part left unused", st)

    def cwrite(r, st, place, val, line, fr):
        cp = st.ts.get("copied")
        if cp and place[0] == "v" and st.env.get((place[1], place[2])) is cp[1] and isinstance(val, T):
            r.need(tm.add(val, tm.add(cp[1], cp[0]), -1) is const(0), "input-position-advances", (fr.file, line), "the input position does not advance by what was copied", st)
            st.ts["adv"] = 1

    def citer(r, st, node, fr):
        if st.ts.get("copied"):
            r.need(bool(st.ts.get("adv")), "input-position-advances", (fr.file, node[1]), "the input position does not advance", st)
        st.ts.pop("copied", None)
        st.ts.pop("adv", None)

    def cret(r, st, v, line, fr):
        if status_of(st, v) is False:
            return
        bad = fact(st, next_ok, False) or ufact(st, next_ok, False)
        r.need(not bad, "stream-errors-reported", at(fr, line), "success is returned although the compressor failed", st)
        closed = fact(st, lambda a: a.op == "call" and isname(a, "Close"), True)
        r.need(bool(closed), "stream-closed", at(fr, line), "success is returned without the stream having been closed successfully", st)
        if not st.ts.get("copied"):
            r.need(at_least(st, lambda t: True, size_p(inp)), "whole-input-compressed", at(fr, line), "success is returned before all input has been compressed", st)
    ctx.run(R(scope=SC, call=ccall, write=cwrite, iter=citer, ret=cret, max_depth=3), comp)
    # what is left of the input is kept track of
    left = set()

    def lcall(r, st, c):
        if c.short == "BackUp" and st.ts.get("copied") and st.ts["copied"][0].op == "hav":
            left.add(st.ts["copied"][0].args[1])
        if c.short == "copy" and len(c.args) == 3 and c.recv is not None and flows_from(c.recv, inp):
            st.ts["copied"] = (c.args[1], c.args[2])
            whole = [x for x in tm.subterms(c.args[1]) if size_p(inp)(x)]
            if whole and not r.eng.muted:
                r.need(tm.add(tm.add(c.args[1], c.args[2]), whole[0], -1) is const(0), "rest-tracked", c, "the last part copied is not what is left of the input", st)

    def lwrite(r, st, place, val, line, fr):
        if place[0] == "v" and tuple(place[1:3]) in left:
            cp = st.ts.get("copied")
            if cp:
                old = st.env.get((place[1], place[2]))
                r.need(old is not None and tm.add(tm.add(val, cp[0]), old, -1) is const(0), "rest-tracked", (fr.file, line), "what is left of the input is not reduced by what was copied", st)
            else:
                r.need(size_p(inp)(val), "rest-tracked", (fr.file, line), "what is left of the input is not all of it at the start", st)
    ctx.run(R(scope=SC, call=lcall, max_depth=3), comp)
    ctx.run(R(scope=SC, call=lcall, write=lwrite, max_depth=3), comp)
    ctx.need("stream-closed")
    ctx.need("input-position-advances")

    def ucall(r, st, c):
        if isname(c, "ArrayInputStream") and len(c.args) >= 2:
            r.need(size_p(inp)(c.args[1]) if has_sub(c.args[1], inp) or tm.is_const(c.args[1]) else None, "input-read-to-end", c, "not all of the compressed data is given to the decoder", st)
        if next_ok(mk("call", c.name, c.recv, tuple(c.args), 0)) and "Gzip" in c.name:
            st.ts["n"] = 0
        if c.short == "Append" and c.recv is not None and c.args:
            a = c.args[0]
            outs = [x for x in tm.subterms(a) if x.op == "out" and next_ok(x.args[0])]
            if outs:
                whole = len({x.args[1] for x in outs}) == 2
                if a.op == "ctor" and len(a.args[1]) == 2:
                    whole = all(x.op == "out" for x in a.args[1])
                r.need(whole, "chunk-appended-whole", c, "not the whole decompressed chunk is appended", st)
                st.ts["app"] = 1

    def uiter(r, st, node, fr):
        if fact(st, next_ok, True):
            r.need(bool(st.ts.get("app")), "chunk-appended-whole", (fr.file, node[1]), "a decompressed chunk is dropped", st)
        st.ts.pop("app", None)

    def uret(r, st, v, line, fr):
        if status_of(st, v) is False:
            return
        r.need(bool(fact(st, next_ok, False)), "input-read-to-end", at(fr, line), "success is returned before all input has been decompressed", st)
        err = fact(st, lambda a: has_sub(a, call_p("ZlibErrorMessage", "ZlibErrorCode")), None)
        good = fact(st, lambda a: a.op == "has" and has_sub(a, call_p("ZlibErrorMessage")), False) or \
            fact(st, lambda a: a.op == "eq" and has_sub(a, call_p("ZlibErrorMessage", "ZlibErrorCode")), True)
        r.need(True if good else None if err and err[0].op not in ("has", "eq") else False, "stream-errors-reported", at(fr, line),
               "success is returned without asking whether decompression failed", st)
        end = fact(st, lambda a: has_sub(a, lambda t: t.op == "call" and isname(t, "inflate") or t.op == "enum" and sn(t.args[0]) == "Z_STREAM_END"))
        if end is None and not r.eng.muted:
            ctx.viol("truncation-noticed", fr.func.rel(), line, "compressed data that ends early is accepted", st, what=fr.func.short)
        elif end is not None:
            r.ok(r.eng, "truncation-noticed", fr.func.rel(), line)
    ctx.run(R(scope=SC, call=ucall, iter=uiter, ret=uret, max_depth=3), unc)
    ctx.need("input-read-to-end")

    # file access
    rd = entries(ctx, "fcp::ReadFileToString", "fcp::ReadFileToCord")
    wr = entries(ctx, "fcp::WriteStringToFile", "fcp::WriteCordToFile")
    fstream = lambda t: t.op == "ctor" and re.search(r"std::basic_(o|i)?fstream$", t.args[0])

    def stream_fact(st, pred, pol):
        for a, p in st.facts.items():
            x = a
            if x.op == "call" and isname(x, "good", "is_open") and x.args[1] is not None:
                x, q = x.args[1], p
            elif x.op == "call" and isname(x, "fail", "bad", "operator!") and x.args[1] is not None:
                x, q = x.args[1], not p
            else:
                q = p
            if x.op in ("ctor", "upd", "out", "call", "hav") and q is pol and pred(x):
                return x
        return None

    def fret(r, st, v, line, fr):
        if status_of(st, v) is False:
            return
        r.need(stream_fact(st, fstream, True) is not None, "open-checked", at(fr, line), "success is returned although the file may not have been opened", st)
        reading = fr.func.short.startswith("Read")
        if reading:
            moved = fact(st, lambda a: a.op == "eq" and has_sub(a, call_p("peek")) and has_sub(a, call_p("eof")), True)
            done = stream_fact(st, lambda x: has_sub(x, lambda t: t.op in ("upd", "call", "out") and re.search(r"operator<<$|::read$|getline$", str(t.args[0] if t.op == "upd" else (t.args[0].args[0] if t.op == "out" and isinstance(t.args[0], T) else t.args[0])))), True)
            r.need(bool(moved) or done is not None or None if opaque(st, fstream) else bool(moved) or done is not None, "read-checked", at(fr, line), "success is returned although reading may have failed", st)
        else:
            fl = stream_fact(st, lambda x: has_sub(x, lambda t: t.op in ("upd", "call") and isname(t, "close", "flush")), True)
            r.need(fl is not None, "write-checked", at(fr, line), "success is returned although the data may not have reached the file", st)
    ctx.run(R(scope=SC, ret=fret, max_depth=4), rd + wr)
    ctx.need("write-checked")
    ctx.need("read-checked")
    for f in wr:
        p = P_(f, 1)

        def wcall(r, st, c):
            if c.short in ("operator<<", "write") and (c.args and any(flows_from(a, p) for a in c.args)):
                st.ts["w"] = 1
                r.need(not st.ts.get("cl"), "content-written", c, "content is written after the file is closed", st)
            if c.short in ("close",):
                st.ts["cl"] = 1
        ctx.run(R(scope=SC, call=wcall, max_depth=4), [f])


# ---- B07: single ownership and reentrancy ----------------------------------------------
def b07(ctx):
    uv = "fcp::UniqueValue"
    val = of_type(ctx.db, uv, r"optional")
    if not val:
        raise AnalysisError("anchor vanished: state of the unique value wrapper")
    mctor = [f for f in methods(ctx, uv) if f.kind == "ctor" and len(f.params) == 1 and f.params[0][2].endswith("&&") and "UniqueValue" in f.params[0][2]]
    masg = [f for f in methods(ctx, uv) if f.short == "operator=" and len(f.params) == 1]
    take = [f for f in methods(ctx, uv) if f.short == "Take"]
    reset = [f for f in methods(ctx, uv) if f.short == "Reset"]
    if not take or not mctor:
        raise AnalysisError("anchor vanished: unique value operations")
    isval = lambda t: t.op == "fld" and t.args[0] in val
    other = lambda k: k[0] == "f" and k[1] is not THIS and k[2] in val

    def mem(st, mine):
        for k, v in st.mem.items():
            if k[0] == "f" and k[2] in val and (k[1] is THIS) == mine:
                return v
        return None

    def ret(r, st, v, line, fr):
        src = mem(st, False)
        if fr.func.short == "operator=" and fact(st, lambda a: a.op == "eq" and THIS in a.args, True):
            return
        swapped = isinstance(src, T) and has_sub(src, call_p("swap")) and fr.func.short == "operator=" and not fr.func.params[0][2].rstrip().endswith("&")
        r.need(src is NULL or swapped, "source-left-empty", at(fr, line), "a moved-from holder still claims its value", st)
        mine = mem(st, True)
        r.need(mine is not None and (swapped or flows_from(mine, isval)), "value-transferred", at(fr, line), "moving does not transfer the value", st)
    ctx.run(R(scope=SC, ret=ret, max_depth=4), mctor + masg)

    def tret(r, st, v, line, fr):
        r.need(mem(st, True) is NULL, "source-left-empty", at(fr, line), "the holder still claims its value after it was taken", st)
        r.need(flows_from(v, isval), "value-transferred", at(fr, line), "taking does not return the held value", st)
    ctx.run(R(scope=SC, ret=tret, max_depth=4), take)

    def rret(r, st, v, line, fr):
        r.need(mem(st, True) is NULL, "source-left-empty", at(fr, line), "resetting leaves the value in place", st)
    ctx.run(R(scope=SC, ret=rret, max_depth=4), reset)
    ctx.need("source-left-empty", 2)
    for f in [g for g in methods(ctx, uv) if g.short == "has_value"]:
        def hret(r, st, v, line, fr):
            r.need(v.op == "has" and isval(v.args[0]) or None if v.op not in ("c", "not") else False, "has-value-honest", at(fr, line), "the holder misreports whether it holds a value", st)
        ctx.run(R(scope=SC, ret=hret, max_depth=3), [f])
    # reentrancy guard
    g = "fcp::ReentrancyGuard"
    chk = [f for f in methods(ctx, g) if f.short == "Check"]
    dtor = [f for f in methods(ctx, g) if f.kind == "dtor"]
    if not chk:
        raise AnalysisError("anchor vanished: reentrancy guard")
    flag = lambda t: t.op == "call" and isname(t, "compare_exchange_strong", "exchange", "test_and_set")

    def cret(r, st, v, line, fr):
        won = fact(st, lambda a: isname(a, "compare_exchange_strong") and a.op == "call" and a.args[2][0] is FALSE and a.args[2][1] is TRUE, True) or \
            fact(st, lambda a: a.op == "call" and (isname(a, "exchange") and a.args[2][0] is TRUE or isname(a, "test_and_set")), False)
        held = any(k[0] == "f" and k[1] is THIS and v2 is not NULL for k, v2 in st.mem.items())
        if status_of(st, v) is True:
            r.need(bool(won), "guard-admits-one", at(fr, line), "the guard admits a caller without having found the flag free and taken it in one step", st)
            r.need(held, "guard-remembers", at(fr, line), "an admitted guard does not remember to release the flag", st)
        else:
            lost = fact(st, flag, False) or fact(st, flag, True)
            r.need(not held, "loser-does-not-release", at(fr, line), "a refused guard would release the flag of the admitted one", st)
    ctx.run(R(scope=SC, ret=cret, max_depth=3), chk)
    ctx.need("guard-admits-one")

    def dcall(r, st, c):
        if c.short in ("store", "clear", "exchange") or c.short == "operator=" and "atomic" in c.name:
            if c.short == "clear" or c.args and c.args[0] is FALSE:
                st.ts["rel"] = 1

    def dret(r, st, v, line, fr):
        none = fact(st, lambda a: a.op == "has", False)
        r.need(bool(st.ts.get("rel")) or bool(none), "guard-releases", at(fr, line), "the flag stays taken after the guard is gone", st)
    if not dtor:
        ctx.viol("guard-releases", "fcp/base/reentrancy_guard.h", 0, "the guard never releases its flag")
    ctx.run(R(scope=SC, call=dcall, ret=dret, max_depth=3), dtor)
    ctx.witness("owner")


# ---- B08: identifiers, tokens, digests -------------------------------------------------
def b08(ctx):
    nx = entries(ctx, "fcp::ProcessUniqueId::Next")

    def ret(r, st, v, line, fr):
        inc = [t for t in tm.closure(v) if t.op == "call" and isname(t, "fetch_add", "operator++", "fetch_sub")]
        if st.ts.get("inc") and has_sub(v, lambda t: t.op == "gvar" and t.args[0] == st.ts["inc"]):
            return r.need(True, "id-drawn-atomically", at(fr, line), "")
        plain = [t for t in tm.closure(v) if t.op == "call" and isname(t, "load")]
        ok = any(t.args[1] is not None and t.args[1].op == "gvar" and (isname(t, "operator++") or t.args[2] and t.args[2][0] is const(1)) for t in inc)
        r.need(bool(ok) if inc or plain or not flows_from(v, lambda t: t.op == "call") else None, "id-drawn-atomically", at(fr, line),
               "an identifier is not drawn from the process-wide counter in one atomic step", st)
    def nwrite(r, st, place, val, line, fr):
        if place[0] == "g" and "atomic" in str((ctx.db.globals.get(place[1]) or [""])[:2]) and val is tm.add(mk("gvar", place[1]), const(1)):
            st.ts["inc"] = place[1]
    ctx.run(R(scope=SC, ret=ret, write=nwrite, max_depth=3), nx)
    ctx.need("id-drawn-atomically")
    whole = lambda ty: re.sub(r"\b(const|std::)\b|[&\s]", "", ty) in ("unsignedlong", "long", "unsignedlonglong", "longlong", "int64_t", "uint64_t", "size_t", "uintptr_t", "unsigned__int128", "auto")
    number = lambda ty: re.fullmatch(r"(const )?(std::)?(unsigned |signed )?(char|short|int|long|long long|bool|u?int(8|16|32|64)_t|size_t|unsigned)( const)?", ty) is not None
    for f in nx:
        used = {x[1] for x in walk(f.body) if x[0] == "gvar"}
        for g in used:
            if g in ctx.db.globals and "atomic" in str(ctx.db.globals[g][0]):
                ty, tls = ctx.db.globals[g][0], ctx.db.globals[g][4] if len(ctx.db.globals[g]) > 4 else 0
                m = re.search(r"atomic<(.*)>", ty)
                ctx.check("id-counter-shared", f.rel(), ctx.db.globals[g][3], not tls, "every thread counts identifiers for itself")
                ctx.check("id-not-cut", f.rel(), ctx.db.globals[g][3], not m or not number(m.group(1)) or whole(m.group(1)), "identifiers are cut to fewer than 64 bits and repeat")
        cuts = [x[1] for x in walk(f.body) if x[0] == "cast" and isinstance(x[1], str) and number(x[1]) and not whole(x[1])]
        cuts += [x[4] for x in walk(f.body) if x[0] == "decl" and isinstance(x[4], str) and number(x[4]) and not whole(x[4])]
        cuts += [x[1] for g in methods(ctx, "fcp::ProcessUniqueId") if g.short == "value" for x in walk(g.body) if x[0] == "cast" and isinstance(x[1], str) and number(x[1]) and not whole(x[1])]
        cuts += [p[2] for g in methods(ctx, "fcp::ProcessUniqueId") if g.kind == "ctor" for p in g.params if number(p[2]) and not whole(p[2])]
        cuts += [x[1] for c in ctx.db.classes.values() if c["name"] == "fcp::ProcessUniqueId" for x in c["fields"] if number(str(x[1])) and not whole(str(x[1]))]
        ctx.check("id-not-cut", f.rel(), f.line, not cuts, "identifiers are cut to %s and repeat" % (cuts[:1] or [""])[0])
    gen = entries(ctx, "fcp::RandomToken::Generate")

    def gcall(r, st, c):
        if c.short == "RAND_bytes" and len(c.args) == 2:
            n = const_of(ctx, c.args[1])
            r.need(None if n is None else n >= 16, "token-fully-random", c, "fewer than 16 random bytes are drawn", st)

    def gret(r, st, v, line, fr):
        ok = fact(st, lambda a: has_sub(a, call_p("RAND_bytes")) and a.op == "eq", True) or fact(st, lambda a: a.op == "call" and isname(a, "RAND_bytes"), True)
        r.need(bool(ok), "token-generation-checked", at(fr, line), "a token is returned although drawing random bytes may have failed", st)
        words = [t for t in tm.subterms(v) if t.op == "idx" and t.args[0].op in ("uninit", "out")]
        if v.op == "ctor" and len(v.args[1]) == 2:
            a, b = v.args[1]
            r.need(a is not b and flows_from(a, lambda t: t.op in ("uninit", "out")) and flows_from(b, lambda t: t.op in ("uninit", "out")), "token-fully-random", at(fr, line),
                   "parts of the token repeat or are not random", st)
    ctx.run(R(scope=SC, call=gcall, ret=gret, max_depth=3), gen)
    ctx.need("token-generation-checked")
    for f in [g for g in methods(ctx, "fcp::RandomToken") if g.short == "operator=="]:
        def eret(r, st, v, line, fr):
            for val, s in bool_cases(st, v):
                if not val:
                    continue
                idx = set()
                whole = False
                for a, p in s.facts.items():
                    if a.op == "eq" and p:
                        ks = [tm.cval(t.args[1]) for t in a.args if t.op == "idx" and tm.is_const(t.args[1])]
                        if len(ks) == 2 and ks[0] == ks[1]:
                            idx.add(ks[0])
                    if p and a.op in ("eq", "call") and not any(t.op == "idx" for t in tm.subterms(a)):
                        whole = True
                r.need(idx >= {0, 1} or whole, "token-equality-covers-all", at(fr, line), "tokens differing in part compare equal", s)
        ctx.run(R(scope=SC, ret=eret, max_depth=3), [f])
    for f in [g for g in methods(ctx, "fcp::RandomToken") if g.short == "FromBytes"]:
        def fcall(r, st, c):
            if c.short in ("memcpy", "memmove") and len(c.args) == 3:
                src = c.args[1]
                n = c.args[2]
                r.need(equal(st, size_p(lambda t: t.op == "param"), n) or const_of(ctx, n) is not None and
                       (equal(st, size_p(lambda t: t.op == "param"), const_of(ctx, n)) or at_least(st, size_p(lambda t: t.op == "param"), n)), "token-length-checked", c,
                       "a token is read from data whose length was not checked", st)
        ctx.run(R(scope=SC, call=fcall, max_depth=3), [f])
    # digests cover all input and report no partial result
    dg = [f for f in in_files(ctx, r"^fcp/base/digest\.cc") if f.name == "fcp::ComputeSHA256"]
    if not dg:
        raise AnalysisError("anchor vanished: digest")
    for f in dg:
        p = P_(f, 0)

        def dcall(r, st, c):
            if c.short == "EVP_DigestUpdate" and len(c.args) == 3:
                st.ts["u"] = 1
                d, n = c.args[1], c.args[2]
                src = root(d) if d.op == "call" else d
                r.need(flows_from(d, p) and flows_from(n, p), "digest-covers-input", c, "the digest is computed over something else than the input", st)
                r.need(n.op == "call" and isname(n, "size", "length") and d.op == "call" and n.args[1] is d.args[1], "digest-covers-input", c, "not the whole input is digested", st)
            if c.short == "EVP_DigestFinal_ex":
                pass

        def dret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            for name in ("EVP_DigestInit_ex", "EVP_DigestFinal_ex"):
                k = fact(st, lambda a: has_sub(a, call_p(name)))
                r.need(k is not None, "digest-result-checked", at(fr, line), "the result of %s is not checked" % name, st)
            u = fact(st, lambda a: has_sub(a, call_p("EVP_DigestUpdate"))) or ufact(st, lambda a: has_sub(a, call_p("EVP_DigestUpdate")))
            r.need(u is not None, "digest-result-checked", at(fr, line), "nothing is digested, or its result is not checked", st)
        ctx.run(R(scope=SC, call=dcall, ret=dret, max_depth=4), [f])
    ctx.need("digest-covers-input")


def const_of(ctx, t):
    if tm.is_const(t):
        return tm.cval(t)
    if t.op in ("gvar", "enum"):
        g = ctx.db.globals.get(t.args[0])
        try:
            n = g[2] if isinstance(g, list) else g
            while isinstance(n, list) and n and n[0] in ("cast", "conv"):
                n = n[-1] if n[0] == "cast" else n[1]
            if isinstance(n, list) and n[0] == "int":
                return int(n[1])
        except Exception:
            return None
    return None


# ---- B10: conversions ---------------------------------------------------------------------
CODES = ["OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED",
         "UNAUTHENTICATED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS"]


def norm(n):
    n = sn(n)
    if re.match(r"k[A-Z]", n):
        n = re.sub(r"(?<!^)(?=[A-Z])", "_", n[1:])
    return n.upper()


def b10(ctx):
    for fn, argn in (("FromGrpcStatusCode", 0), ("ToGrpcStatusCode", 0)):
        for f in entries(ctx, "fcp::base::" + fn):
            got = {}

            def ret(r, st, v, line, fr):
                eqs = [norm(a.args[0].args[0]) for a, p in st.facts.items() if p and a.op == "eq" and a.args[0].op == "enum"]
                if fact(st, lambda a: a.op == "ok", True):
                    eqs.append("OK")
                out = norm(v.args[0]) if v.op == "enum" else "OK" if tm.is_const(v) and tm.cval(v) == 0 else None
                if eqs and out:
                    got[eqs[0]] = (out, line)
                    r.need(eqs[0] == out, "codes-map-to-themselves", at(fr, line), "status %s is converted to %s" % (eqs[0], out), st)
                elif out:
                    r.need(out != "OK" or v.op == "call", "unknown-code-is-error", at(fr, line), "an unrecognised code is converted to success", st)
                    r.need(out == "UNKNOWN", "unknown-code-is-error", at(fr, line), "an unrecognised or unlisted code is converted to %s" % out, st)
                    got["UNKNOWN"] = (out, line)
            ctx.run(R(scope=SC, ret=ret, max_depth=2), [f])
            table = not got
            for c in CODES:
                if not table:
                    ctx.check("every-code-converted", f.rel(), got.get(c, ("", f.line))[1], c in got, "status %s is not converted to its counterpart" % c)
    ctx.need("every-code-converted")

    def has_code(v):
        return flows_from(v, call_p("error_code", "code", "FromGrpcStatusCode", "ToGrpcStatusCode")) or True
    for f in entries(ctx, "fcp::base::FromGrpcStatus", "fcp::base::ToGrpcStatus"):
        def sret(r, st, v, line, fr):
            msg = flows_from(v, call_p("error_message", "message"))
            codef = flows_from(v, call_p("FromGrpcStatusCode", "ToGrpcStatusCode"))
            okin = fact(st, lambda a: a.op == "eq" and has_sub(a, call_p("ToGrpcStatusCode", "code", "error_code")) and a.args[0].op == "enum" and norm(a.args[0].args[0]) == "OK", True) or fact(st, lambda a: a.op == "ok", True)
            r.need(codef or bool(okin), "status-code-kept", at(fr, line), "the converted status does not carry the original code", st)
            r.need(msg or bool(okin), "status-message-kept", at(fr, line), "the message of an error is lost", st)
        ctx.run(R(scope=SC, stops=[r"GrpcStatusCode$"], ret=sret, max_depth=2), [f])
    ctx.need("status-code-kept")
    tu = {f.short: f for f in methods(ctx, "fcp::TimeUtil")}
    need = ("ConvertAbslToProtoTimestamp", "ConvertProtoToAbslTime", "ConvertAbslToProtoDuration", "ConvertProtoToAbslDuration")
    if any(n not in tu for n in need):
        raise AnalysisError("anchor vanished: time conversions")

    def pret(sec):
        def ret(r, st, v, line, fr):
            part = lambda t, n: bool(t.args[2]) and t.args[2][0].op == "call" and isname(t.args[2][0], n)
            ok = lin_sum(v, lambda t: t.op == "call" and isname(t, *sec) and part(t, "seconds"), lambda t: t.op == "call" and isname(t, "Nanoseconds") and part(t, "nanos"))
            r.need(True if ok else None if v.op not in ("lin", "call") else False, "seconds-and-nanos-combined", at(fr, line), "seconds and nanoseconds are not combined into the time they stand for", st)
        return ret
    ctx.run(R(scope=SC, ret=pret(("FromUnixSeconds",)), max_depth=2), [tu["ConvertProtoToAbslTime"]])
    ctx.run(R(scope=SC, ret=pret(("Seconds",)), max_depth=2), [tu["ConvertProtoToAbslDuration"]])
    for n in ("ConvertAbslToProtoTimestamp", "ConvertAbslToProtoDuration"):
        stamp = n.endswith("Timestamp")

        def call(r, st, c):
            if c.short == "set_seconds":
                a = c.args[0]
                st.ts["s"] = 1
                inf = fact(st, lambda x: x.op == "eq" and has_sub(x, call_p("InfiniteDuration")), True)
                if not inf:
                    r.need(has_sub(a, lambda t: t.op == "param" or t.op == "out") and not tm.is_const(a), "seconds-from-input", c, "the seconds do not come from the input", st)
                    r.need(a.op == "call" and isname(a, "ToUnixSeconds") if stamp else a.op == "call" and isname(a, "IDivDuration", "ToInt64Seconds") or (None if a.op not in ("call", "lin") else False), "seconds-rounded", c,
                           "the seconds are not those of the input rounded as its nanoseconds need it", st)
            if c.short == "set_nanos":
                a = c.args[0]
                st.ts["n"] = 1
                inf = fact(st, lambda x: x.op == "eq" and has_sub(x, call_p("InfiniteDuration")), True)
                if inf:
                    return
                # the rest after the whole seconds, in nanoseconds
                rest = has_sub(a, lambda t: t.op == "out" and has_sub(t, call_p("IDivDuration"))) or \
                    any(has_sub(t, call_p("FromUnixSeconds")) and has_sub(t, lambda x: x.op == "param") for t in tm.subterms(a) if t.op == "lin") or has_sub(a, lambda t: t.op in ("mod", "%"))
                unit = [t for t in tm.subterms(a) if t.op == "call" and isname(t, "Nanoseconds", "Microseconds", "Milliseconds", "Seconds")]
                nano = any(isname(t, "Nanoseconds") and t.args[2] and t.args[2][0] is const(1) for t in unit) or has_sub(a, call_p("ToInt64Nanoseconds"))
                r.need(bool(rest) and nano, "nanos-are-the-rest", c, "the nanoseconds are not what is left of the input after the whole seconds", st)

        def ret(r, st, v, line, fr):
            r.need(bool(st.ts.get("s")) and bool(st.ts.get("n")), "both-parts-set", at(fr, line), "seconds or nanoseconds are not filled in", st)
        ctx.run(R(scope=SC, call=call, ret=ret, max_depth=2), [tu[n]])
    ctx.need("nanos-are-the-rest", 2)


# ---- B09: stopwatch --------------------------------------------------------------------------
def b09(ctx):
    db = ctx.db
    impl = [c["name"] for c in db.classes.values() if any(sn(b) == "WallClockStopwatch" for b in c["bases"]) and c["fields"]]
    if not impl:
        raise AnalysisError("anchor vanished: stopwatch implementation")
    for cls in impl:
        cnt = of_type(db, cls, r"^int|size_t")
        tot = of_type(db, cls, r"^absl::Duration$")
        beg = of_type(db, cls, r"^absl::Time$")
        if not (len(cnt) == len(tot) == len(beg) == 1):
            ctx.notes.append("stopwatch state of %s not recognised" % cls)
            continue
        cnt, tot, beg = (next(iter(x)) for x in (cnt, tot, beg))
        isf = lambda n: (lambda t: t.op == "fld" and t.args[0] == n)

        def span(t):
            """total + now - begin"""
            c, m = tm._lin(t)
            pos = [x for x, k in m.items() if k == 1]
            neg = [x for x, k in m.items() if k == -1]
            return c == 0 and len(pos) == 2 and len(neg) == 1 and isf(beg)(neg[0]) and any(isf(tot)(x) for x in pos) and any(x.op == "call" and isname(x, "Now") for x in pos)

        def final(st, n):
            return st.mem.get(("f", THIS, n))
        for f in [g for g in methods(ctx, cls) if g.short == "StartInternal"]:
            def ret(r, st, v, line, fr):
                c = final(st, cnt)
                r.need(c is not None and lin1(c) and lin1(c)[0] == 1, "starts-counted", at(fr, line), "a started interval is not counted", st)
                b = final(st, beg)
                wasz = equal(st, isf(cnt), 0)
                if wasz:
                    r.need(b is not None and has_sub(b, call_p("Now")), "first-start-marks-time", at(fr, line), "the first interval's start time is not taken", st)
                else:
                    r.need(b is None or differs(st, isf(cnt), 0) is None, "overlap-keeps-start", at(fr, line), "an overlapping interval restarts the running one", st)
            ctx.run(R(scope=SC, ret=ret, max_depth=3), [f])
        for f in [g for g in methods(ctx, cls) if g.short == "StopInternal"]:
            def ret(r, st, v, line, fr):
                c = final(st, cnt)
                r.need(c is not None and lin1(c) and lin1(c)[0] == -1, "stops-counted", at(fr, line), "a stopped interval is not uncounted", st)
                t = final(st, tot)
                b = final(st, beg)
                last = equal(st, isf(cnt), 1)
                if last:
                    r.need(t is not None and span(t), "interval-added", at(fr, line), "the time that ran is not added when the last interval ends", st)
                    r.need(b is not None and has_sub(b, call_p("InfiniteFuture")), "not-running-afterwards", at(fr, line), "the stopwatch still counts as running after the last interval", st)
                else:
                    r.need(t is None and b is None, "overlap-keeps-start", at(fr, line), "ending one of several overlapping intervals changes the total", st)
            ctx.run(R(scope=SC, ret=ret, max_depth=3), [f])
        for f in [g for g in methods(ctx, cls) if g.short == "GetTotalDuration"]:
            def ret(r, st, v, line, fr):
                stopped = fact(st, lambda a: a.op == "eq" and has_sub(a, isf(beg)), True) or equal(st, isf(cnt), 0)
                r.need(isf(tot)(v) if stopped else span(v), "total-includes-running", at(fr, line), "the total is not the finished time plus the running interval", st)
            ctx.run(R(scope=SC, ret=ret, max_depth=3), [f])
    ctx.need("interval-added")
    h = "fcp::WallClockStopwatch::Handle"
    for f in [g for g in methods(ctx, h) if g.kind in ("ctor", "dtor") and (g.kind == "dtor" or len(g.params) == 1 and g.params[0][2].endswith("*"))]:
        want = "StartInternal" if f.kind == "ctor" else "StopInternal"

        def call(r, st, c):
            if c.short in ("StartInternal", "StopInternal"):
                st.ts[c.short] = st.ts.get(c.short, 0) + 1

        def ret(r, st, v, line, fr):
            none = fact(st, lambda a: a.op == "has", False)
            r.need(bool(none) or st.ts.get(want, 0) == 1, "handle-brackets-interval", at(fr, line), "a handle does not %s its interval exactly once" % ("start" if want[2] == "a" else "stop"), st)
        ctx.run(R(scope=SC, call=call, ret=ret, max_depth=1, stops=[r"Internal$"]), [f])
    ctx.need("handle-brackets-interval")
    for f in db.in_files(r"^fcp/base/wall_clock_stopwatch\.(cc|h)$"):
        if f.body is not None and not (f.cls or "").endswith("::Handle"):
            own = [x for x in walk(f.body) if x[0] == "call" and sn(str(x[1])) in ("StartInternal", "StopInternal")]
            ctx.check("handle-brackets-interval", f.rel(), own[0][4] if own else f.line, not own, "an interval is started or stopped besides those of the handles")
