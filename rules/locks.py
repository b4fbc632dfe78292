"""Lock discipline over the whole C++ tree."""
import re

from fcx.kit import *

UNITS = [r"\.cc$"]


def _lock_names(db, f, texts):
    out = []
    for t in texts or []:
        cl = db.classes.get(f.cls or "")
        t = re.sub(r"^\w+->(?=\w)", "", t) if not t.startswith("this->") else t
        m = db.guard_of(cl, t) if cl else None
        if m:
            out.append(m)
    return out


def _required(db, f):
    """Mutexes a caller of f must hold: its own annotation or that of a method
    it overrides."""
    out = _lock_names(db, f, f.req)
    for o in f.overrides:
        for g in db.named(o):
            out += _required(db, g)
        out += db.decl_req.get(o, [])
    return out


def _decls(db):
    db.decl_req = {}
    for c in db.classes.values():
        for m in c.get("methods", []):
            if m[6]:
                class F:
                    cls = c["name"]
                db.decl_req[c["name"] + "::" + m[0]] = _lock_names(db, F, m[6])


def _subjects(ctx):
    """Functions that may touch guarded state or take locks: methods of classes
    with guarded fields or mutexes, and of their nested or derived classes."""
    db = ctx.db
    owners = set()
    for c in db.classes.values():
        if any(fl[2] or "Mutex" in fl[1] and "Lock" not in fl[1] for fl in c["fields"]):
            owners.add(c["name"])
    more = True
    while more:
        more = False
        for c in db.classes.values():
            if c["name"] not in owners and any(b in owners for b in c.get("bases", [])):
                owners.add(c["name"])
                more = True
    return [f for f in db.funcs.values() if f.body is not None and (f.cls in owners or f.cls and any(f.cls.startswith(o + "::") for o in owners))
            and not re.search(r"test_tracing|/testing/", f.rel())], owners


def _entries(ctx, fs):
    """Every function reachable from outside: public, virtual, annotated, or
    not called by another one of the set (others are seen in context)."""
    called = set()
    keys = {f.key for f in fs}
    for f in fs:
        for n in walk(f.body):
            if n[0] == "call" and len(n) > 7 and n[7] in keys and n[7] != f.key:
                called.add(n[7])
    return [f for f in fs if f.access == 0 or f.virtual or f.overrides or f.req or f.key not in called]


def _callee(db, c):
    n = c.node
    return db.funcs.get(n[7]) if n and n[0] == "call" and len(n) > 7 else None


def _held(st, mutex):
    return any(l[0] == mutex for l in st.locks)


def b03(ctx):
    db = ctx.db
    _decls(db)
    fs, owners = _subjects(ctx)
    guard = {}
    for m, fl in db.guards.items():
        for f in fl:
            guard[f] = m
    if len(guard) < 1:
        raise AnalysisError("no guarded fields found")
    ents = _entries(ctx, fs)

    for f in ents:
        req = _required(db, f)
        building = f.kind in ("ctor", "dtor")

        def enter(r, st, fr, req=req, building=building):
            if fr.depth == 0:
                st.locks = tuple((m, THIS) for m in req)
                if building:
                    st.ts["building"] = 1

        def lam(r, st, fr, node):
            st.ts.pop("building", None)

        def read(r, st, field, base, line, fr, wr):
            m = guard.get(field)
            if m is None or st.ts.get("building") or fr.func is not None and fr.func.notsa:
                return
            if base is not THIS and base.op in ("obj", "new", "uninit", "call", "ctor"):
                return      # object not shared yet, or owner not tracked
            r.need(_held(st, m), "guarded-access", (fr.file, line),
                   "%s is %s without holding %s" % (sn(field), "written" if wr else "read", sn(m)), st)

        def write(r, st, place, val, line, fr):
            if place[0] == "f":
                read(r, st, place[2], place[1], line, fr, True)

        def call(r, st, c):
            g = _callee(db, c)
            if g is None or st.ts.get("building"):
                return
            for m in _lock_names(db, g, g.req):
                r.need(_held(st, m), "required-lock-held", c, "%s is called without holding %s" % (sn(g.name), sn(m)), st)

        def ret(r, st, v, line, fr):
            extra = [l for l in st.locks if l[0] not in req and l[0]]
            if st.locks or any(n[0] == "call" and len(n) > 4 and sn(n[1]) in ("Unlock", "Lock", "LockWhen") for n in walk(f.body)):
                r.need(not extra, "lock-released-at-exit", (fr.file, line), "%s still held when the function returns" % ", ".join(sn(l[0]) for l in extra), st)

        ctx.run(R(scope=r".", stops=[_stop(owners)], enter=enter, lam=lam, read=read, write=write, call=call, ret=ret, max_depth=6), [f])
    ctx.need("guarded-access", 20)
    ctx.need("required-lock-held")


def _stop(owners):
    names = sorted({re.escape(sn(o)) for o in owners})
    return r"^(?!.*\b(%s)::)" % "|".join(names)


def b04(ctx):
    """No lock is taken while the same lock is held, and locks are always taken
    in a consistent order."""
    db = ctx.db
    _decls(db)
    fs, owners = _subjects(ctx)
    order = {}

    for f in _entries(ctx, fs):
        req = _required(db, f)

        def enter(r, st, fr, req=req):
            if fr.depth == 0:
                st.locks = tuple((m, THIS) for m in req)

        def acquire(r, st, lock, line, fr):
            if not lock[0]:
                return
            same = [l for l in st.locks if l[0] == lock[0] and l[1] is lock[1]]
            r.need(not same, "lock-not-held-already", (fr.file, line), "%s is taken while it is already held" % sn(lock[0]), st)
            if not r.eng.muted:
                for l in st.locks:
                    if l[0] and l[0] != lock[0]:
                        order.setdefault((l[0], lock[0]), (fr.file, line))

        def call(r, st, c):
            g = _callee(db, c)
            if g is None or not g.excl:
                return
            if c.recv is not None and c.recv is not THIS:
                return
            for m in _lock_names(db, g, g.excl):
                r.need(not any(l[0] == m and l[1] is THIS for l in st.locks), "excluded-lock-free", c,
                       "%s is called while %s, which it takes, is held" % (sn(g.name), sn(m)), st)

        ctx.run(R(scope=r".", stops=[_stop(owners)], enter=enter, acquire=acquire, call=call, max_depth=5), [f])
    ctx.need("lock-not-held-already", 20)
    # cycles in the acquisition order
    succ = {}
    for a, b in order:
        succ.setdefault(a, set()).add(b)
    for (a, b), (file, line) in sorted(order.items(), key=str):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += succ.get(x, ())
        ctx.check("lock-order", file, line, a not in seen, "%s is taken while holding %s, and elsewhere the other way round" % (sn(b), sn(a)))
    ctx.notes.append("lock order: " + ", ".join("%s before %s" % k for k in sorted(order)))
