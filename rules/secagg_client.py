"""Rules over the secure aggregation client state machine."""
import re

from fcx.kit import *

UNITS = [r"^fcp/secagg/client/", r"^fcp/secagg/shared/"]
SCOPE = r"^fcp/secagg/client/"
BASE = "fcp::secagg::SecAggClientState"
OPS = ("Start", "HandleMessage", "SetInput", "Abort")


def states(ctx):
    """Concrete client state classes (transitive subclasses with a StateName)."""
    db = ctx.db
    out, todo = [], [BASE]
    while todo:
        b = todo.pop()
        for n, c in db.classes.items():
            if b in [re.sub(r"<.*", "", x) for x in c["bases"]] and n not in out:
                out.append(n)
                todo.append(n)
    conc = [n for n in out if any(f.cls == n and f.short == "StateName" for f in db.funcs.values())]
    if len(conc) < 5:
        raise AnalysisError("anchor vanished: client state classes (found %s)" % conc)
    return conc


def handlers(ctx, ops=OPS):
    out = []
    for s in states(ctx):
        for f in ctx.db.funcs.values():
            if f.cls == s and f.short in ops:
                out.append(f)
    if not out:
        raise AnalysisError("anchor vanished: client state handlers")
    return sorted(out, key=lambda f: (f.file, f.line))


def is_send(c):
    return isname(c, "fcp::secagg::SendToServerInterface::Send")


def abort_message(st, c):
    """The message being sent was filled through mutable_abort()/set_abort."""
    return st.ts.get("msg") == "abort"


def track_message(r, st, c):
    """Remember which oneof member of the outgoing message was last selected."""
    if c.name.startswith("fcp::secagg::ClientToServerWrapperMessage::mutable_"):
        st.ts["msg"] = c.short[len("mutable_"):]
    elif c.name == "fcp::secagg::ClientToServerWrapperMessage" and c.kind == "ctor":
        st.ts["msg"] = "none"


def named(rx):
    """Value of a field/parameter whose name matches, including versions of it
    changed by a loop or by +/- constants."""
    r = re.compile(rx)

    def p(t, seen=()):
        if t.op in ("fld", "param", "gvar"):
            return bool(r.search(sn(t.args[0])))
        if t.op == "hav":
            k = t.args[1]
            if isinstance(k, tuple) and k and k[0] == "f" and isinstance(k[2], str):
                return bool(r.search(sn(k[2])))
            if t in seen or len(seen) > 6:
                return False
            return any(p(x, seen + (t,)) for x in tm.PROV.get(t, ()) if x.op in ("fld", "param", "lin", "hav"))
        if t.op == "lin":
            return len(t.args[1]) == 1 and p(t.args[1][0][1], seen)
        return False
    return p


def ALIVE(t):
    """A count that loops take one off from (number of neighbours still alive)."""
    if t.op == "hav":
        return any(decremented(x) for x in tm.PROV.get(t, ())) or any(x.op == "hav" and x is not t and any(
            decremented(y) for y in tm.PROV.get(x, ())) for x in tm.PROV.get(t, ()))
    return decremented(t)


MINSURV = named(r"minimum_surviving|min_surviving")
CLIENTID = named(r"client_id|own_id|own_index")


# ---- S01 ---------------------------------------------------------------------
ADD = call_p("AddSecAggVectors", "AddSecAggUnpackedVectors")


def s01(ctx):
    hs = handlers(ctx)

    def call(r, st, c):
        if isname(c, "fcp::secagg::MaskedInputVector::set_encoded_vector"):
            v = c.args[0]
            adds = [x for x in tm.closure(v) if ADD(x)]
            ok = bool(adds)
            r.need(ok, "masked-before-send", c, "an input vector is put in the message to the server without the mask being added to it", st)
            for a in adds:
                x, y = a.args[2][0], a.args[2][1]
                mask = [z for z in (x, y) if is_mask(ctx, z)]
                inp = [z for z in (x, y) if not is_mask(ctx, z)]
                r.need(len(mask) == 1 and len(inp) == 1, "sum-of-input-and-mask", c,
                       "the vector sent is not the sum of one input vector and one mask (%s + %s)" % (tm.show(x)[:80], tm.show(y)[:80]), st)
                if len(mask) == 1 and len(inp) == 1:
                    km, ki = key_of(mask[0]), key_of(inp[0])
                    if km is not None and ki is not None:
                        r.need(same_entry(km, ki), "mask-of-same-vector", c, "input vector is summed with the mask of a different vector", st)
        elif is_send(c) and st.ts.get("msg") == "masked_input_response":
            r.ok(r.eng, "masked-input-sent", c.file, c.line)
        # no other way for input vectors to reach an outgoing message
        elif "fcp::secagg::" in c.name and re.search(r"::(set|add|mutable)_\w+$", c.name) and c.args:
            for a in c.args:
                if isinstance(a, T) and flows_from(a, lambda t: t.op == "fld" and sn(t.args[0]) == "input_map_") \
                        and not flows_from(a, ADD):
                    r.need(False, "no-raw-input-in-message", c, "unmasked input reaches an outgoing message field %s" % c.short, st)
        track_message(r, st, c)

    rule = R(scope=SCOPE, stops=[r"::AddSecAggVectors$", r"::AddSecAggUnpackedVectors$"], call=call)
    ctx.run(rule, hs)
    ctx.need("masked-before-send")
    ctx.need("masked-input-sent", 1)

    # the sum itself
    for f in entries(ctx, "fcp::secagg::AddSecAggVectors"):
        algo = any(True for _ in calls_in(f, "transform", "for_each", "generate"))

        def ret(r, st, v, line, fr):
            srcs = {x.args[0] for x in tm.closure(v) if x.op == "param"}
            if algo:
                r.need(None, "sum-reduced-modulo", (fr.file, line), "", st)
                return
            r.need(len(srcs) >= 2, "sum-uses-both-operands", (fr.file, line), "AddSecAggVectors result does not depend on both operands", st)
            sums = [x for x in tm.closure(v) if x.op == "arith" and x.args[0] == "%" or x.op == "call" and "Mod" in x.args[0]]
            ok = any(len({y.args[0] for y in tm.closure(x) if y.op == "param"}) >= 2 for x in sums)
            r.need(ok, "sum-reduced-modulo", (fr.file, line), "the masked element is not the sum of input and mask reduced by the modulus", st)

        # element by element
        def write(r, st, place, val, line, fr):
            if place[0] != "i" or not isinstance(val, T) or not isinstance(place[2], T):
                return
            at, i = (fr.file, line), place[2]
            st.ts["wrote"] = 1
            if i.op == "hav":
                n = full_count(st, i)
                r.need(n, "every-element-masked", at, "some elements are sent without the mask being added to them", st)
            if val.op == "arith" and val.args[0] == "%":
                c, l = tm._lin(val.args[1])
                el = [t for t in l if t.op == "idx"]
                if all(t.op == "idx" for t in l):
                    whose = [{y.args[0] for y in tm.closure(t.args[0]) if y.op == "param"} for t in el]
                    r.need(c == 0 and len(l) == 2 and set(l.values()) == {1} and whose[0] != whose[1], "sum-of-elements", at,
                           "the masked element is not the sum of one element of the input and one of the mask", st)
                    r.need(all(t.args[1] is i for t in el), "sum-of-elements", at, "elements of the input and of the mask at different positions are added", st)
                elif any(t.op == "arith" and t.args[0] in ("&", "%", ">>", "/") for t in l):
                    r.need(False, "sum-of-elements", at, "the mask is cut down before it is added", st)
                else:
                    r.need(None, "sum-of-elements", at, "", st)

        def loop(r, st, node, fr):
            st.ts["wrote"] = 0

        def it(r, st, node, fr):
            if node[0] in ("for", "rfor", "while") and any(n[0] == "asg" and n[2][0] in ("idx", "call") for n in walk(node)):
                r.need(bool(st.ts.get("wrote")), "every-element-masked", (fr.file, node[1]), "an element can be left without its mask", st)
                st.ts["wrote"] = 0
        ctx.run(R(scope=r"^$", ret=ret, write=write, loop=loop, iter=it), [f])

    self_mask(ctx)
    pair_masks(ctx)


def is_mask(ctx, t):
    """Value taken from the map produced by MapOfMasks."""
    def p(x):
        if x.op == "call" and isname(x, "MapOfMasks", "MapOfMasksImpl"):
            return True
        return x.op == "fld" and x.args[1] is THIS and mask_field(ctx, x.args[0])
    return flows_from(t, p)


def mask_field(ctx, fname):
    """Field of a state class that its constructor sites fill from MapOfMasks."""
    cache = ctx.__dict__.setdefault("_maskf", {})
    if fname in cache:
        return cache[fname]
    cls = fname.rsplit("::", 1)[0]
    cache[fname] = False
    fl = ctx.db.fields.get(fname)
    if fl is None or "SecAggVectorMap" not in fl[1] and "SecAggVector" not in fl[1]:
        return False
    # constructor parameter that initialises the field
    idx = None
    for f in ctx.db.funcs.values():
        if f.cls == cls and f.kind == "ctor":
            for ini in f.inits:
                if ini[0] == fname:
                    vids = [n[2] for n in walk(ini[1]) if n[0] == "var"]
                    for i, p in enumerate(f.params):
                        if p[0] in vids:
                            idx = i
    if idx is None:
        return False
    res = []

    def call(r, st, c):
        if c.kind == "ctor" and c.name == cls and idx < len(c.args):
            res.append(flows_from(c.args[idx], lambda x: x.op == "call" and isname(x, "MapOfMasks", "MapOfMasksImpl")))
    sub = R(scope=SCOPE, call=call)
    sub.ctx = ctx
    from fcx.engine import Engine
    for h in handlers(ctx):
        if any(cls in str(n) for n in walk(h.body) if n[0] in ("call", "ctor", "new")):
            Engine(ctx.db, sub).run(h)
    cache[fname] = bool(res) and all(res)
    return cache[fname]


def key_of(t):
    """The map key an element was looked up with (or the map entry it is)."""
    while t.op in ("upd",):
        t = t.args[1]
    if t.op == "idx":
        return t.args[1]
    if t.op == "fld" and t.args[0].startswith("std::pair"):
        return t.args[1]
    if t.op == "call" and t.args[0].startswith("std::get"):
        return t.args[2][0]
    return None


def same_entry(a, b):
    def ent(t):
        if t.op == "fld" and t.args[0].startswith("std::pair"):
            return t.args[1]
        if t.op == "call" and t.args[0].startswith("std::get"):
            return t.args[2][0]
        return t
    return a is b or ent(a) is ent(b)


def vec_root(t):
    seen = set()
    while True:
        if t.op == "upd":
            t = t.args[1]
        elif t.op == "hav":
            if t in seen:
                return t
            seen.add(t)
            c = [x for x in tm.PROV.get(t, ()) if x.op in ("obj", "ctor", "new")]
            if c:
                return c[0]
            c = [x for x in tm.PROV.get(t, ()) if x.op in ("upd", "hav") and x not in seen]
            if not c:
                return t
            t = c[0]
        else:
            return t


def is_keyvec_push(c):
    return c.short in ("push_back", "emplace_back") and "AesKey" in (c.recvtype or "") and c.args


def mask_lists(r, st, c):
    """Remember that the own (non-indexed) key was put into a list."""
    if is_keyvec_push(c) and c.args[0].op != "idx":
        st.ts[("self", vec_root(c.recv).uid)] = 1


def self_mask(ctx):
    def call(r, st, c):
        mask_lists(r, st, c)
        if isname(c, "MapOfMasks", "MapOfMasksImpl") and len(c.args) >= 2:
            a = vec_root(c.args[0])
            r.need(bool(st.ts.get(("self", a.uid))) or self_in_list(a), "self-mask-added", c,
                   "the client's own random mask is not among the masks added to its input", st)
    ctx.run(R(scope=SCOPE, call=call), [h for h in handlers(ctx) if "R2" in h.cls])
    ctx.need("self-mask-added")


def self_in_list(t):
    return t.op in ("ctor", "list", "obj") and len(t.args) > 1 and isinstance(t.args[1], tuple) and any(
        isinstance(x, T) and any(y.op != "idx" and has_sub(y, named("self")) for y in tm.subterms(x)) for x in t.args[1])


# ---- S06 (client half): sign and coverage of pairwise masks --------------------
def s06_client(ctx):
    pair_masks(ctx)


def pair_masks(ctx):
    hs = [h for h in handlers(ctx) if "R2" in h.cls]
    from fcx.engine import Engine
    # which list variables are passed for adding and which for subtracting
    roles = {}

    def find(r, st, c):
        if isname(c, "MapOfMasks", "MapOfMasksImpl") and len(c.args) >= 2:
            roles.setdefault(vec_root(c.args[0]), set()).add("add")
            roles.setdefault(vec_root(c.args[1]), set()).add("sub")
    pre = R(scope=SCOPE, call=find)
    pre.ctx = ctx
    for h in hs:
        Engine(ctx.db, pre).run(h)
    if not roles:
        raise AnalysisError("anchor vanished: MapOfMasks call in client")

    def call(r, st, c):
        if not is_keyvec_push(c):
            return
        k = c.args[0]
        role = roles.get(vec_root(c.recv))
        if not role or k.op != "idx":
            return
        i = k.args[1]
        st.ts["pushed"] = min(2, st.ts.get("pushed", 0) + 1)
        alive = enum_is(st, lambda t: t.op == "idx" and t.args[1] is i or flows_from(t, is_(i)), "kAlive")
        r.need(bool(alive), "pairwise-mask-only-for-alive", c, "pairwise mask used for a neighbour not known to be alive", st)
        if not ctx_has_clientid(st):
            r.need(None, "pairwise-mask-sign", c, "own index not recognised in path conditions")
            return
        if "add" in role and "sub" in role:
            r.need(False, "pairwise-mask-sign", c, "the same list is both added and subtracted", st)
        elif "add" in role:
            r.need(at_least(st, CLIENTID, is_(i), 1), "pairwise-mask-sign", c,
                   "mask shared with neighbour i is added without i < own index being established", st)
        else:
            r.need(at_least(st, is_(i), CLIENTID, 1) or (at_least(st, is_(i), CLIENTID, 0) and differs(st, is_(i), CLIENTID)),
                   "pairwise-mask-sign", c, "mask shared with neighbour i is subtracted without i > own index being established", st)

    def has_push(node):
        return any(n[0] == "call" and sn(n[1]) in ("push_back", "emplace_back") and len(n) > 9 and "AesKey" in str(n[9]) for n in walk(node))

    def loop(r, st, node, fr):
        if has_push(node):
            st.ts["pushed"] = 0

    def it(r, st, node, fr):
        if not has_push(node):
            return
        n = st.ts.pop("pushed", None)
        if n is None:
            return
        dead = fact(st, lambda a: a.op == "eq" and a.args[0].op == "enum" and sn(a.args[0].args[0]) == "kAlive", False)
        own = fact(st, lambda a: a.op == "eq" and any(CLIENTID(x) for x in a.args), True)
        if n == 0:
            r.need(bool(dead or own), "pairwise-mask-for-every-alive-neighbour", (fr.file, node[1]),
                   "an alive neighbour's pairwise mask is left out", st)
        else:
            r.need(n == 1, "pairwise-mask-for-every-alive-neighbour", (fr.file, node[1]), "a pairwise mask is applied twice", st)
    ctx.run(R(scope=SCOPE, call=call, loop=loop, iter=it), hs)
    ctx.need("pairwise-mask-sign")
    ctx.need("pairwise-mask-for-every-alive-neighbour")


def ctx_has_clientid(st):
    return any(CLIENTID(x) for k in st.facts for x in tm.subterms(k))


# ---- S02: unmasking ------------------------------------------------------------
def s02(ctx):
    hs = handlers(ctx, ("HandleMessage",))

    def call(r, st, c):
        track_message(r, st, c)
        if isname(c, "fcp::secagg::NoiseOrPrfKeyShare::set_prf_sk_share", "fcp::secagg::NoiseOrPrfKeyShare::set_noise_sk_share"):
            prf = c.short == "set_prf_sk_share"
            st.ts["share"] = st.ts.get("share", 0) + 1 if st.ts.get("share", 0) < 2 else 2
            idx = index_in(c.args[0])
            if idx is None:
                r.need(None, "share-type-matches-status", c, "share not taken by index")
                return
            want = "kAlive" if prf else "kDeadAtRound3"
            g = enum_is(st, lambda t: flows_from(t, is_(idx)), want)
            if idx.op == "hav":
                r.need(full_count(st, idx), "entry-for-every-neighbour", c, "the unmasking response leaves out the first or last neighbours", st)
            r.need(bool(g), "share-type-matches-status", c,
                   "a %s share is revealed for a neighbour not known to be %s" % ("self-mask" if prf else "pairwise-key", want), st)
        elif c.name.endswith("UnmaskingResponse::add_noise_or_prf_key_shares"):
            st.ts["entries"] = min(2, st.ts.get("entries", 0) + 1)
        elif is_send(c) and st.ts.get("msg") == "unmasking_response":
            r.ok(r.eng, "unmasking-sent", c.file, c.line)
        # own key material must never be a share argument for the wrong kind
        if isname(c, "set_prf_sk_share") and c.args and flows_from(c.args[0], named(r"pairwise")):
            r.need(False, "share-source", c, "pairwise-key share revealed in the self-mask field", st)
        if isname(c, "set_noise_sk_share") and c.args and c.name.startswith("fcp::secagg::NoiseOrPrf") and flows_from(c.args[0], named(r"^self_")):
            r.need(False, "share-source", c, "self-mask share revealed in the pairwise-key field", st)

    def has(node, nm):
        return any(n[0] == "call" and sn(n[1]) == nm for n in walk(node))

    def loop(r, st, node, fr):
        if has(node, "add_noise_or_prf_key_shares"):
            st.ts["entries"] = 0
            st.ts["share"] = 0

    def it(r, st, node, fr):
        if has(node, "add_noise_or_prf_key_shares"):
            n = st.ts.pop("entries", 0)
            s = st.ts.pop("share", 0)
            r.need(n == 1, "one-entry-per-neighbour", (fr.file, node[1]), "the unmasking response gets %d entries for one neighbour" % n, st)
            r.need(s <= 1, "at-most-one-share-per-neighbour", (fr.file, node[1]), "two shares revealed for one neighbour", st)
        elif node[0] == "rfor" and any(n[0] == "call" and sn(n[1]) == "dead_3_client_ids" for n in walk(node[5])) or (
                node[0] in ("for", "while") and has(node, "dead_3_client_ids") and not has(node, "add_noise_or_prf_key_shares")):
            mark = [(p, v) for p, v in st.mem.items() if p[0] == "i" and v.op == "enum" and sn(v.args[0]) == "kDeadAtRound3"]
            r.need(bool(mark), "reported-dead-is-marked", (fr.file, node[1]), "a client reported dead is not recorded as dead before shares are chosen", st)
            for p, v in mark:
                i = p[2]
                was = enum_is(st, lambda t: flows_from(t, is_(i)), "kAlive")
                r.need(bool(was), "reported-dead-was-alive", (fr.file, node[1]), "a client reported dead twice (or already gone) is accepted", st)
                rng = at_least(st, any_p(named(r"number_of"), size_p(lambda t: True)), i, 1)
                r.need(rng, "reported-dead-in-range", (fr.file, node[1]), "a reported client id is used without being checked against the number of neighbours", st)
                own = differs(st, i, CLIENTID)
                if not own and not ctx_has_clientid(st):
                    own = None
                r.need(own if own is None else bool(own), "reported-dead-not-self", (fr.file, node[1]), "the server can report this very client dead and still get shares", st)
    r3 = [h for h in hs if any(n[0] == "call" and sn(n[1]) in ("unmasking_request", "has_unmasking_request") for n in walk(h.body))]
    if not r3:
        raise AnalysisError("anchor vanished: handler of unmasking requests")
    ctx.run(R(scope=SCOPE, call=call, loop=loop, iter=it), r3)
    ctx.need("share-type-matches-status")
    ctx.need("unmasking-sent")
    ctx.need("reported-dead-is-marked")


def index_in(t):
    for x in tm.subterms(t):
        if x.op == "idx":
            return x.args[1]
        if x.op == "elem":
            return x
    return None


# ---- S03: thresholds -------------------------------------------------------------
def s03(ctx):
    def call(r, st, c):
        track_message(r, st, c)
        if is_send(c):
            m = st.ts.get("msg")
            if m in ("share_keys_response", "masked_input_response", "unmasking_response"):
                if "SetInput" == r.eng.entry.short:
                    return  # masks were computed (and the count checked) when the request was handled
                ok = at_least(st, ALIVE, MINSURV, 0)
                r.need(ok, "enough-alive-before-" + m, c, "%s is sent without the number of alive neighbours being at least the reconstruction minimum" % m, st)
                if m == "share_keys_response":
                    pk = lambda t: has_sub(t, call_p("pairs_of_public_keys"))
                    r.need(at_least(st, size_p(pk), MINSURV, 0), "enough-keys-advertised", c,
                           "key shares are sent although fewer neighbours than the minimum were announced", st)
                    r.need(at_least(st, named(r"max_neighbors"), size_p(pk), 0), "not-too-many-neighbours", c,
                           "key shares are sent although more neighbours than expected were announced", st)
        elif isname(c, "fcp::secagg::ShamirSecretSharing::Share"):
            thr = c.args[0]
            r.need(True if thr.op in ("fld", "param") and MINSURV(thr) else None if thr.op in ("hav", "call") and flows_from(thr, MINSURV) else False, "share-threshold-is-minimum", c,
                   "keys are split with a threshold other than the reconstruction minimum", st)
        elif c.kind == "ctor" and c.name.endswith("WaitingForInputState"):
            r.need(at_least(st, ALIVE, MINSURV, 0), "enough-alive-before-masking", c,
                   "the client becomes ready to send input although too few neighbours are alive", st)
    hs = [h for h in handlers(ctx, ("HandleMessage", "SetInput"))]
    ctx.run(R(scope=SCOPE, call=call), hs)
    for m in ("share_keys_response", "masked_input_response", "unmasking_response"):
        ctx.need("enough-alive-before-" + m)
    ctx.need("share-threshold-is-minimum")
    # every neighbour that drops is taken off the count
    def it(r, st, node, fr):
        marks = [(p, v) for p, v in st.mem.items() if p[0] == "i" and v.op == "enum" and sn(v.args[0]).startswith("kDead")]
        if not marks:
            return
        dec = [k for k, v in list(st.mem.items()) + list(st.env.items()) if isinstance(v, T) and decremented(v) and same_place(k, v.args[1][0][1])]
        r.need(bool(dec), "dead-neighbour-not-counted", (fr.file, node[1]), "a neighbour is marked dead without being taken off the alive count", st)
    ctx.run(R(scope=SCOPE, iter=it), hs)
    ctx.need("dead-neighbour-not-counted")
    handover(ctx)


def same_place(k, t):
    """t is an earlier value of the variable or field kept at place k."""
    if t.op == "fld":
        return k[0] == "f" and k[2] == t.args[0]
    if t.op == "hav":
        return t.args[1] == k or k[0] == "v" and t.args[1] == tuple(k[1:])
    return t.op not in ("elem", "idx", "call")


def handover(ctx):
    """Each state tells the next how many neighbours are still alive and what
    the minimum is."""
    ctors = {}
    for f in ctx.db.funcs.values():
        if f.kind == "ctor" and f.cls in states(ctx):
            ctors.setdefault((f.cls, len(f.params)), [p[1] for p in f.params])

    def call(r, st, c):
        ps = ctors.get((c.name, len(c.args))) if c.kind == "ctor" else None
        for n, a in zip(ps or (), c.args):
            if "alive" in n:
                ok = ALIVE(a) or a.op in ("fld", "param") and "alive" in sn(a.args[0])
                r.need(ok or (None if a.op == "hav" and not named(r"number_of")(a) else False), "alive-count-handed-on", c, "the next state is told a number of alive neighbours that does not discount those that dropped out", st)
            elif "minimum_surviving" in n:
                r.need(a.op in ("fld", "param") and MINSURV(a) or (None if a.op in ("hav", "call") else False), "minimum-handed-on", c, "the next state is told another minimum than the configured one", st)
            elif re.match(r"number_of_(neighbors|clients)$", n):
                r.need(not ALIVE(a) and not (a.op == "fld" and "alive" in a.args[0]), "alive-count-handed-on", c, "the next state is told the number of alive neighbours as the number of neighbours", st)
    ctx.run(R(scope=SCOPE, call=call), handlers(ctx))
    ctx.need("alive-count-handed-on")
    ctx.need("minimum-handed-on")


def decremented(v):
    return v.op == "lin" and v.args[0] == -1 and len(v.args[1]) == 1 and v.args[1][0][0] == 1


# ---- S04: terminal states, aborts --------------------------------------------------
def s04(ctx):
    db = ctx.db
    term = {}
    for s in states(ctx):
        for f in db.funcs.values():
            if f.cls == s and f.short in ("IsAborted", "IsCompletedSuccessfully"):
                term.setdefault(s, []).append(f)
    if len(term) < 2:
        raise AnalysisError("anchor vanished: terminal client states")
    for s in term:
        for op in OPS:
            f = resolve(ctx, s, op)

            def call(r, st, c):
                r.need(not is_send(c), "terminal-state-sends-nothing", c, "a terminal client state sends a message", st)

            def ret(r, st, v, line, fr):
                r.need(err_return(st, v), "terminal-state-refuses", (fr.file, line), "%s::%s can succeed in a terminal state" % (sn(s), op), st)
            ctx.run(R(scope=SCOPE, call=call, ret=ret), [f])
    for s in states(ctx):
        if s in term:
            continue
        f = resolve(ctx, s, "Abort")

        def ret(r, st, v, line, fr):
            ok = v.op == "new" and v.args[0].endswith("AbortedState")
            r.need(ok, "abort-ends-session", (fr.file, line), "Abort() of %s does not lead to the aborted state" % sn(s), st)
            r.need(st.ts.get("sent") == "abort", "abort-notifies-server", (fr.file, line), "Abort() of %s does not tell the server" % sn(s), st)
        ctx.run(R(scope=SCOPE, call=sent, ret=ret), [f])

    # no message after the client gave up; abort requests are honoured
    def ret(r, st, v, line, fr):
        sig = fact(st, lambda a: a.op == "call" and sn(a.args[0]) == "Signalled", True)
        if sig:
            r.need(v.op == "new" and v.args[0].endswith("AbortedState"), "abort-request-honoured", (fr.file, line),
                   "the handler carries on after seeing that an abort was requested", st)
            r.need(st.ts.get("sent") in ("abort",), "abort-request-sends-only-abort", (fr.file, line),
                   "protocol data is sent after an abort request was seen", st)
        if v.op == "new" and v.args[0].endswith("AbortedState"):
            server = fact(st, lambda a: a.op == "call" and sn(a.args[0]) == "has_abort", True)
            if server:
                r.need(st.ts.get("sent") is None, "server-abort-answered-silently", (fr.file, line), "a message is sent in reply to the server's abort", st)
                es = fact(st, lambda a: a.op == "call" and sn(a.args[0]) == "early_success", True)
                r.need(not es, "early-success-completes", (fr.file, line), "early success reported as abort", st)
            else:
                r.need(st.ts.get("sent") == "abort", "giving-up-notifies-server", (fr.file, line), "the client gives up without telling the server", st)
        if v.op == "new" and v.args[0].endswith("CompletedState"):
            server = fact(st, lambda a: a.op == "call" and sn(a.args[0]) == "has_abort", True)
            if server:
                es = fact(st, lambda a: a.op == "call" and sn(a.args[0]) == "early_success", True)
                r.need(bool(es), "completed-only-on-early-success", (fr.file, line), "a server abort is reported as success", st)
                r.need(st.ts.get("sent") is None, "server-abort-answered-silently", (fr.file, line), "a message is sent in reply to the server's abort", st)
            else:
                r.need(st.ts.get("sent") == "unmasking_response", "completed-after-unmasking", (fr.file, line), "the client reports success without having sent its unmasking response", st)
        if v.op == "new" and not re.search(r"(Aborted|Completed)State$", v.args[0]):
            server = fact(st, lambda a: a.op == "call" and sn(a.args[0]) == "has_abort", True)
            r.need(not server, "server-abort-stops-client", (fr.file, line), "the client continues after the server's abort message", st)
    hs = handlers(ctx, ("Start", "HandleMessage", "SetInput"))
    ctx.run(R(scope=SCOPE, call=sent, ret=ret), hs)
    ctx.need("abort-request-honoured")
    ctx.need("giving-up-notifies-server")
    ctx.need("completed-after-unmasking")
    ctx.need("completed-only-on-early-success")

    # per-neighbour loops poll for abort
    HEAVY = ("ComputeSharedSecret", "Decrypt", "Encrypt", "add_noise_or_prf_key_shares")

    def heavy(node):
        return any(n[0] == "call" and sn(n[1]) in HEAVY for n in walk(node))

    def noflag(a):
        return a.op == "has" and "AsyncAbort" in str(ctx.db.fields.get(a.args[0].args[0], ["", ""])[1] if a.args[0].op == "fld" else "")

    def loop(r, st, node, fr):
        if heavy(node):
            st.ts["polled"] = 1 if fact(st, noflag, False) else 0

    def branch(r, st, atom, pol, line, fr):
        if "polled" in st.ts and (has_sub(atom, call_p("Signalled")) or noflag(atom) and not pol):
            st.ts["polled"] = 1

    def it(r, st, node, fr):
        if heavy(node):
            r.need(bool(st.ts.pop("polled", 1)), "abort-polled-in-loop", (fr.file, node[1]), "loop over neighbours does not poll for an abort request", st)
    ctx.run(R(scope=SCOPE, iter=it, loop=loop, branch=branch), handlers(ctx, ("HandleMessage",)))
    ctx.need("abort-polled-in-loop", 3)
    front(ctx)

    # raising the flag raises it
    for f in entries(ctx, "fcp::secagg::AsyncAbort::Abort"):
        def raised(r, st, place, val, line, fr):
            if place[0] != "v" and not (tm.is_const(val) if isinstance(val, T) else False) and place[0] in ("t", "f", "i", "d") and "signal" in str(place[1:]):
                st.ts["up"] = 1

        def call(r, st, c):
            if c.short in ("store", "exchange", "operator=", "compare_exchange_strong") and c.recv is not None and flows_from(c.recv, lambda t: t.op == "fld" and "atomic" in str(ctx.db.fields.get(t.args[0], ""))):
                st.ts["up"] = 1

        def ret(r, st, v, line, fr):
            r.need(bool(st.ts.get("up")) or bool(fact(st, lambda a: flows_from(a, lambda t: t.op == "fld" and "atomic" in str(ctx.db.fields.get(t.args[0], ""))))), "abort-raises-flag", (f.rel(), f.line),
                   "an abort request can leave the flag down", st)
        ctx.run(R(scope=r"^fcp/secagg/shared/async_abort", write=raised, call=call, ret=ret), [f])


def sent(r, st, c):
    if is_send(c):
        r.need(st.ts.get("sent") != "abort", "nothing-after-abort", c, "a message is sent after the abort notification", st)
        st.ts["sent"] = st.ts.get("msg") or "?"
    track_message(r, st, c)
    if c.kind == "ctor" and re.search(r"SecAggClient(Aborted|Completed)State$", c.name):
        st.ts["over"] = 1
    elif is_send(c) and st.ts.get("over"):
        r.need(False, "nothing-after-terminal", c, "a message is sent after the terminal state was created", st)


def resolve(ctx, cls, op):
    todo = [cls]
    while todo:
        c = todo.pop(0)
        for f in ctx.db.funcs.values():
            if f.cls == c and f.short == op:
                return f
        d = ctx.db.classes.get(c)
        if d:
            todo += [re.sub(r"<.*", "", b) for b in d["bases"]]
    raise AnalysisError("anchor vanished: %s::%s" % (cls, op))


def front(ctx):
    """SecAggClient: state replaced only by a successful transition, under the lock."""
    cls = "fcp::secagg::SecAggClient"
    fs = [f for f in methods(ctx, cls) if f.kind == "fn"]

    def wr(r, st, place, val, line, fr):
        if place[0] == "f" and place[1] is THIS and state_field(ctx, place[2]):
            ok = st.known(mk("ok", val))
            r.need(ok is True, "state-replaced-only-on-success", (fr.file, line), "client state replaced although the transition failed", st)
            r.need(bool(st.locks), "state-replaced-under-lock", (fr.file, line), "client state replaced without the lock", st)

    def call(r, st, c):
        if c.recv is not None and c.name.startswith("fcp::secagg::SecAggClientState::"):
            r.need(bool(st.locks), "state-used-under-lock", c, "client state used without the lock", st)
            if c.short == "Abort":
                a = fact(st, lambda a: a.op == "call" and sn(a.args[0]) == "IsAborted", False)
                b = fact(st, lambda a: a.op == "call" and sn(a.args[0]) == "IsCompletedSuccessfully", False)
                r.need(bool(a and b), "abort-is-idempotent", c, "Abort() is forwarded to a session that already ended", st)
        if c.name.endswith("AsyncAbort::Abort"):
            st.ts["flag"] = 1
            r.need(not st.locks, "abort-flag-raised-before-lock", c, "the abort flag is raised only after waiting for the running handler", st)

    def ret(r, st, v, line, fr):
        if fr.func.short == "Abort":
            r.need(bool(st.ts.get("flag")), "abort-raises-flag", (fr.file, line), "Abort() does not raise the asynchronous abort flag", st)
        if fr.func.short in ("Start", "SetInput", "ReceiveMessage", "Abort"):
            tr = fact(st, lambda a: a.op == "ok" and a.args[0].op == "call" and "SecAggClientState::" in a.args[0].args[0])
            if tr and tr[1]:
                wrote = any(k[0] == "f" and state_field(ctx, k[2]) and v2 is tr[0].args[0] for k, v2 in st.mem.items())
                r.need(wrote, "transition-takes-effect", (fr.file, line), "a successful transition is not stored", st)
            if tr and not tr[1]:
                r.need(status_of(st, v) is False, "transition-error-reported", (fr.file, line), "a failed transition is reported as success", st)
    ctx.run(R(scope=r"fcp/secagg/client/secagg_client\.(cc|h)$", write=wr, call=call, ret=ret), fs)
    ctx.need("state-replaced-only-on-success")
    ctx.need("abort-raises-flag")

    # after a successful message the caller learns whether the session is over
    def ret2(r, st, v, line, fr):
        if status_of(st, v) is False:
            return
        ended = ("IsAborted", "IsCompletedSuccessfully")
        for b, s in bool_cases(st, v):
            over = fact(s, lambda a: a.op == "call" and sn(a.args[0]) in ended, True)
            both = all(fact(s, lambda a, n=n: a.op == "call" and sn(a.args[0]) == n, False) for n in ended)
            r.need(both if b else bool(over), "more-messages-expected", (fr.file, line),
                   "ReceiveMessage says the session goes on although it may have ended" if b else "ReceiveMessage says the session is over although it is not", s)
    ctx.run(R(scope=r"fcp/secagg/client/secagg_client\.(cc|h)$", ret=ret2), entries(ctx, cls + "::ReceiveMessage"))
    ctx.need("more-messages-expected")


def state_field(ctx, name):
    f = ctx.db.fields.get(name)
    return bool(f) and "SecAggClientState" in f[1] and name.startswith("fcp::secagg::SecAggClient::")


# ---- S05: malformed server messages ------------------------------------------------
def s05(ctx):
    enc = lambda t: has_sub(t, call_p("enc_pk"))
    noise = lambda t: has_sub(t, call_p("noise_pk"))

    def call(r, st, c):
        track_message(r, st, c)
        if is_send(c) and st.ts.get("msg") == "share_keys_response":
            sid = lambda t: has_sub(t, call_p("session_id"))
            r.need(equal(st, size_p(sid), 32), "session-id-length", c, "shares are sent although the session id has the wrong length", st)
            own = lambda x: x.op == "hav" and isinstance(x.args[1], tuple) and x.args[1] in ownvars
            flag = fact(st, lambda a: not own(a) and any(own(x) for x in tm.subterms(a))) if not fact(st, own) else fact(st, own, True)
            pk = lambda t: has_sub(t, call_p("pairs_of_public_keys"))
            r.need(at_least(st, named(r"max_neighbors"), size_p(pk), 0), "not-too-many-neighbours", c, "key shares are sent although more neighbours than expected were announced", st)
            r.need(bool(flag), "own-key-listed", c, "shares are sent although this client's own keys may not be among those announced", st)
        if isname(c, "fcp::secagg::EcdhKeyAgreement::ComputeSharedSecret"):
            r.ok(r.eng, "shared-secret", c.file, c.line)
        if c.kind == "ctor" and isname(c, "fcp::secagg::EcdhPublicKey") and c.args and has_sub(c.args[0], call_p("enc_pk", "noise_pk")):
            for nm, p in (("enc_pk", enc), ("noise_pk", noise)):
                if has_sub(c.args[0], call_p(nm)):
                    r.need(equal(st, size_p(p), lambda t: t.op == "gvar" or tm.is_int(t) and tm.cval(t) > 0), "public-key-length", c,
                           "a public key is read from the request without its length being checked", st)
        if is_keyvec_push(c):
            for x in tm.closure(c.args[0]):
                if x.op == "call" and isname(x, "ComputeSharedSecret"):
                    r.need(st.known(mk("ok", x)) is True, "shared-secret-checked", c, "a key is used although computing the shared secret may have failed", st)
        if isname(c, "set_prf_sk_share", "set_noise_sk_share", "add_noise_or_prf_key_shares", "AddSecAggVectors"):
            return
        if isname(c, "fcp::secagg::AesGcmEncryption::Decrypt"):
            e = c.args[1]
            cnt = lambda t: has_sub(t, call_p("encrypted_key_shares"))
            r.need(equal(st, size_p(cnt), named(r"number_of")), "share-count", c, "shares are decrypted although their number does not match the number of neighbours", st)
            i = index_of_arg(e)
            if i is not None:
                r.need(bool(enum_is(st, lambda t: flows_from(t, is_(i)), "kAlive")), "shares-only-from-alive", c,
                       "a share is accepted from a neighbour not known to be alive", st)
                ks = index_in(c.args[0])
                r.need(ks is i, "share-key-matches-sender", c, "a share is decrypted with another neighbour's key", st)

    def after(r, st, c, ret):
        if c.short in ("push_back", "emplace_back") and "ShamirShare" in (c.recvtype or "") and c.args:
            a = c.args[0]
            for x in tm.closure(a):
                if x.op == "call" and isname(x, "Decrypt"):
                    r.need(st.known(mk("ok", x)) is True, "share-authenticated", c, "a share is kept although its decryption may have failed", st)
            p = [x for x in tm.closure(a) if x.op == "call" and isname(x, "noise_sk_share", "prf_sk_share")]
            if p:
                par = fact(st, lambda k: k.op == "call" and sn(k.args[0]).startswith("Parse"), True)
                r.need(bool(par), "share-parsed", c, "a share is read although the decrypted bytes may not have parsed", st)

    ownvars = set()

    def is_own(a):
        return a.op == "eq" and has_sub(a, call_p("PublicKey"))

    def write(r, st, place, val, line, fr):
        # variables assigned when the client recognises its own keys
        if place[0] == "v" and not r.eng.muted and not has_sub(val, lambda t: t.op == "hav" and t.args[1] == (place[1], place[2])) and sum(1 for k, v in st.facts.items() if v and is_own(k)) >= 2:
            ownvars.add((place[1], place[2]))
            cur = [x for k in st.facts for x in tm.subterms(k) if x.op == "hav" and x.args[1] in ownvars]
            again = fact(st, lambda a: a.op == "hav" and a.args[1] in ownvars, True)
            if tm.is_const(val) and isinstance(tm.cval(val), str):
                again = None  # the words of a refusal
            r.need(bool(cur) and not again, "own-key-listed-once", (fr.file, line), "this client's keys may appear twice in the request", st)
    hs = handlers(ctx, ("HandleMessage",))
    from fcx.engine import Engine
    collect = R(scope=SCOPE, write=lambda r, st, *a: write(quiet, st, *a))

    class quiet:
        eng = property(lambda self: collect.eng)

        def need(self, *a):
            pass
    quiet = quiet()
    for h in hs:
        Engine(ctx.db, collect).run(h)
    ctx.run(R(scope=SCOPE, call=call, after=after, write=write), hs)
    for n in ("session-id-length", "public-key-length", "shared-secret-checked", "share-count", "share-authenticated", "share-parsed",
              "shares-only-from-alive"):
        ctx.need(n)

    # a share from a neighbour already known dead is refused
    def it(r, st, node, fr):
        if not any(n[0] == "call" and sn(n[1]) == "Decrypt" for n in walk(node)):
            return
        bad = fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("Decrypt")), False)
        r.need(not bad, "undecryptable-share-ends-session", (fr.file, node[1]), "the client goes on after a share failed to decrypt", st)
        n = st.ts.pop("kept", ())
        r.need(len(n) == 2 and len(set(n)) == 2, "shares-kept-in-order", (fr.file, node[1]), "an iteration does not append exactly one share to each list, so later shares are attributed to the wrong neighbour", st)
        notalive = fact(st, lambda a: a.op == "eq" and a.args[0].op == "enum" and sn(a.args[0].args[0]) == "kAlive", False)
        if notalive:
            empty = fact(st, lambda a: a.op == "eq" and a.args[0] is const(0) and has_sub(a.args[1], call_p("encrypted_key_shares")), True)
            r.need(bool(empty), "no-share-from-dead", (fr.file, node[1]), "a share attributed to a dead neighbour is ignored instead of ending the session", st)
    def kept(r, st, c):
        if c.short in ("push_back", "emplace_back") and "ShamirShare" in (c.recvtype or ""):
            st.ts["kept"] = (st.ts.get("kept", ()) + (vec_root(c.recv).uid,))[-3:]

    def loop(r, st, node, fr):
        st.ts.pop("kept", None)
    ctx.run(R(scope=SCOPE, call=kept, loop=loop, iter=it), hs)
    ctx.need("no-share-from-dead")

    # wrong message type: error, nothing sent, state kept
    for s in states(ctx):
        f = resolve(ctx, s, "HandleMessage")

        def ret(r, st, v, line, fr):
            yes = fact(st, lambda a: a.op == "call" and re.match(r"has_\w+", sn(a.args[0])) is not None, True)
            if not yes:
                r.need(err_return(st, v) and not st.ts.get("sent"), "unexpected-message-refused", (fr.file, line),
                       "%s accepts a message of a type it does not expect" % sn(s), st)
        ctx.run(R(scope=SCOPE, call=sent_only, ret=ret), [f])
    ctx.need("unexpected-message-refused", 5)

    # input vectors are validated before being accepted
    for f in handlers(ctx, ("SetInput",)):
        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            n = equal(st, size_p(lambda t: root(t).op == "param" or True), size_p(lambda t: has_sub(t, named("spec")))) or \
                fact(st, lambda a: a.op == "eq" and has_sub(a, named("spec")) and has_sub(a, call_p("size")), True)
            r.need(bool(n), "input-count-checked", (fr.file, line), "input accepted without checking the number of vectors", st)
            for what in ("modulus", "num_elements"):
                u = ufact(st, lambda a: a.op == "eq" and any(attr_p(what)(x) or what == "num_elements" and size_p(lambda t: True)(x) for x in a.args) and has_sub(a, call_p(what)) and
                          all(attr_p(what)(x) or x.op in ("call", "fld", "hav") and not has_sub(x, lambda t: t.op == "call" and "idth" in t.args[0]) for x in a.args), True)
                r.need(bool(u), "input-%s-checked" % what, (fr.file, line), "input accepted without checking each vector's %s" % what, st)
            u = ufact(st, lambda a: a.op == "haskey", True)
            r.need(bool(u), "input-names-checked", (fr.file, line), "input accepted without checking each vector's name", st)
        ctx.run(R(scope=SCOPE, stops=[r"SendMaskedInput$"], ret=ret), [f])
    ctx.need("input-modulus-checked", 2)


def index_of_arg(t):
    if t.op == "call" and t.args[2]:
        return t.args[2][-1]
    return index_in(t)


def sent_only(r, st, c):
    if is_send(c):
        st.ts["sent"] = 1


# ---- key shares only leave encrypted -------------------------------------------------
def s07c(ctx):
    def call(r, st, c):
        if c.name.endswith("ShareKeysResponse::add_encrypted_key_shares"):
            v = c.args[0] if c.args else None
            if v is None:
                r.need(None, "shares-leave-encrypted", c, "share added through a pointer")
                return
            if v.op == "c" and v.args[1] == "":
                r.need(bool(fact(st, lambda a: a.op == "eq" and a.args[0] is const(0), True)), "empty-share-only-for-absent", c,
                       "an empty share is sent for a neighbour with a key", st)
                return
            encs = [x for x in tm.closure(v) if x.op == "call" and isname(x, "fcp::secagg::AesGcmEncryption::Encrypt")]
            r.need(v.op == "call" and bool(encs), "shares-leave-encrypted", c, "key shares are sent without being encrypted", st)
            for e in encs:
                k = index_in(e.args[2][0])
                ps = [index_in(y.args[2][0]) for x in st.ts.get("pair", ()) for y in [x]] if False else None
                st.ts["n"] = 1
                keyi = k
                srcs = st.ts.get("pairidx", ())
                for s in srcs:
                    r.need(s == (keyi.uid if keyi is not None else None), "share-key-matches-recipient", c, "a neighbour's share is encrypted with another neighbour's key", st)
                r.need(len(srcs) >= 2, "both-shares-included", c, "a neighbour does not get both key shares", st)
        elif c.name.startswith("fcp::secagg::PairOfKeyShares::set_"):
            i = index_in(c.args[0])
            if i is not None:
                st.ts["pairidx"] = st.ts.get("pairidx", ()) + (i.uid,)
                if len(st.ts["pairidx"]) > 2:
                    st.ts["pairidx"] = st.ts["pairidx"][-2:]
            want = "pairwise" if c.short == "set_noise_sk_share" else "self"
            other = "self" if want == "pairwise" else "pairwise"
            if flows_from(c.args[0], named(other)) and not flows_from(c.args[0], named(want)):
                r.need(False, "share-kinds-not-swapped", c, "the %s share is stored in the wrong field" % other, st)
            else:
                r.ok(r.eng, "share-kinds-not-swapped", c.file, c.line)
    ctx.run(R(scope=SCOPE, call=call), [h for h in handlers(ctx, ("HandleMessage",)) if "R1" in h.cls])
    ctx.need("shares-leave-encrypted")
    ctx.need("share-kinds-not-swapped", 2)
