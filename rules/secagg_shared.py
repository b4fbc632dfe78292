"""Rules over the code both sides of secure aggregation share: mask expansion,
secret sharing, masked vectors, share encryption, and the task accumulator."""
import re

from fcx.kit import *

UNITS = [r"^fcp/secagg/shared/", r"^fcp/secagg/server/secagg_scheduler"]
NS = "fcp::secagg::"


def P_(fn, i):
    """The i-th parameter of an entry function, as a predicate."""
    name = fn.params[i][1]
    return lambda t: t.op == "param" and t.args[0] == name


def elem_of(pred):
    return lambda t: t.op in ("elem", "idx") and pred(t.args[0])


def lin_of(t):
    """(constant, the single unit-coefficient term) of t, or None."""
    c, m = tm._lin(t)
    if len(m) == 1 and list(m.values()) == [1]:
        return c, next(iter(m))
    return None


# ---- S14: mask expansion ---------------------------------------------------------
def s14(ctx):
    fs = [f for f in in_files(ctx, r"^fcp/secagg/shared/map_of_masks\.cc") if re.search(r"MapOfMasks(V\d+)?$", f.name) and len(f.params) >= 4]
    if not fs:
        raise AnalysisError("anchor vanished: mask expansion entry points")
    for f in fs:
        add, sub, specs, sess = (P_(f, i) for i in range(4))
        in_add, in_sub = elem_of(add), elem_of(sub)
        spec = elem_of(specs)
        seeds = {"add": set(), "sub": set()}

        def side(t):
            a, s = flows_from(t, in_add), flows_from(t, in_sub)
            return "add" if a and not s else "sub" if s and not a else "both" if a else None

        def call(r, st, c):
            if isname(c, NS + "AesPrngFactory::MakePrng") and c.args:
                k = c.args[-1]
                d = side(k)
                if d is None:
                    r.need(None, "seed-binds-key", c, "", st)
                    return
                r.need(d != "both", "seed-binds-key", c, "one generator is seeded from keys of both lists", st)
                for what, p in (("the session id", sess), ("the vector's name", attr_p("name", spec)),
                                ("the vector's length", attr_p("length", spec)), ("the vector's modulus", attr_p("modulus", spec))):
                    r.need(flows_from(k, p), "seed-binds-context", c, "the seed of a mask generator does not depend on %s" % what, st)
                for what, p in (("the session id", sess), ("the vector's name", attr_p("name", spec)), ("the key", any_p(in_add, in_sub))):
                    r.need(whole(k, p), "seed-binds-all-of-it", c, "the seed of a mask generator depends only on a part of %s" % what, st)
                if d in seeds:
                    seeds[d].add(canon(k, add, sub))
            elif c.short in ("EVP_DigestUpdate", "SHA256_Update") and len(c.args) == 3:
                r.need(covered(c.args[1], c.args[2]), "seed-binds-all-of-it", c, "only a part of what is to be hashed goes into the seed of a mask generator", st)
            elif re.match(r"(Add|Subtract)Mod", c.short) and len(c.args) == 3:
                d = side(c.args[1])
                want = "add" if c.short.startswith("Add") else "sub"
                if d is None:
                    # a plain helper call, or a rejected sample
                    r.need(True if any(tm.is_const(x) and tm.cval(x) == 0 for x in [c.args[1]] + [y for y in c.args[1].args if isinstance(y, T)]) else None, "mask-sign", c, "", st)
                    return
                r.need(d == want, "mask-sign", c, "%s applies a mask grown from the keys to %s" % (c.short, {"add": "add", "sub": "subtract"}.get(d, "add and to subtract")), st)
                r.need(has_sub(c.args[2], attr_p("modulus", spec)), "mask-modulus", c,
                       "a mask is applied under a modulus other than the vector's own", st)

        ctx.run(R(scope=r"^fcp/secagg/shared/(map_of_masks|math|input_vec|secagg_vector\.h)", call=call, max_depth=8), [f])

        # the same samples are drawn on both sides, each reduced, for every element
        samples = {}

        def c1(r, st, c):
            if not re.match(r"(Add|Subtract)Mod", c.short) or c.short.endswith("Impl") or len(c.args) != 3:
                return
            v, m, z = c.args
            if v.op == "idx" and v.args[1].op == "hav":
                i = v.args[1]
                s = [x for x in tm.START.get(i, ()) if tm.is_int(x)]
                r.need(None if len(s) != 1 else tm.cval(s[0]) == 0, "every-element-masked", c, "the first elements of a vector get no mask", st)
                for k, p in st.facts.items():
                    if k.op == "lt" and p:
                        q, l = tm._lin(tm.add(k.args[1], k.args[0], -1))
                        if l.get(i) == -1 and len(l) == 2:
                            r.need(q >= 0, "every-element-masked", c, "the last elements of a vector get no mask", st)
            elif v.op == "elem":
                r.need(True, "every-element-masked", c, "", st)
            drawn = [t for t in tm.subterms(m) if t.op == "call" and t.args[1] is not None and flows_from(t.args[1], call_p("MakePrng"))]
            pow2 = fact(st, lambda a: a.op == "eq" and any(t.op == "arith" and t.args[0] == "<<" for x in a.args for t in tm.subterms(x)) and any(attr_p("modulus", spec)(x) for x in a.args))
            if not drawn or not pow2:
                return
            if pow2[1] is False:
                r.need(any(t.op == "arith" and t.args[0] == "%" and t.args[2] is z for t in tm.subterms(m)) or at_least(st, is_(z), is_(m), 1), "mask-below-modulus", c,
                       "a sample that may be at or above the modulus is applied without being reduced", st)
            about = sorted(canon(k, add, sub) + str(p) for k, p in st.facts.items() if any(d in set(tm.subterms(k)) for d in drawn))
            d = side(m)
            if d in ("add", "sub") and not r.eng.muted:
                samples.setdefault((pow2[1], d), set()).add((canon(m, add, sub), tuple(about)))

        def it(r, st, node, fr):
            if node[0] in ("for", "rfor", "while") and any(n[0] == "call" and sn(n[1]) in FILE for n in walk(node)):
                n = st.ts.pop("filed", 0)
                r.need(n == 1, "mask-for-every-vector", (fr.func.rel(), node[1]), "a vector of the session gets %s" % ("no mask" if not n else "more than one mask"), st)

        def c0(r, st, c):
            c1(r, st, c)
            if c.short in FILE and len(c.args) >= 2 and has_sub(c.args[0], attr_p("name", spec)):
                st.ts["filed"] = st.ts.get("filed", 0) + 1
        FILE = ("emplace", "try_emplace", "insert", "insert_or_assign")
        ctx.run(R(scope=r"^fcp/secagg/shared/(map_of_masks|math|input_vec|secagg_vector\.h)", stops=[r"::NextMask$"], call=c0, iter=it, max_depth=8), [f])
        for p2 in (True, False):
            a, s = samples.get((p2, "add")), samples.get((p2, "sub"))
            if a and s:
                ctx.check("samples-agree", f.rel(), f.line, a == s, "%s draws the masks to add and the masks to subtract differently, so a pair's masks do not cancel" % f.short)
        if seeds["add"] and seeds["sub"]:
            ctx.check("seeds-agree", f.rel(), f.line, seeds["add"] == seeds["sub"],
                      "%s grows the masks to add and the masks to subtract from differently built seeds" % f.short)
    ctx.need("seed-binds-key", 1)
    ctx.need("mask-sign", 1)

    # which masks each vector receives: one result per specification, under its own name and modulus
    def c2(r, st, c):
        if c.short in ("emplace", "try_emplace", "insert", "insert_or_assign") and len(c.args) >= 2 and has_sub(c.args[0], attr_p("name")):
            nm = next(t for t in tm.subterms(c.args[0]) if attr_p("name")(t))
            o = nm.args[1]
            m = c.args[1].args[1][1] if c.args[1].op in ("ctor", "new") and len(c.args[1].args[1]) >= 2 else None
            r.need(any(attr_p("modulus", is_(o))(t) for t in (tm.closure(c.args[1]) if m is None else [m])) if o is not None else None, "mask-filed-under-name", c,
                   "the mask filed under a vector's name is not built with that vector's modulus", st)
    ctx.run(R(scope=r"^fcp/secagg/shared/(map_of_masks|math)", call=c2, max_depth=4), fs)
    ctx.need("mask-filed-under-name", 1)

    # the generator: a start fixed by the seed alone, and no output handed out twice
    gen = [f for f in in_files(ctx, r"^fcp/secagg/shared/(map_of_masks|aes_ctr_prng)\.cc") if f.cls and f.body is not None]
    if not gen:
        raise AnalysisError("anchor vanished: the mask generator's methods")

    def g1(r, st, c):
        if c.short in ("RandBuffer", "EVP_EncryptUpdate", "EVP_EncryptUpdate_ex"):
            st.ts["generated"] = 1
        if re.match(r"EVP_(Encrypt|Cipher)Init(_ex)?$", c.short) and len(c.args) >= 5:
            iv = c.args[4]
            r.need(iv.op != "uninit" and not flows_from(iv, call_p("RAND_bytes")), "generator-fixed-by-seed", c, "the mask generator's starting point is not determined by its seed", st)

    def g2(r, st, place, v, line, fr):
        if place[0] == "f" and place[1] is THIS and isinstance(v, T) and (v.op == "call" and sn(v.args[0]) == "data" and v.args[1] is not None or
                                                                           tm.is_int(v) and tm.cval(v) == 0 and fr.func.kind != "ctor" and re.search(r"pos|next|index|offset", sn(place[2]))):
            st.ts["rewound"] = line

    def g3(r, st, v, line, fr):
        if "rewound" in st.ts:
            r.need("generated" in st.ts, "output-used-once", (fr.func.rel(), st.ts["rewound"]), "the buffer of generated bytes is read again from the start without being refilled", st)
    ctx.run(R(scope=r"^fcp/secagg/shared/(map_of_masks|aes_ctr_prng)\.cc", call=g1, write=g2, ret=g3, max_depth=3), gen)
    ctx.need("generator-fixed-by-seed", 1)

    # the helpers: congruent to the sum or difference, and below the modulus
    for f in [x for x in in_files(ctx, r"^fcp/secagg/shared/math\.h") if re.match(r"(Add|Subtract)Mod", x.short) and len(x.params) == 3 and x.body is not None]:
        a, b, z = (p[1] for p in f.params)
        sg = 1 if f.short.startswith("Add") else -1

        def rr(r, st, v, line, fr):
            if v.op == "arith" and v.args[0] in ("&", "|", "^"):
                r.need(False, "modular-helper", (f.rel(), line), "%s masks bits instead of reducing by the modulus" % f.short, st)
                return
            red = v.op == "arith" and v.args[0] == "%" and v.args[2].op == "param" and v.args[2].args[0] == z
            c, l = tm._lin(v.args[1] if red else v)
            if not all(t.op == "param" for t in l):
                r.need(None, "modular-helper", (f.rel(), line), "", st)
                return
            q = {t.args[0]: n for t, n in l.items()}
            ok = c == 0 and q.get(a) == 1 and q.get(b) == sg
            r.need(ok, "modular-helper", (f.rel(), line), "%s returns something that is not the %s modulo the modulus" % (f.short, "sum" if sg > 0 else "difference"), st)
            if not ok:
                return
            k = q.get(z, 0)
            A, B, Z = (lambda n: lambda t: t.op == "param" and t.args[0] == n)(a), (lambda n: lambda t: t.op == "param" and t.args[0] == n)(b), (lambda n: lambda t: t.op == "param" and t.args[0] == n)(z)
            if red:
                r.need(sg > 0 or k >= 1, "modular-helper", (f.rel(), line), "%s underflows when the second value is the larger one" % f.short, st)
            elif sg > 0:
                below = None
                for at, p in st.facts.items():
                    if at.op == "lt":
                        c2, m2 = tm._lin(tm.add(at.args[1], at.args[0], -1))
                        m2 = {t.args[0]: n for t, n in m2.items() if t.op == "param"}
                        if c2 == 0 and m2 == {z: 1, a: -1, b: -1}:
                            below = p
                        elif c2 == 0 and m2 == {z: -1, a: 1, b: 1}:
                            # modulus < sum
                            below = False if p else "at most"
                r.need(k == 0 and below is True or k == -1 and below is False, "modular-helper", (f.rel(), line), "%s returns a value that need not be below the modulus" % f.short, st)
            else:
                r.need(k == 0 and at_least(st, A, B) or k == 1 and at_least(st, B, A, 1), "modular-helper", (f.rel(), line), "%s returns a value that need not be below the modulus" % f.short, st)
        ctx.run(R(scope=r"^fcp/secagg/shared/math\.h", ret=rr, max_depth=1), [f])

    # modular helpers used by expansion go to their own arithmetic
    ad = [f for f in in_files(ctx, r"^fcp/secagg/shared/map_of_masks\.cc") if re.match(r"(Add|Subtract)ModImpl$", f.short)]

    def ret(r, st, v, line, fr):
        pass

    def c3(r, st, c):
        if re.match(r"(Add|Subtract)Mod", c.short) and not c.short.endswith("Impl") and len(c.args) == 3:
            want = fn_short[0][:3]
            r.need(c.short.startswith(want), "adapter-direction", c, "%s forwards to %s" % (fn_short[0], c.short), st)
            r.need([a.op == "param" and a.args[0] for a in c.args] == pnames[0], "adapter-arguments", c, "%s forwards its arguments in another order" % fn_short[0], st)
    fn_short, pnames = [""], [[]]
    for f in ad:
        fn_short[0] = f.short
        pnames[0] = [p[1] for p in f.params]
        ctx.run(R(scope=r"^fcp/secagg/shared/map_of_masks\.cc", call=c3, max_depth=1), [f])


def covered(data, n):
    """Whether n is the length of all of data; None when it cannot be told."""
    d = data
    while d.op == "call" and sn(d.args[0]) in ("c_str", "data") and d.args[1] is not None:
        d = d.args[1]
    if any(t.op == "call" and sn(t.args[0]) in ("strlen", "strnlen", "min") for t in tm.subterms(n)):
        return False
    if tm.is_const(n):
        if any(t.op == "call" and sn(t.args[0]) == "IntToByteString" for t in [d]):
            return tm.cval(n) >= 4
        if d.op in ("elem", "idx", "param", "call"):
            return False if tm.cval(n) < 32 and d is not data else None
        return None
    c, l = tm._lin(n)
    if len(l) == 1 and size_p(is_(d))(next(iter(l))):
        return c >= 0 and list(l.values()) == [1]
    return None


def canon(k, add, sub):
    """Seed term with the key list abstracted away."""
    memo = {}

    def go(t):
        if not isinstance(t, T):
            return t if not isinstance(t, tuple) else tuple(go(x) for x in t)
        if t in memo:
            return memo[t]
        if add(t) or sub(t):
            v = "KEYS"
        elif t.op == "elem":
            v = ("elem", go(t.args[0]))
        elif t.op in ("uninit", "obj"):
            v = t.op
        elif t.op == "call" and re.search(r"Init(_ex)?$", t.args[0]):
            # a fresh start, whatever the context was used for before
            v = ("call", t.args[0], go(t.args[2][1:]))
        elif t.op == "call":
            v = ("call", t.args[0], go(t.args[1]), go(t.args[2]))
        elif t.op in ("ctor", "new"):
            v = (t.op, t.args[0], go(t.args[1]))
        elif t.op == "hav":
            v = ("hav",)
        else:
            v = (t.op,) + tuple(go(x) for x in t.args)
        memo[t] = v
        return v
    return repr(go(k))


# ---- S15: secret sharing ----------------------------------------------------------
SS = NS + "ShamirSecretSharing"
FIELD = 2147483659


def s15(ctx):
    share = [f for f in entries(ctx, SS + "::Share") if "string" in f.params[2][2]]
    rec = entries(ctx, SS + "::Reconstruct")
    offs = {}
    for f in share:
        thr, num, sec = (P_(f, i) for i in range(3))

        def call(r, st, c):
            if c.short == "RAND_bytes":
                st.ts["fresh"] = 1
            if c.short in ("push_back", "emplace_back") and c.args:
                v = c.args[-1]
                if flows_from(v, call_p("RAND_bytes")):
                    r.need(bool(st.ts.pop("fresh", 0)), "each-coefficient-fresh", c, "one random element is used for more than one coefficient", st)
                    r.need(at_least(st, FIELD - 1, is_(v)) or (None if opaque(st, lambda t: t is v) or v.op in ("hav", "call", "phi") else False),
                           "coefficient-in-field", c, "a random coefficient is used without being below the field's prime", st)
                    n = count_bound(st, thr)
                    r.need(None if n is None else n == -1, "one-random-coefficient-per-missing-share", c,
                           "threshold%+d random coefficients are drawn, so %s shares determine the secret" % (n if n is not None else 0, "fewer" if (n or 0) < -1 else "more"), st)
                elif flows_from(v, sec) and not flows_from(v, call_p("RAND_bytes")):
                    r.need(not st.ts.get("rnd"), "secret-is-constant-term", c, "", st)
            if c.short == "EvaluatePolynomial" and len(c.args) == 2:
                l = lin_of(c.args[1])
                r.need(not any(t.op == "arith" and t.args[0] in ("%", "/", "&", ">>") for t in tm.subterms(c.args[1])), "evaluation-points-distinct", c,
                       "two shares may be made at the same point", st)
                if l and l[1].op == "hav":
                    offs.setdefault("share", set()).add(l[0] + start_of(l[1]))
                    offs.setdefault("share_idx", set()).add(l[0])
                    r.need(l[0] + start_of(l[1]) >= 1, "evaluation-point-not-zero", c, "the first share is the polynomial at zero, which is the secret itself", st)

        def ret(r, st, v, line, fr):
            at = (f.rel(), line or f.line)
            r.need(at_least(st, thr, 2), "threshold-range", at, "Share succeeds with a threshold below two", st)
            r.need(at_least(st, num, thr), "threshold-range", at, "Share succeeds with a threshold above the number of shares", st)
            r.need(has_sub(v, num) or (None if v.op in ("hav", "call", "phi") else False), "one-share-per-party", at, "Share does not return the requested number of shares", st)
        ctx.run(R(scope=r"^fcp/secagg/shared/(shamir|math)", call=call, ret=ret, max_depth=4), [f])

        # every part of the secret is hidden by a polynomial of its own
        loop = lambda n: n[0] in ("for", "rfor", "while", "do")
        evals = lambda n: any(x[0] == "call" and sn(x[1]) == "EvaluatePolynomial" for x in walk(n))
        for n in walk(f.body):
            if loop(n) and any(m is not n and loop(m) and evals(m) for m in walk(n)):
                ctx.check("polynomial-per-part", f.rel(), n[1], reaches(ctx, n, "RAND_bytes") or any(x[0] == "icall" or x[0] == "call" and sn(x[1]) == "operator()" for x in walk(n)), "the same random coefficients hide more than one part of the secret")

    # evaluation covers every coefficient
    for f in [x for x in methods(ctx, SS) if x.short == "EvaluatePolynomial"]:
        poly = P_(f, 0)

        def ev(r, st, base, idx, line, fr):
            if isinstance(base, T) and poly(base) and isinstance(idx, T) and idx.op == "hav" and idx in tm.START:
                for s in tm.START[idx]:
                    c, l = tm._lin(s)
                    ok = True if not l and c in (0, 1) else l and len(l) == 1 and size_p(poly)(next(iter(l))) and list(l.values()) == [1] and c in (-1, 0)
                    r.need(ok or (None if s.op == "hav" else False), "every-coefficient-evaluated", (f.rel(), line), "a share leaves out some coefficients of the polynomial", st)
        ctx.run(R(scope=r"^fcp/secagg/shared/(shamir|math)", index=ev, max_depth=1), [f])

    # products are formed in a type that holds them before they are reduced
    for f in in_files(ctx, r"^fcp/secagg/shared/(shamir_secret_sharing\.cc|math\.h)"):
        if f.body is None:
            continue
        ty = {n[2]: n[4] for n in walk(f.body) if n[0] == "decl" and len(n) > 4}
        narrow = lambda t: re.sub(r"const ", "", str(t)).strip() in ("unsigned int", "int", "uint32_t", "int32_t")
        for n in walk(f.body):
            if n[0] == "op" and n[1] == "%" and len(n) > 5:
                x = n[2]
                while x[0] in ("cast", "paren"):
                    x = x[2] if x[0] == "cast" else x[1]
                if x[0] == "op" and x[1] == "*" and len(x) > 5:
                    ctx.check("product-not-truncated", f.rel(), x[4], not narrow(x[5]), "%s multiplies field elements in 32 bits before reducing them" % f.short)
            if n[0] == "asg" and n[1] == "*=" and n[2][0] == "var" and any(m[0] == "asg" and m[1] == "%=" and m[2] == n[2] for m in walk(f.body)):
                ctx.check("product-not-truncated", f.rel(), n[4], not narrow(ty.get(n[2][2], "")), "%s multiplies field elements in 32 bits before reducing them" % f.short)

    for f in rec:
        thr, shares = P_(f, 0), P_(f, 1)
        el = lambda t: t.op == "idx" and shares(t.args[0])

        def call(r, st, c):
            if c.short in ("push_back", "emplace_back") and c.args:
                l = lin_of(c.args[-1])
                if l and c.recv is not None and size_p(is_(c.recv))(l[1]):
                    r.need(False, "same-evaluation-points", c, "a share is given the point of its position among those present, not the point it was made for", st)
                if l and l[1].op == "hav" and not any(shares(x) for x in tm.subterms(c.args[-1])) and at_least(st, size_p(shares), l[1], 1):
                    offs.setdefault("rec", set()).add(l[0])
                    data = lambda t: has_sub(t, lambda x: el(x) and x.args[1] is l[1])
                    r.need(differs(st, size_p(data), 0) or at_least(st, size_p(data), 1) or (None if opaque(st, data) else False), "absent-share-not-counted", c,
                           "a share that was never received counts towards the threshold", st)
                    szs = [k for k, v in st.facts.items() if has_sub(k, size_p(data))]
                    # length is compared with the others' (or it is the first one and its length is recorded)
                    first = any(k.op == "eq" and v and any(tm.is_int(x) for x in k.args) and not has_sub(k, size_p(data)) for k, v in st.facts.items())
                    r.need(any(k.op == "eq" and v and not tm.is_const(k.args[0]) for k, v in st.facts.items() if has_sub(k, size_p(data)))
                           or first and any(k.op == "lt" for k in szs) or (None if opaque(st, data) else False), "share-lengths-agree", c,
                           "a share is used without its length being compared with the other shares'", st)
            if c.short == "MultiplyMod" and len(c.args) == 3:
                r.need(tm.is_const(c.args[2]) and tm.cval(c.args[2]) == FIELD, "field-prime", c, "field arithmetic under a modulus other than the field's prime", st)
                js = [t.args[1] for t in [c.args[1]] if t.op == "idx"]
                for k in [st.ts["share"]] if js and "share" in st.ts else ():
                    l = lin_of(k)
                    x = l[1] if l else None
                    r.need(None if x is None or x.op not in ("idx", "hav") else x.op == "idx" and x.args[1] is js[0] if x.op == "idx" else False if x is js[0] else None,
                           "share-index-matches-point", c, "a share is multiplied by the coefficient of another share's point", st)

        def index(r, st, base, idx, line, fr):
            if isinstance(base, T) and shares(base) and isinstance(idx, T):
                st.ts["share"] = idx
                l = lin_of(idx)
                if l and l[1].op == "idx":
                    offs.setdefault("rec_idx", set()).add(-l[0])

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            at = (f.rel(), line or f.line)
            got = lambda t: not size_p(shares)(t) and not (t.op == "param")
            r.need(at_least(st, got, thr), "enough-shares-to-reconstruct", at, "Reconstruct succeeds without having checked that a threshold of shares was present", st)
        def it(r, st, node, fr):
            if any(n[0] == "call" and sn(n[1]) == "MultiplyMod" for n in walk(node)):
                st.ts.pop("share", None)
        ctx.run(R(scope=r"^fcp/secagg/shared/(shamir|math)", call=call, ret=ret, index=index, iter=it, max_depth=4), [f])
    ctx.need("enough-shares-to-reconstruct", 1)
    ctx.need("threshold-range", 1)
    f = rec[0]
    if offs.get("share_idx") and offs.get("rec"):
        ctx.check("same-evaluation-points", f.rel(), f.line, offs["share_idx"] == offs["rec"],
                  "shares are made at points i%s but read back as points i%s" % (sorted(offs["share_idx"]), sorted(offs["rec"])))
    if offs.get("rec") and offs.get("rec_idx"):
        ctx.check("share-index-matches-point", f.rel(), f.line, offs["rec"] == offs["rec_idx"],
                  "a reconstruction point is mapped back to the wrong share")

    # memoised interpolation coefficients belong to the points asked for
    for f in [x for x in methods(ctx, SS) if x.short == "LagrangeCoefficients"]:
        xs = P_(f, 0)

        def ret(r, st, v, line, fr):
            if v.op == "fld" and v.args[1] is THIS:
                # answered from the cache: compared with the input it was made for
                r.need(bool(fact(st, lambda a: a.op == "eq" and any(xs(x) for x in a.args) and any(base_field(x) for x in a.args), True)) or
                       (None if opaque(st, xs) else False), "cached-coefficients-match", (f.rel(), line), "cached coefficients returned for other points", st)
            elif flows_from(v, lambda t: t.op == "fld" and t.args[1] is THIS):
                keep = [p for p, x in st.mem.items() if p[0] == "f" and p[1] is THIS and isinstance(x, T) and (xs(x) or x.op == "call" and has_sub(x, xs))]
                r.need(bool(keep), "cached-coefficients-match", (f.rel(), line), "new coefficients are cached without recording the points they belong to", st)
        def call(r, st, c):
            if c.short in ("clear", "assign", "resize") and c.recv is not None and base_field(c.recv):
                st.ts[("cleared", base_field(c.recv))] = 1
            if c.short in ("push_back", "emplace_back") and c.recv is not None:
                b = base_field(c.recv) or next((p[2] for p in [c.recv.args[1]] if c.recv.op == "hav" and isinstance(p, tuple) and p[0] == "f"), None)
                if b and len(c.args) == 1:
                    b = sn(str(b))
                    r.need(any(k[0] == "cleared" and sn(str(k[1])) == b for k in st.ts if isinstance(k, tuple)), "cached-coefficients-match", c,
                           "new coefficients are appended to those computed for other points", st)
            if c.short == "MultiplyMod" and len(c.args) == 3:
                v = c.args[1]
                if v.op == "idx" and xs(v.args[0]):
                    st.ts[("f", "x", v.args[1])] = 1
                elif tm.is_int(v) and tm.cval(v) == FIELD - 1:
                    st.ts[("f", "neg")] = st.ts.get(("f", "neg"), 0) ^ 1
                elif v.op == "call" and sn(v.args[0]) == "ModInverse" and v.args[2]:
                    l = tm._lin(v.args[2][-1])
                    pos = [t for t, q in l[1].items() if q == 1]
                    neg = [t for t, q in l[1].items() if q == -1]
                    if l[0] == 0 and len(pos) == len(neg) == 1 and len(l[1]) == 2 and all(t.op == "idx" and xs(t.args[0]) for t in pos + neg):
                        st.ts[("f", "d", pos[0].args[1], neg[0].args[1])] = 1
                    else:
                        st.ts[("f", "odd")] = 1
                else:
                    st.ts[("f", "odd")] = 1

        def it(r, st, node, fr):
            fs = [k for k in st.ts if isinstance(k, tuple) and k[0] == "f"]
            if node[0] not in ("for", "rfor", "while") or not fs:
                return
            x = [k[2] for k in fs if k[1] == "x"]
            d = [k[2:] for k in fs if k[1] == "d"]
            neg = bool(st.ts.get(("f", "neg")))
            odd = ("f", "odd") in fs
            for k in fs:
                del st.ts[k]
            at = (fr.func.rel(), node[1])
            if odd:
                r.need(None, "interpolation-factors", at, "", st)
                return
            ok = len(x) == 1 and len(d) == 1 and x[0] in d[0] and d[0][0] is not d[0][1] and neg == (d[0][1] is x[0])
            r.need(ok, "interpolation-factors", at, "an interpolation coefficient is not the product of x_j / (x_j - x_i) over the other points", st)
        def wr(r, st, place, v, line, fr):
            if place[0] == "f" and place[1] is THIS:
                st.ts[("cleared", place[2])] = 1
        ctx.run(R(scope=r"^fcp/secagg/shared/(shamir|math)", stops=[r"::ModInverse$", r"::MultiplyMod$"], ret=ret, call=call, write=wr, iter=it, max_depth=2), [f])

    # inverses are remembered at the place they are looked up
    for f in [x for x in methods(ctx, SS) if x.short == "ModInverse"]:
        n = P_(f, 0)

        def call(r, st, c):
            if c.short in ("push_back", "emplace_back") and c.recv is not None and len(c.args) == 1:
                v = c.args[0]
                if v.op == "call" and sn(v.args[0]) == "ModPow" and len(v.args[2]) == 2:
                    l = lin_of(v.args[2][0])
                    if l and size_p(is_(c.recv))(l[1]) and not r.eng.muted:
                        st.ts["off"] = l[0]
                    r.need(tm.is_int(v.args[2][1]) and tm.cval(v.args[2][1]) == FIELD - 2, "inverse-is-inverse", c, "an inverse is computed with an exponent other than the field's order less two", st)

        def ret(r, st, v, line, fr):
            if v.op == "idx":
                l = lin_of(v.args[1])
                offs.setdefault("inv", set()).add(l[0] if l and n(l[1]) else None)

        def it(r, st, node, fr):
            if "off" in st.ts:
                offs.setdefault("invpush", set()).add(st.ts["off"])
        ctx.run(R(scope=r"^fcp/secagg/shared/(shamir|math)", stops=[r"ModPow$"], call=call, ret=ret, iter=it, max_depth=2), [f])
        if offs.get("inv") and offs.get("invpush") and None not in offs["inv"]:
            ctx.check("inverse-is-inverse", f.rel(), f.line, {-x for x in offs["inv"]} == offs["invpush"], "an inverse is looked up at another place than it is kept")

    # the callers pass their own threshold and shares through
    for f in entries(ctx, NS + "AesKey::CreateFromShares"):
        sh, thr = P_(f, 0), P_(f, 1)

        def call(r, st, c):
            if isname(c, SS + "::Reconstruct") and len(c.args) >= 2:
                r.need(thr(c.args[0]), "key-threshold-passed", c, "a key is rebuilt under another threshold than the one given", st)
                r.need(flows_from(c.args[1], sh), "key-threshold-passed", c, "a key is rebuilt from other shares than those given", st)
        ctx.run(R(scope=r"^fcp/secagg/shared/aes_key", call=call, max_depth=2), [f])
    ctx.need("key-threshold-passed", 1)


def reaches(ctx, node, name, depth=4):
    """Some call under node leads to a call of name."""
    for n in walk(node):
        if n[0] == "call" and len(n) > 4:
            if sn(n[1]) == name:
                return True
            if depth:
                for g in ctx.db.find("(^|::)" + re.escape(n[1]) + "$"):
                    if g.body is not None and g.rel().startswith("fcp/") and reaches(ctx, g.body, name, depth - 1):
                        return True
    return False


def start_of(h):
    ss = [v for v in tm.START.get(h, ()) if tm.is_int(v)]
    return tm.cval(ss[0]) if len(ss) == 1 else 0


def count_bound(st, limit):
    """Iterations of the innermost counting loop, as an offset from limit."""
    best = None
    for k, v in st.facts.items():
        if k.op != "lt":
            continue
        a, b = k.args if v else (k.args[1], k.args[0])
        c, m = tm._lin(tm.add(b, a, -1))
        pos = [t for t, q in m.items() if q == 1]
        neg = [t for t, q in m.items() if q == -1]
        if len(m) == 2 and len(pos) == 1 and len(neg) == 1 and limit(pos[0]) and neg[0].op == "hav" and neg[0] in tm.START:
            if not all(lin_of(x) and lin_of(x)[0] == 1 for x in tm.STEP.get(neg[0], ()) if x is not neg[0]):
                continue
            s = [x for x in tm.START[neg[0]]]
            if len(s) != 1 or not tm.is_int(s[0]):
                continue
            # a < b (v) or a <= b (not v)
            best = c - tm.cval(s[0]) + (0 if v else 1)
    return best


# ---- S16: masked vectors -----------------------------------------------------------
def s16(ctx):
    uv = NS + "SecAggUnpackedVector"
    adds = [f for f in entries(ctx, uv + "::Add") if f.body is not None]
    av = [f for f in ctx.db.funcs.values() if f.name == NS + "AddVectors" and f.body is not None]
    for f in adds + av:
        other = P_(f, len(f.params) - 1)
        mine = is_(THIS) if f in adds else P_(f, 0)

        def ret(r, st, v, line, fr):
            at = (f.rel(), f.line)
            cnt = lambda p: any_p(attr_p("size", p), attr_p("num_elements", p))
            md = lambda p: attr_p("modulus", p)
            op = None if opaque(st, other) else False
            r.need(equal(st, cnt(mine), cnt(other)) or op, "lengths-equal-before-adding", at, "%s adds vectors without checking that they have the same length" % f.short, st)
            r.need(equal(st, md(mine), md(other)) or op, "moduli-equal-before-adding", at, "%s adds vectors without checking that they have the same modulus" % f.short, st)
        ctx.run(R(scope=r"^fcp/secagg/shared/(map_of_masks|secagg_vector)", ret=ret, max_depth=3), [f])
    ctx.need("lengths-equal-before-adding", 2)
    ctx.need("moduli-equal-before-adding", 2)

    # maps: same number of entries, each entry added to its namesake
    ms = [f for f in entries(ctx, NS + "SecAggUnpackedVectorMap::Add") if f.body is not None]
    for f in ms:
        other = P_(f, 0)

        def call(r, st, c):
            if c.name == uv + "::Add" and c.args:
                r.need(equal(st, size_p(lambda t: t is THIS), size_p(other)) or (None if opaque(st, other) else False), "maps-same-size", c,
                       "maps are added without checking that they hold the same vectors", st)
                v = c.args[0]
                if v.op != "idx" and has_sub(v, lambda t: t.op == "call" and sn(t.args[0]) in ("begin", "cbegin", "rbegin") and t.args[1] is not None and other(t.args[1])) and has_sub(c.recv, lambda t: t.op == "elem"):
                    r.need(False, "vector-added-to-namesake", c, "a vector is added to whatever the other map holds first", st)
                    return
                if v.op != "idx" or not other(v.args[0]) or c.recv is None:
                    r.need(False if flows_from(v, elem_of(other)) and not has_sub(v, is_(THIS)) and has_sub(c.recv, lambda t: t.op == "elem" and t.args[0] is THIS) and v.op == "elem"
                           else None, "vector-added-to-namesake", c, "a vector is added to one of another name", st)
                    return
                els = lambda t: {x for x in tm.subterms(t) if x.op == "elem"}
                r.need(bool(els(v.args[1]) & els(c.recv)), "vector-added-to-namesake", c, "a vector is added to one of another name", st)
                r.need(bool(fact(st, lambda a: a.op == "haskey" and a.args[0] is v.args[0] and a.args[1] is v.args[1], True)) or c.node is not None and "at" in [sn(n[1]) for n in walk(c.node) if n[0] == "call"]
                       or (None if opaque(st, other) else False), "missing-vector-detected", c, "a vector absent from the other map is used", st)
        ctx.run(R(scope=r"^fcp/secagg/shared/secagg_vector", stops=[r"SecAggUnpackedVector::Add$"], call=call, max_depth=3), [f])
    ctx.need("maps-same-size", 1)

    # the same for the functions that build the sum of two maps anew
    for f in [x for x in ctx.db.funcs.values() if x.short == "AddMaps" and x.name.startswith(NS) and x.body is not None and len(x.params) == 2]:
        a, b = P_(f, 0), P_(f, 1)
        ea = lambda t: t.op == "elem" and a(t.args[0])

        def two(r, st, c):
            if not (re.match(r"AddMod|AddVectors$", c.short) and len(c.args) >= 2):
                return
            for x, y in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if flows_from(x, b) and not flows_from(y, b):
                    k = [t.args[1] for t in tm.subterms(x) if t.op == "idx" and b(t.args[0])]
                    fst = any(t.op == "call" and sn(t.args[0]) in ("begin", "cbegin", "rbegin") for t in tm.closure(x))
                    r.need(False if fst and not k else None if not k else all(has_sub(q, lambda t: t.op == "elem" and has_sub(y, is_(t))) for q in k), "vector-added-to-namesake", c,
                           "a vector is added to one of another name", st)
        ctx.run(R(scope=r"^fcp/secagg/shared/(secagg_vector|map_of_masks)", stops=[r"::AddVectors$", r"::AddMod\w*$"], call=two, max_depth=3), [f])

    # construction: valid modulus, every element below it, packed length right
    ctors = [f for f in methods(ctx, NS + "SecAggVector") if f.kind == "ctor" and len(f.params) >= 3]
    for f in ctors:
        md = next((p[1] for p in f.params if "long" in p[2] and p[1].startswith("mod")), f.params[1][1])
        mod = lambda t, md=md: t.op == "param" and t.args[0] == md or t.op == "fld" and sn(t.args[0]) == "modulus_"
        span = P_(f, 0)

        def ret(r, st, v, line, fr):
            at = (f.rel(), f.line)
            op = None if opaque(st, mod) else False
            r.need(at_least(st, mod, 2) or op, "modulus-valid", at, "a vector can be built with a modulus below two", st)
            r.need(at_least(st, 1 << 62, mod) or any(at_least(st, lambda t: t.op in ("gvar", "enum") or tm.is_const(t), mod) for _ in [0]) or op, "modulus-valid", at,
                   "a vector can be built with a modulus above the supported maximum", st)
            if "Span" in f.params[0][2]:
                r.need(at_least(st, mod, elem_of(span), 1, univ=True) or (None if opaque(st, span) else False), "elements-below-modulus", at,
                       "a vector can be built from elements that are not below its modulus", st)
            else:
                pk = lambda t: size_p(lambda x: True)(t) and flows_from(t, span)
                r.need(bool(fact(st, lambda a: a.op == "eq" and any(has_sub(x, pk) for x in a.args), True)) or (None if opaque(st, span) else False), "packed-length-checked", at,
                       "packed bytes are accepted without comparing their length with what the elements need", st)
        ctx.run(R(scope=r"^fcp/secagg/shared/(secagg_vector|math)", ret=ret, stops=[r"PackUint64"], max_depth=3), [f])
    ctx.need("modulus-valid", 2)
    ctx.need("elements-below-modulus", 1)
    ctx.need("packed-length-checked", 1)

    # a vector whose contents were taken reads as empty: taking resets it, reading checks
    acc = [f for f in methods(ctx, NS + "SecAggVector") if f.short in ("GetAsUint64Vector", "GetAsPackedBytes", "TakePackedBytes")]
    for f in acc:
        def ret(r, st, v, line, fr):
            at = (f.rel(), f.line)
            r.need(at_least(st, fld_p("modulus_"), 1) or differs(st, fld_p("modulus_"), 0) or (None if opaque(st, fld_p("modulus_")) else False), "no-read-after-take", at,
                   "%s hands out data of a vector whose contents may have been taken" % f.short, st)
            if f.short.startswith("Take"):
                m = [x for p, x in st.mem.items() if p[0] == "f" and p[1] is THIS and sn(p[2]) == "modulus_"]
                r.need(bool(m) and tm.is_const(m[0]) and tm.cval(m[0]) == 0, "take-leaves-empty", at, "%s leaves the vector looking as if it still had its contents" % f.short, st)
        ctx.run(R(scope=r"^fcp/secagg/shared/secagg_vector", ret=ret, stops=[r"Unpack"], max_depth=3), [f])
    ctx.need("no-read-after-take", 2)
    mv = [f for f in methods(ctx, NS + "SecAggVector") + methods(ctx, uv) if len(f.params) == 1 and f.params[0][2].endswith("&&")
          and ("SecAggVector &&" in f.params[0][2] or "SecAggUnpackedVector &&" in f.params[0][2])]
    for f in mv:
        src = P_(f, 0)

        def ret(r, st, v, line, fr):
            m = [x for p, x in st.mem.items() if p[0] == "f" and isinstance(p[1], T) and src(p[1]) and sn(p[2]) == "modulus_"]
            t = [x for p, x in st.mem.items() if p[0] == "f" and p[1] is THIS and sn(p[2]) == "modulus_"]
            at = (f.rel(), f.line)
            r.need(bool(m) and tm.is_const(m[0]) and tm.cval(m[0]) == 0, "move-leaves-empty", at, "moving from a vector leaves it looking as if it still had its contents", st)
            r.need(any(x.op == "fld" and src(x.args[1]) for x in t) if t else None, "move-keeps-modulus", at, "moving a vector does not carry its modulus over", st)
        ctx.run(R(scope=r"^fcp/secagg/shared/secagg_vector", ret=ret, max_depth=3), [f])
    ctx.need("move-leaves-empty", 1)

    # decoding: values come out below the modulus
    for f in [x for x in methods(ctx, NS + "SecAggVector::Decoder") if x.short == "ReadValue"]:
        m = fld_p("modulus_")

        def ret(r, st, v, line, fr):
            ok = None
            if v.op == "cond" or v.op == "phi":
                ok = None
            else:
                l = tm._lin(v)[1]
                neg = [t for t, q in l.items() if q == -1 and m(t)]
                mod = v.op == "mod" or v.op == "%"
                ok = at_least(st, m, is_(v), 1) or bool(neg) or (None if mod or v.op in ("hav", "call") else False)
            r.need(ok, "decoded-below-modulus", (f.rel(), line), "a decoded value is returned without being brought below the modulus", st)
        ctx.run(R(scope=r"^fcp/secagg/shared/secagg_vector", ret=ret, max_depth=2), [f])


# ---- S17: keys and share encryption --------------------------------------------------
# library calls whose result says whether they worked, and what success looks like
RESULTS = re.compile(r"^(RAND_bytes|EVP_AEAD_CTX_(init|seal|open)(_scatter|_gather)?|EVP_Digest(Init_ex|Update|Final_ex)|EC_POINT_oct2point|EC_KEY_set_(public|private)_key|"
                     r"EC_KEY_check_key|EVP_(Encrypt|Decrypt)(Init|Update|Final)(_ex)?|EVP_HPKE_\w+|ECDSA_\w+|BN_bn2bin_padded|HKDF\w*|EVP_PKEY_\w+|SHA256_\w+)$")


def result_known(st, t):
    """True: success established; False: failure or nothing known."""
    for k, v in st.facts.items():
        if k.op == "eq" and t in k.args:
            o = k.args[0] if k.args[1] is t else k.args[1]
            if not tm.is_const(o):
                return True if v else False
            z = tm.cval(o) == 0
            return (v and not z) or (not v and z)
        if k.op == "lt" and any(x is t for x in tm.subterms(k)):
            a, b = k.args
            if b is t and tm.is_const(a):
                return v and tm.cval(a) >= 0
            if a is t and tm.is_const(b):
                return not v and tm.cval(b) >= 1
            return True
        if k is t or k.op in ("has", "not") and k.args[0] is t:
            return v
    return None


def crypto_results(ctx, fs, scope, rid, exempt=()):
    """No success exit while the result of a call to the cryptographic library
    made on the way is unknown or says it failed."""
    def call(r, st, c):
        if RESULTS.match(c.short) and c.recv is None:
            st.ts[("cr", c.line, c.file, c.short)] = 1

    def it(r, st, node, fr):
        check(r, st, VOID, fr)

    def ret(r, st, v, line, fr):
        if status_of(st, v) is False or v is FALSE or v is NULL:
            return
        check(r, st, v, fr)

    def check(r, st, v, fr):
        seen = {}
        for t in all_calls(st):
            if RESULTS.match(sn(t.args[0])):
                seen.setdefault(sn(t.args[0]), []).append(t)
        for k in list(st.ts):
            if k[0] != "cr":
                continue
            del st.ts[k]
            _, l, file, short = k
            if (exempt(short, fr.func.short) if callable(exempt) else (short, fr.func.short) in exempt):
                continue
            ts = [t for t in seen.get(short, [])]
            good = [result_known(st, t) for t in ts]
            rv = v if v.op == "call" and sn(v.args[0]) == short or has_sub(v, call_p(short)) and v.op in ("eq", "not", "lt") else None
            r.need(True if good and all(g is True for g in good if g is not None) and True in good else None if rv is not None or any(opaque(st, is_(t)) for t in ts) else False,
                   rid, (file, l), "success is reported although the result of %s was not found to be success" % short, st)
    ctx.run(R(scope=scope, call=call, ret=ret, iter=it, max_depth=5), fs)


def all_calls(st):
    out = set()
    for k in st.facts:
        for t in tm.subterms(k):
            if t.op == "call":
                out.add(t)
    return out


def s17(ctx):
    enc = [f for f in methods(ctx, NS + "AesGcmEncryption") if f.short in ("Encrypt", "Decrypt")]
    if len(enc) < 2:
        raise AnalysisError("anchor vanished: share encryption")
    key = [f for f in methods(ctx, NS + "EcdhKeyAgreement") if f.short in ("CreateFromRandomKeys", "CreateFromPrivateKey", "CreateFromKeypair", "ComputeSharedSecret", "PublicKey", "PrivateKey")]
    dig = [f for f in in_files(ctx, r"^fcp/secagg/shared/(map_of_masks|compute_session_id)\.cc") if f.short in ("DigestKey", "ComputeSessionId")]
    crypto_results(ctx, enc + key + dig, r"^fcp/secagg/shared/", "library-result-honoured")
    ctx.need("library-result-honoured", 6)

    def call(r, st, c):
        if c.short == "EVP_AEAD_CTX_seal" and len(c.args) >= 6:
            iv = c.args[4]
            r.need(flows_from(iv, call_p("RAND_bytes")), "fresh-nonce", c, "a message is sealed with a nonce that was not freshly drawn", st)
        if c.short == "RAND_bytes" and len(c.args) == 2:
            r.need(not tm.is_const(c.args[1]) or tm.cval(c.args[1]) >= 12, "nonce-length", c, "fewer random bytes are drawn than the nonce has", st)
        if c.short == "EVP_AEAD_CTX_init" and len(c.args) >= 4:
            k = c.args[3]
            r.need(equal(st, is_(k), 32) or tm.is_const(k) and tm.cval(k) == 32, "key-size-checked", c, "the cipher is set up with a key whose length was not checked", st)
            tag = c.args[4] if len(c.args) > 4 else None
            r.need(None if tag is None or not tm.is_int(tag) else tm.cval(tag) in (0, 16), "full-tag", c, "the cipher is set up with a shortened authentication tag", st)
        if c.short == "EVP_AEAD_CTX_open" and len(c.args) >= 10:
            data = c.args[7]
            r.need(at_least(st, size_p(lambda x: flows_from(c.args[4], is_(x))), 28) or (None if opaque(st, lambda x: flows_from(c.args[4], is_(x))) else False), "ciphertext-length-checked", c, "a ciphertext shorter than nonce and tag is opened", st)
            off = tm.add(c.args[6], c.args[4], -1)
            r.need(tm.is_const(off) and c.args[5] is off or (None if not tm.is_const(off) else False), "nonce-then-ciphertext", c,
                   "the ciphertext is read from a position other than right after its nonce", st)
    ctx.run(R(scope=r"^fcp/secagg/shared/aes_gcm", call=call, max_depth=3), enc)
    ctx.need("fresh-nonce", 1)
    ctx.need("key-size-checked", 2)
    ctx.need("ciphertext-length-checked", 1)

    # keys taken from outside are validated before they are used
    for f in key:
        if f.short not in ("CreateFromKeypair", "CreateFromPrivateKey", "ComputeSharedSecret", "CreateFromRandomKeys"):
            continue

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            at = (f.rel(), line or f.line)
            for i, p in enumerate(f.params):
                sz = size_p(P_(f, i))
                r.need(any(equal(st, sz, n) for n in (32, 33, 65)) or (None if opaque(st, P_(f, i)) else False), "key-length-checked", at,
                       "%s accepts a key of any length" % f.short, st)
            if f.short in ("CreateFromKeypair", "CreateFromRandomKeys"):
                ks = [t for t in all_calls(st) if sn(t.args[0]) == "EC_KEY_check_key"]
                r.need(any(result_known(st, t) for t in ks) or (None if opaque(st, call_p("EC_KEY_new_by_curve_name")) else False), "keypair-validated", at,
                       "%s succeeds without checking that the key pair is consistent" % f.short, st)
            if f.short in ("ComputeSharedSecret", "CreateFromKeypair"):
                ks = [t for t in all_calls(st) if sn(t.args[0]) == "EC_POINT_oct2point"]
                r.need(any(result_known(st, t) for t in ks), "public-key-on-curve", at, "%s uses a public key that was not found to be a point of the curve" % f.short, st)
        ctx.run(R(scope=r"^fcp/secagg/shared/(ecdh|key)", ret=ret, max_depth=3), [f])
    ctx.need("key-length-checked", 3)
    ctx.need("keypair-validated", 2)
    ctx.need("public-key-on-curve", 2)

    # a session id covers both public keys of every client
    def dg(r, st, c):
        if c.short in ("EVP_DigestUpdate", "SHA256_Update") and len(c.args) >= 2:
            for w in ("noise_pk", "enc_pk"):
                if flows_from(c.args[1], call_p(w)):
                    st.ts[w] = 1
            if flows_from(c.args[1], lambda t: t.op in ("elem", "idx")) and not any(flows_from(c.args[1], call_p(w)) for w in ("noise_pk", "enc_pk")):
                st.ts["other"] = 1

            r.need(covered(c.args[1], c.args[2]), "session-id-covers-keys", c, "only a part of a public key goes into the session id", st)

    def it(r, st, node, fr):
        if node[0] in ("for", "rfor", "while"):
            r.need("noise_pk" in st.ts and "enc_pk" in st.ts, "session-id-covers-keys", (fr.func.rel(), node[1]), "the session id does not depend on both public keys of a client", st)
            for w in ("noise_pk", "enc_pk"):
                st.ts.pop(w, None)
    sid = [f for f in dig if f.short == "ComputeSessionId"]
    ctx.run(R(scope=r"^fcp/secagg/shared/(compute_session|math)", call=dg, iter=it, max_depth=3), sid)


# ---- S11: the accumulator ---------------------------------------------------------
ACC = NS + "Accumulator"


def s11(ctx):
    ms = methods(ctx, ACC)
    get = lambda s: [f for f in ms if f.short == s]
    SC = r"^fcp/secagg/server/secagg_scheduler"

    def val(st, name):
        for p, v in st.mem.items():
            if p[0] == "f" and sn(p[2]) == name:
                return v
        return None

    COUNTS = ("remaining_sequential_tasks_count_", "active_count_")

    def delta(st, name):
        return st.ts.get(("d", name), 0)

    def track(st, place, v):
        """Changes of the counters, read and written under one lock."""
        if place[0] == "f" and sn(place[2]) in COUNTS and isinstance(v, T):
            n = sn(place[2])
            c, m = tm._lin(v)
            old = st.ts.get(("d", n), 0)
            if len(m) == 1 and list(m.values()) == [1] and sn(str(next(iter(m)).args[0])) == n and old is not None:
                # the engine sees a counter written twice under one lock as one sum
                st.ts[("d", n)] = old + c - st.ts.get(("in", n, next(iter(m)).uid), 0)
                st.ts[("in", n, next(iter(m)).uid)] = c
            else:
                st.ts[("d", n)] = None
        if place[0] == "f" and sn(place[2]) == "is_cancelled_" and v is TRUE:
            st.ts["cancelled"] = 1

    # every scheduled piece of work is counted once, before it is handed over
    def call(r, st, c):
        if isname(c, "fcp::Scheduler::Schedule", "fcp::Clock::WakeupWithDeadline") and not st.ts.get("in"):
            d = delta(st, "remaining_sequential_tasks_count_")
            r.need(None if d is None else d == 1, "work-counted-before-handover", c, "work is handed to a scheduler %s" %
                   ("without being counted as outstanding" if d == 0 else "after being counted %s times" % d), st)
            r.need(not st.locks, "handover-outside-lock", c, "work is handed to a scheduler while the accumulator's lock is held", st)

    def lam(r, st, fr, node):
        st.ts["in"] = 1

    def w1(r, st, place, v, line, fr):
        track(st, place, v)
    ctx.run(R(scope=SC, call=call, write=w1, lam=lam, max_depth=6), get("Schedule"))
    ctx.need("work-counted-before-handover", 2)
    inc = get("IncrementRemainingCount")

    # SetAsyncObserver: runs the callback now or stores it, exactly one of the two
    def c2(r, st, c):
        if isname(c, "fcp::Scheduler::Schedule"):
            st.ts["ran"] = st.ts.get("ran", 0) + 1
            r.need(equal(st, lambda t: sn(str(t.args[0])) == "remaining_sequential_tasks_count_" if t.op == "fld" else False, 0), "observer-runs-when-idle", c,
                   "the observer is run although work is outstanding", st)
            r.need(not st.locks, "handover-outside-lock", c, "the observer is run while the accumulator's lock is held", st)

    def w2(r, st, place, v, line, fr):
        if place[0] == "f" and sn(place[2]) == "async_callback_":
            st.ts["kept"] = st.ts.get("kept", 0) + 1

    def r2(r, st, v, line, fr):
        if v is FALSE or st.ts.get("in"):
            return
        n = st.ts.get("ran", 0) + st.ts.get("kept", 0)
        r.need(n == 1, "observer-runs-exactly-once", (fr.func.rel(), line), "the observer is %s" % ("dropped" if n == 0 else "both run and kept, so it runs twice"), st)
    ctx.run(R(scope=SC, call=c2, write=w2, ret=r2, lam=lam, max_depth=4), get("SetAsyncObserver"))
    ctx.need("observer-runs-exactly-once", 1)

    # the task body
    def act(st):
        return st.ts.get("act", 0)

    def c3(r, st, c):
        if c.kind == "icall" or c.name == "std::function::operator()":
            if c.recv is not None and flows_from(c.recv, fld_p("async_callback_")):
                r.need(not st.locks, "observer-outside-lock", c, "the observer is called while the accumulator's lock is held", st)
                d = val(st, "async_callback_")
                r.need(d is not None and (d is NULL or not flows_from(d, fld_p("async_callback_"))), "observer-cleared-when-called", c,
                       "the observer stays registered after being called and would be called again", st)
                rem = val(st, "remaining_sequential_tasks_count_")
                r.need(rem is not None and equal(st, is_(rem), 0), "observer-called-when-idle", c, "the observer is called although work is outstanding", st)
            else:
                d = delta(st, "active_count_")
                r.need(None if d is None else d >= 1, "task-runs-while-counted-active", c,
                       "a task runs without being counted as active, so cancellation does not wait for it", st)
        elif c.short == "accumulator_func_":
            d = delta(st, "active_count_")
            r.need(None if d is None else d >= 1, "task-runs-while-counted-active", c,
                   "accumulation runs without being counted as active, so cancellation does not wait for it", st)
        elif isname(c, "fcp::Scheduler::Schedule"):
            r.need(not st.locks, "handover-outside-lock", c, "work is handed to a scheduler while the accumulator's lock is held", st)

    def lam3(r, st, fr, node):
        # a later task: the lock has been free since
        for k in [k for k in st.ts if k[0] in ("d", "in")]:
            del st.ts[k]

    def w3(r, st, place, v, line, fr):
        track(st, place, v)
        if place[0] == "f" and sn(place[2]) == "active_count_":
            r.need(bool(st.locks), "counts-under-lock", (fr.func.rel(), line), "the active count changes without the lock", st)
        if place[0] == "f" and sn(place[2]) == "accumulated_value_":
            r.need(isinstance(v, T) and flows_from(v, lambda t: t.op == "call" and t.args[1] is not None and has_sub(t.args[1], fld_p("accumulator_func_")) or call_p("accumulator_func_")(t)),
                   "result-is-accumulated", (fr.func.rel(), line), "the accumulated value is replaced by something that is not the accumulation of it", st)

    def lr3(r, st, v, fr, node):
        d = delta(st, "active_count_")
        if d is None:
            return
        r.need(d == 0, "active-count-balanced", (fr.func.rel(), fr.func.line), "a task leaves the active count changed by %+d" % d, st)
    ctx.run(R(scope=SC, call=c3, write=w3, lam=lam3, lamret=lr3, max_depth=6), get("GetParallelScheduleFunc"))
    ctx.need("task-runs-while-counted-active", 2)
    ctx.need("active-count-balanced", 2)
    ctx.need("observer-cleared-when-called", 1)

    # cancellation
    for f in get("Cancel"):
        def r4(r, st, v, line, fr):
            at = (fr.func.rel(), fr.func.line)
            r.need(at_least(st, 0, fld_p("active_count_")) or equal(st, fld_p("active_count_"), 0) or (None if opaque(st, fld_p("active_count_")) else False),
                   "cancel-waits-for-active", at, "cancellation returns while tasks may still be running", st)
            r.need(bool(st.ts.get("cancelled")) or bool(fact(st, fld_p("is_cancelled_"), True)), "cancel-is-recorded", at, "cancellation is not recorded, so pending work still runs", st)
            r.need(not st.locks, "lock-released", at, "cancellation returns with the lock held", st)
        ctx.run(R(scope=SC, ret=r4, write=w1, max_depth=3), [f])
    for f in get("GetResultAndCancel"):
        def r5(r, st, v, line, fr):
            at = (fr.func.rel(), fr.func.line)
            r.need(equal(st, fld_p("active_count_"), 0) or at_least(st, 0, fld_p("active_count_")), "result-taken-when-inactive", at, "the result is taken while a task may be changing it", st)
            r.need(val(st, "is_cancelled_") is TRUE, "result-taken-once", at, "the result is taken but later work may still use it", st)
        ctx.run(R(scope=SC, ret=r5, max_depth=3), [f])
    ctx.need("cancel-waits-for-active", 1)
    ctx.need("result-taken-when-inactive", 1)

    # whoever waits for inactivity is woken by the last task, on every path that lowers the count
    def w6(r, st, place, v, line, fr):
        if place[0] == "f" and sn(place[2]) == "active_count_":
            c, m = tm._lin(v)
            if c == -1:
                st.ts["low"] = 1

    def c6(r, st, c):
        if c.short in ("SignalAll", "Signal"):
            st.ts["woke"] = 2 if c.short == "SignalAll" else 1

    def r6(r, st, v, line, fr):
        if not st.ts.get("low"):
            return
        cur = val(st, "active_count_")
        zero = cur is not None and equal(st, is_(cur), 0)
        nz = cur is not None and differs(st, is_(cur), 0)
        can = fact(st, fld_p("is_cancelled_"))
        if st.ts.get("woke") or nz or can and can[1] is False:
            r.need(True, "last-task-wakes-waiters", (fr.func.rel(), line), "", st)
        else:
            r.need(False, "last-task-wakes-waiters", (fr.func.rel(), line), "the last active task ends without waking a waiting cancellation", st)
    dec = [f for f in ms if f.short not in ("GetParallelScheduleFunc", "Schedule")]
    ctx.run(R(scope=SC, write=w6, call=c6, ret=r6, max_depth=2), dec)
    ctx.need("last-task-wakes-waiters", 2)

    # no new task becomes active once cancelled
    def w7(r, st, place, v, line, fr):
        if place[0] == "f" and sn(place[2]) == "active_count_":
            c, m = tm._lin(v)
            if c == 1:
                r.need(bool(fact(st, fld_p("is_cancelled_"), False)) or (None if opaque(st, fld_p("is_cancelled_")) else False), "no-task-after-cancel", (fr.func.rel(), line),
                       "a task becomes active although the accumulator was cancelled", st)
    ctx.run(R(scope=SC, write=w7, max_depth=2), [f for f in ms if f.short != "GetParallelScheduleFunc"])
    ctx.need("no-task-after-cancel", 1)

    # idle means nothing is outstanding; new work is flagged until observed
    for f in get("IsIdle"):
        def r8(r, st, v, line, fr):
            REM = fld_p("remaining_sequential_tasks_count_")
            for val, s in bool_cases(st, v):
                if val:
                    ok = equal(s, REM, 0) or at_least(s, 0, REM)
                else:
                    ok = differs(s, REM, 0) or at_least(s, REM, 1)
                known = any(x.op == "fld" for k in list(s.facts) + [v] for x in tm.subterms(k))
                r.need(bool(ok) or (False if known else None), "idle-means-nothing-outstanding", (fr.func.rel(), line), "the accumulator reports idle by something else than having no outstanding work", s)
        ctx.run(R(scope=SC, ret=r8, max_depth=2), [f])

    # work that no observer has been told of is flagged, and the flag goes down with the telling
    def w10(r, st, place, v, line, fr):
        if place[0] == "f" and sn(place[2]) == "has_unobserved_work_":
            st.ts["flag"] = v

    def r10(r, st, v, line, fr):
        d = val(st, "remaining_sequential_tasks_count_")
        first = fact(st, lambda a: a.op == "eq" and any(fld_p("remaining_sequential_tasks_count_")(x) for x in a.args) and any(tm.is_const(x) and tm.cval(x) == 0 for x in a.args))
        f = st.ts.get("flag")
        if d is None:
            return
        if first and not first[1]:
            ok = True
        elif f is None:
            ok = False if first else None
        elif f is TRUE:
            ok = True
        elif f.op in ("or", "arith", "ite"):
            eqs = [x for x in tm.subterms(f) if x.op == "eq"]
            ok = any(any(fld_p("remaining_sequential_tasks_count_")(y) for y in x.args) for x in eqs) if eqs else None
        else:
            ok = st.known(f) if st.known(f) is not None else False if f is FALSE else None
        r.need(ok, "new-work-is-flagged", (fr.func.rel(), line), "the first piece of outstanding work is not noted as work to be observed", st)
    ctx.run(R(scope=SC, write=w10, ret=r10, max_depth=2), inc)

    def r11(r, st, v, line, fr):
        if v is FALSE or st.ts.get("in") or not st.ts.get("ran"):
            return
        r.need(st.ts.get("flag") is FALSE, "told-once", (fr.func.rel(), line), "an observer is told of finished work that is still noted as unobserved", st)
    ctx.run(R(scope=SC, call=c2, write=w10, ret=r11, lam=lam, max_depth=4), get("SetAsyncObserver"))

    def w9(r, st, place, v, line, fr):
        if place[0] == "f" and sn(place[2]) in ("remaining_sequential_tasks_count_", "has_unobserved_work_", "async_callback_", "is_cancelled_", "active_count_") and fr.func.kind != "ctor":
            r.need(bool(st.locks), "counts-under-lock", (fr.func.rel(), line), "%s changes without the lock" % sn(place[2]), st)
    ctx.run(R(scope=SC, write=w9, max_depth=2), ms)
    ctx.need("counts-under-lock", 5)
