"""Rules over the confidential-compute library: blob nonces, message
encryption, COSE/CWT structures, signatures and the client payload framing."""
import re

from fcx.kit import *
from rules.base import at, P_, const_of
from rules.secagg_shared import crypto_results, result_known, all_calls

from fcx.kit import whole as kit_whole

UNITS = [r"^fcp/confidentialcompute/"]
SC = r"^fcp/confidentialcompute/"
NS = "fcp::confidential_compute::"


def fn_(ctx, cls, short):
    fs = [f for f in methods(ctx, NS + cls) if f.short == short]
    if not fs:
        raise AnalysisError("anchor vanished: %s::%s" % (cls, short))
    return fs


def succeeded(st, *names):
    """A call to one of the library functions is known to have succeeded."""
    return any(result_known(st, t) for t in all_calls(st) if sn(t.args[0]) in names)


def own_fields(ctx, cls, regex):
    out = set()
    for c in ctx.db.classes.values():
        if c["name"] == NS + cls:
            for f in c["fields"]:
                if re.search(regex, f[1]):
                    out.add(c["name"] + "::" + f[0])
    return out


def base_of(p):
    """The object whose bytes p points at."""
    while p.op == "call" and sn(p.args[0]) in ("c_str", "data", "get") and p.args[1] is not None:
        p = p.args[1]
    return p


def length_of(d):
    """The length a buffer was given, or None."""
    for _ in range(8):
        if d.op == "ctor" and d.args[1] and "string" in d.args[0]:
            return d.args[1][0]
        if d.op == "upd" and isname(d, "resize") and d.args[2]:
            return d.args[2][0]
        if d.op == "out" and d.args[0].op == "call" and isinstance(d.args[1], int) and d.args[1] < len(d.args[0].args[2]):
            d = base_of(d.args[0].args[2][d.args[1]])
            continue
        if tm.is_int(d):
            return d
        return None
    return None


def exact(p, n):
    """n is the number of bytes of the whole buffer p points at."""
    d = base_of(p)
    if size_p(is_(d))(n):
        return True
    want = length_of(d)
    if want is not None and want is n:
        return True
    if n.op == "call" and sn(n.args[0]) in ("size", "length") and n.args[1] is not None:
        o = length_of(n.args[1])
        if o is not None and o is want:
            return True
    if tm.is_const(n):
        return None if want is None or not tm.is_const(want) else tm.cval(n) == tm.cval(want)
    if any(x.op in ("hav", "param", "phi") for x in tm._lin(n)[1]) or p.op == "lin":
        return None
    return False


def nul_cut(fn):
    """Places where a string is taken from a bare pointer, so that it ends at its first zero byte."""
    def bare(x):
        while isinstance(x, list) and x and x[0] == "cast":
            x = x[2]
        return isinstance(x, list) and len(x) > 6 and x[0] == "call" and sn(x[1]) in ("data", "c_str") and "char" in str(x[6]) + str(x[9] if len(x) > 9 else "")
    for n in walk(fn.body):
        if n[0] == "ctor" and len(n) > 3 and re.search(r"basic_string$|string_view$|StatusOr$|optional$|Bstr$", n[1]):
            a = [x for x in n[2] if x is not None and not (x[0] == "ctor" and x[1] == "std::allocator")]
            if len(a) == 1 and bare(a[0]):
                yield n[3]
        if n[0] == "asg" and bare(n[3]) and n[1] == "=" and n[2] and n[2][0] == "fld":
            yield n[4]
        if n[0] == "ret" and len(n) > 2 and bare(n[2]):
            yield n[1]


# ---- C01: nonces -------------------------------------------------------------
def c01(ctx):
    chk = fn_(ctx, "NonceChecker", "CheckBlobNonce")
    gen = fn_(ctx, "NonceGenerator", "GetNextBlobNonce")
    info = {}
    for cls in ("NonceChecker", "NonceGenerator"):
        info[cls] = (own_fields(ctx, cls, r"\b(uint|unsigned|int|long)"), own_fields(ctx, cls, r"string"))
        if not info[cls][0] or not info[cls][1]:
            raise AnalysisError("anchor vanished: nonce state of %s" % cls)
    shapes = {}
    for cls, f in [("NonceChecker", f) for f in chk] + [("NonceGenerator", f) for f in gen]:
        cnt, ses = info[cls]
        is_cnt = lambda t, cnt=cnt: t.op == "fld" and t.args[0] in cnt
        is_ses = lambda t, ses=ses: t.op == "fld" and t.args[0] in ses

        def call(r, st, c, is_cnt=is_cnt, is_ses=is_ses):
            if c.short in ("memcpy", "memmove") and len(c.args) == 3:
                p, n = c.args[1], c.args[2]
                if flows_from(p, is_cnt):
                    r.need(True if is_cnt(p) else None if has_sub(p, lambda x: x.op == "hav") else False, "counter-whole", c, "only part of the counter goes into the nonce", st)
                    if tm.is_const(n):
                        r.need(tm.cval(n) >= 4, "counter-whole", c, "only part of the counter goes into the nonce", st)
                elif flows_from(p, is_ses):
                    r.need(exact(p, n) if not tm.is_const(n) else tm.cval(n) >= 16, "session-nonce-whole", c, "only part of the session nonce goes into the nonce of a blob", st)

        def write(r, st, place, val, line, fr, is_cnt=is_cnt, cnt=cnt, ses=ses):
            if place[0] == "f" and place[2] in cnt:
                st.ts["new"] = st.ts.get("new", ()) + (val,)
            if place[0] == "f" and place[2] in ses:
                r.need(False, "session-nonce-fixed", (fr.file, line), "the session nonce changes while nonces are being issued or checked", st)

        def advanced(r, st, where, is_cnt=is_cnt):
            new = st.ts.get("new", ())
            if len(new) == 1:
                c, m = tm._lin(new[0])
                good = c == 1 and len(m) == 1 and is_cnt(next(iter(m))) and list(m.values()) == [1]
                r.need(good or None, "counter-advances", where, "", st)
            else:
                r.need(False, "counter-advances", where, "a blob nonce is used without advancing the counter by one" if not new else "the counter is advanced more than once for one blob", st)
            # the counter may not wrap round to values already used
            r.need(bool(differs(st, is_cnt, lambda t: tm.is_const(t) and tm.cval(t) in (4294967295, 18446744073709551615)) or at_least(st, lambda t: tm.is_const(t), is_cnt, 1) or
                        at_least(st, 4294967294, is_cnt)), "counter-never-wraps", where, "the blob counter can wrap round and repeat nonces", st)

        def ret(r, st, v, line, fr, cls=cls, is_cnt=is_cnt, is_ses=is_ses, advanced=advanced):
            if status_of(st, v) is False:
                if cls == "NonceChecker" and st.ts.get("new"):
                    r.need(False, "refusal-keeps-counter", at(fr, line), "a refused blob advances the counter", st)
                return
            w = at(fr, line)
            if cls == "NonceGenerator":
                r.need(flows_from(v, is_cnt) and flows_from(v, is_ses), "nonce-binds-session-and-counter", w, "an issued nonce does not depend on both the session nonce and the counter", st)
                shapes.setdefault("gen", set()).add(shape(v, is_cnt, is_ses))
                advanced(r, st, w)
                return
            if fact(st, lambda a: any(call_p("has_unencrypted")(x) for x in tm.subterms(a)), True):
                r.need(True, "only-matching-nonce", w, "", st)
                return
            eq = None
            for a, pol in st.facts.items():
                if a.op == "eq" and pol and any(call_p("nonce")(x) for x in a.args):
                    o = [x for x in a.args if not call_p("nonce")(x)]
                    if o and flows_from(o[0], is_cnt) and flows_from(o[0], is_ses):
                        eq = o[0]
                        break
            r.need(eq is not None, "only-matching-nonce", w, "an encrypted blob is accepted without its nonce matching the session nonce and the next counter", st)
            if eq is not None:
                shapes.setdefault("chk", set()).add(shape(eq, is_cnt, is_ses))
                advanced(r, st, w)
        ctx.run(R(scope=SC, call=call, write=write, ret=ret, max_depth=5), [f])
    ctx.need("only-matching-nonce")
    ctx.need("nonce-binds-session-and-counter")
    if shapes.get("gen") and shapes.get("chk"):
        ctx.check("both-sides-build-alike", chk[0].rel(), chk[0].line, bool(shapes["gen"] & shapes["chk"]),
                  "the nonce expected by the checker is put together differently from the one the generator issues")
    # counters start alike; the session nonce is random
    init = {}
    for c in ctx.db.classes.values():
        for cls in info:
            if c["name"] == NS + cls:
                for f in c["fields"]:
                    if c["name"] + "::" + f[0] in info[cls][0]:
                        init[cls] = const_init(f[5])
    ctors = [f for f in methods(ctx, NS + "NonceChecker") if f.kind == "ctor"]
    for f in ctors:
        def ret(r, st, v, line, fr):
            got = [val for k, val in st.mem.items() if k[0] == "f" and k[2] in info["NonceChecker"][1]]
            if not got:
                r.need(False, "session-nonce-random", (f.rel(), f.line), "a new checker is left with an empty session nonce", st)
            for val in got:
                r.need(flows_from(val, call_p("RAND_bytes", "RAND_priv_bytes", "RAND_bytes_with_additional_data")), "session-nonce-random", (f.rel(), f.line),
                       "the session nonce does not come from the cryptographic generator", st)
                rnd = val.op == "out" and call_p("RAND_bytes", "RAND_priv_bytes", "RAND_bytes_with_additional_data")(val.args[0])
                r.need(True if rnd and not st.ts.get("chg") else None if val.op == "call" and not call_p("c_str", "data")(val) else False, "session-nonce-random", (f.rel(), f.line), "the random bytes of the session nonce are changed or cut short afterwards", st)
        for l in nul_cut(f):
            ctx.viol("session-nonce-random", f.rel(), l, "the session nonce ends at its first zero byte")

        def write(r, st, place, val, line, fr):
            if has_sub(val, lambda x: x.op == "arith" and flows_from(x, call_p("RAND_bytes"))) or place[0] == "i" and flows_from(place[1], call_p("RAND_bytes")):
                st.ts["chg"] = 1
                r.need(False, "session-nonce-random", (fr.file, line), "random bytes of the session nonce are changed afterwards", st)

        def call(r, st, c):
            if isname(c, "RAND_bytes") and len(c.args) == 2:
                r.need(exact(c.args[0], c.args[1]), "session-nonce-length", c, "only part of the session nonce is random", st)
                n = buflen(ctx, c.args[1])
                short = tm.is_const(n) and isinstance(tm.cval(n), int) and tm.cval(n) < 16
                r.need(not short, "session-nonce-length", c, "the session nonce has fewer than 16 random bytes", st)
        ctx.run(R(scope=SC, ret=ret, call=call, write=write), [f])
    if len(init) == 2 and None not in init.values():
        ctx.check("counters-start-alike", "fcp/confidentialcompute/crypto.h", 0, len(set(init.values())) == 1,
                  "the generator and the checker start counting from different values")


def buflen(ctx, n):
    """The length of a buffer that was built with a constant length."""
    if n.op == "call" and sn(n.args[0]) in ("size", "length") and n.args[1] is not None:
        if tm.is_const(n.args[1]) and isinstance(tm.cval(n.args[1]), int):
            return n.args[1]
        for x in tm.closure(n.args[1]):
            if x.op == "ctor" and x.args[1] and "string" in x.args[0]:
                v = const_of(ctx, x.args[1][0])
                if isinstance(v, int):
                    return tm.const(v)
    return n


def const_init(n):
    while isinstance(n, list) and n and n[0] in ("cast", "conv", "list", "ilist"):
        n = n[-1]
    return n[1] if isinstance(n, list) and len(n) > 1 and n[0] == "int" else n if isinstance(n, (int, str)) else None


def shape(t, is_cnt, is_ses):
    """A nonce term with the state fields and sites abstracted away."""
    def go(x, d):
        if not isinstance(x, T):
            return x if isinstance(x, str) else "_"
        if is_cnt(x):
            return "#"
        if is_ses(x):
            return "S"
        if d > 12:
            return "…"
        if x.op == "c":
            return repr(x.args)
        out = [x.op]
        for a in x.args:
            if isinstance(a, (tuple, list)):
                out.append("(" + ",".join(go(y, d + 1) for y in a) + ")")
            elif isinstance(a, T):
                out.append(go(a, d + 1))
            elif isinstance(a, str):
                out.append(a)
        return "<" + " ".join(out) + ">"
    return go(t, 0)


# ---- C02: authenticated encryption -----------------------------------------------
SEALS = {"EVP_AEAD_CTX_seal": (6, 8, 4), "EVP_AEAD_CTX_open": (6, 8, 4), "EVP_HPKE_CTX_seal": (4, 6, None), "EVP_HPKE_CTX_open": (4, 6, None)}


def whole(ptr, n, p):
    """The buffer (ptr, n) is all of the value p."""
    if not (has_sub(ptr, p) or flows_from(ptr, p)):
        return False
    if tm.is_const(ptr):
        return False
    if tm.is_const(n):
        return False
    return exact(ptr, n)


def suite(name):
    """The member is equal to something; one that is missing does not count as equal."""
    def p(a):
        if a.op != "eq" or not any(isname(x, name) for x in tm.subterms(a) if x.op == "fld"):
            return False
        return not any(x.op == "call" and isname(x, "value_or") and any(y in a.args for y in x.args[2]) for x in a.args)
    return p


def trimmed(ctx, v):
    """Outputs of sealing and opening calls among the parts of a result, with
    whether they were cut to the length the call reported."""
    parts = [v] + [x for x in (fields_of(ctx, v) or {}).values() if isinstance(x, T)]
    for p in parts:
        res = True
        d = p
        if d.op == "call" and isname(d, "c_str", "data") and d.args[1] is not None:
            d, res = d.args[1], False
        n = None
        if d.op == "upd" and isname(d, "resize") and d.args[2]:
            n, d = d.args[2][0], d.args[1]
        if d.op != "out" or d.args[0].op != "call" or not re.match(r"EVP_(AEAD|HPKE)_CTX_(seal|open|setup_sender)$", sn(d.args[0].args[0])) or d.args[1] not in (0, 1):
            continue
        c = d.args[0]
        if res:
            res = False if n is None else True if n.op == "out" and n.args[0] is c else None if has_sub(n, lambda x: x.op == "hav") else False
        yield sn(c.args[0]), res


def c02(ctx):
    enc = fn_(ctx, "MessageEncryptor", "Encrypt")
    dec = fn_(ctx, "MessageDecryptor", "Decrypt")
    ctx_info = {}
    for f in enc:
        pt, rk, ad = (P_(f, i) for i in range(3))

        def call(r, st, c):
            nm = c.short
            if nm in SEALS and len(c.args) > SEALS[nm][1] + 1:
                i, j, k = SEALS[nm]
                r.need(whole(c.args[j], c.args[j + 1], ad), "associated-data-bound", c, "%s does not authenticate all of the associated data" % nm, st)
                if nm == "EVP_AEAD_CTX_seal":
                    r.need(whole(c.args[i], c.args[i + 1], pt), "whole-message-sealed", c, "the message is not encrypted as a whole", st)
                    ctx_info.setdefault("nonce", {}).setdefault("enc", set()).add(shape(c.args[k], lambda t: 0, lambda t: 0))
                else:
                    r.need(not has_sub(c.args[i], pt), "whole-message-sealed", c, "", st)
            if nm == "EVP_HPKE_CTX_setup_sender" and len(c.args) >= 11:
                r.need(flows_from(c.args[7], rk) or None, "wrapped-for-recipient", c, "the message key is wrapped for a key other than the recipient's", st)
                if tm.is_const(c.args[7]):
                    r.need(False, "wrapped-for-recipient", c, "the message key is wrapped for a fixed key", st)
                ctx_info.setdefault("info", {}).setdefault("enc", set()).add(shape(c.args[9], lambda t: 0, lambda t: 0))
            if nm in ("EVP_HPKE_CTX_setup_sender", "EVP_AEAD_CTX_seal"):
                pub = lambda t: t.op in ("fld", "call") and isname(t, "algorithm")
                alg = fact(st, suite("algorithm"), True)
                crv = fact(st, suite("curve"), True)
                if nm == "EVP_HPKE_CTX_setup_sender":
                    r.need(bool(alg) and bool(crv), "recipient-key-suite-checked", c, "a recipient key is used without checking that it is for the algorithm and curve in use", st)

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            w = at(fr, line)
            for nm in ("EVP_AEAD_CTX_seal", "EVP_HPKE_CTX_seal", "EVP_HPKE_CTX_setup_sender"):
                r.need(succeeded(st, nm), "success-only-when-sealed", w,
                       "a result is returned although %s was not seen to succeed" % nm, st)
            fs = fields_of(ctx, v)
            for nm, src in (("ciphertext", "EVP_AEAD_CTX_seal"), ("encapped_key", "EVP_HPKE_CTX_setup_sender"), ("encrypted_symmetric_key", "EVP_HPKE_CTX_seal")):
                if nm in fs:
                    r.need(flows_from(fs[nm], call_p(src)), "result-parts", w, "the %s returned is not the output of %s" % (nm.replace("_", " "), src), st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/crypto", call=call, ret=ret, max_depth=4), [f])
    for f in dec:
        ct, cad, ek, kad, epk = (P_(f, i) for i in range(5))

        def call(r, st, c):
            nm = c.short
            if nm in SEALS and len(c.args) > SEALS[nm][1] + 1:
                i, j, k = SEALS[nm]
                aead = nm == "EVP_AEAD_CTX_open"
                r.need(whole(c.args[j], c.args[j + 1], cad if aead else kad), "associated-data-bound", c,
                       "%s does not verify all of the associated data given for it" % nm, st)
                r.need(whole(c.args[i], c.args[i + 1], ct if aead else ek), "whole-message-opened", c, "%s is not given the whole ciphertext" % nm, st)
                if k is not None:
                    ctx_info.setdefault("nonce", {}).setdefault("dec", set()).add(shape(c.args[k], lambda t: 0, lambda t: 0))
            if nm == "EVP_HPKE_CTX_setup_recipient" and len(c.args) >= 8:
                r.need(whole(c.args[4], c.args[5], epk), "encapsulated-key-used", c, "the recipient context is not set up from the encapsulated key", st)
                ctx_info.setdefault("info", {}).setdefault("dec", set()).add(shape(c.args[6], lambda t: 0, lambda t: 0))
            if nm == "EVP_AEAD_CTX_new" and len(c.args) >= 3:
                r.need(flows_from(c.args[1], call_p("EVP_HPKE_CTX_open")) or None if not tm.is_const(c.args[1]) else False, "opened-with-unwrapped-key", c,
                       "the message is opened with a key other than the unwrapped one", st)

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            w = at(fr, line)
            for nm in ("EVP_AEAD_CTX_open", "EVP_HPKE_CTX_open", "EVP_HPKE_CTX_setup_recipient"):
                r.need(succeeded(st, nm), "only-authenticated-plaintext", w,
                       "plaintext is returned although %s was not seen to succeed" % nm, st)
            r.need(bool(fact(st, suite("algorithm"), True)), "message-key-suite-checked", w,
                   "plaintext is returned without checking the algorithm of the message key", st)
            r.need(flows_from(v, call_p("EVP_AEAD_CTX_open")) or None, "only-authenticated-plaintext", w, "", st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/crypto", call=call, ret=ret, max_depth=4), [f])
    ctx.need("only-authenticated-plaintext")
    ctx.need("associated-data-bound")
    for what, d in ctx_info.items():
        if d.get("enc") and d.get("dec"):
            ctx.check("both-sides-agree", enc[0].rel(), enc[0].line, d["enc"] == d["dec"], "encryption and decryption use different %s values" % what)
    # the two constructors choose the same primitives
    prim = {}
    for cls in ("MessageEncryptor", "MessageDecryptor"):
        for f in methods(ctx, NS + cls):
            if f.kind == "ctor":
                def write(r, st, place, val, line, fr, cls=cls):
                    if place[0] == "f" and val.op == "call" and re.match(r"EVP_(hpke|aead)_", sn(val.args[0])):
                        ty = (ctx.db.fields.get(place[2]) or ["", ""])[1]
                        prim.setdefault(re.sub(r"\W|const|evp_\w*?_st", "", ty) or sn(place[2]), {}).setdefault(cls, set()).add(sn(val.args[0]))
                        ctx.ob("primitive-chosen", f.rel(), line)
                ctx.run(R(scope=SC, write=write), [f])
    for ty, d in prim.items():
        if len(d) == 2:
            ctx.check("both-sides-agree", enc[0].rel(), enc[0].line, len(set(map(frozenset, d.values()))) == 1, "encryptor and decryptor choose different primitives for %s: %s" % (ty, sorted(map(sorted, d.values()))))
    # outputs are cut to their real length, and tags are not shortened
    tags = {}
    for f in in_files(ctx, r"^fcp/confidentialcompute/crypto\.cc"):
        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            for nm, ok in trimmed(ctx, v):
                r.need(ok, "output-length", at(fr, line), "the output of %s is not returned at the length it reported" % nm, st)

        def call(r, st, c, f=f):
            if isname(c, "EVP_AEAD_CTX_new", "EVP_AEAD_CTX_init") and len(c.args) >= 4:
                t = c.args[3]
                r.need(None if not tm.is_const(t) else tm.cval(t) == 0 or tm.cval(t) >= 16, "tag-length", c, "messages are authenticated by a shortened tag", st)
        if any(x[0] == "call" and re.match(r"EVP_(AEAD|HPKE)_CTX_", sn(str(x[1]))) for x in walk(f.body)):
            ctx.run(R(scope=r"^fcp/confidentialcompute/crypto", call=call, ret=ret, max_depth=0), [f])
            for l in nul_cut(f):
                ctx.viol("output-length", f.rel(), l, "a value is cut off at its first zero byte")
    # library results are looked at
    fs = [f for f in in_files(ctx, r"^fcp/confidentialcompute/crypto\.cc")]
    crypto_results(ctx, fs, r"^fcp/confidentialcompute/crypto", "result-checked", lambda short, fn: re.match(r"RAND_bytes|EVP_HPKE_CTX_max_overhead|ECDSA_SIG_get0", short))


# ---- C03: key material -----------------------------------------------------------
def c03(ctx):
    enc = fn_(ctx, "MessageEncryptor", "Encrypt")
    dec = fn_(ctx, "MessageDecryptor", "Decrypt")
    rnd = call_p("RAND_bytes", "RAND_priv_bytes")

    def wiped(r, st, c):
        if c.short in ("OPENSSL_cleanse", "explicit_bzero", "memset_s", "memset_explicit") and c.args:
            a = c.args[0]
            st.ts[("w", c.line, c.file)] = (a, var_of(c.node[3][0]))
            if len(c.args) > 1 and exact(a, c.args[-1]) is False:
                r.need(False, "erased-whole", c, "only part of a secret is erased", st)
            if len(c.args) > 1 and tm.is_const(c.args[-1]):
                r.need(False, "erased-whole", c, "only a fixed part of a secret is erased", st)

    for f in enc + dec:
        erased_copies(ctx, f)

    def wipes(st):
        return [v for k, v in st.ts.items() if k[0] == "w"]

    for f in enc:
        def call(r, st, c):
            wiped(r, st, c)
            if isname(c, "EVP_AEAD_CTX_new") and len(c.args) > 1:
                r.need(flows_from(c.args[1], rnd), "key-fresh", c, "the message key is not drawn from the random generator for this message", st)
                if "chg" in st.ts:
                    r.need(False, "key-fresh", c, "the message key is changed after it was drawn", st)
                b = base_of(c.args[1])
                if b.op in ("upd", "out") and not (b.op == "out" and rnd(b.args[0])):
                    r.need(False, "key-fresh", c, "the message key is changed after it was drawn", st)
                st.ts["aead"] = 1
            if isname(c, "RAND_bytes"):
                st.ts["drawn"] = 1
                n = c.args[1]
                r.need(exact(c.args[0], n), "key-fresh", c, "only part of the message key is random", st)
                r.need(not tm.is_const(n) or tm.cval(n) >= 16, "key-fresh", c, "fewer than 16 bytes of the message key are random", st)

        def write(r, st, place, val, line, fr):
            if place[0] == "i" and flows_from(place[1], rnd):
                st.ts["chg"] = 1

        def ret(r, st, v, line, fr):
            w = at(fr, line)
            if not st.ts.get("drawn"):
                return
            ws = wipes(st)
            r.need(any(is_k(a) or flows_from(a, rnd) for a, _ in ws), "key-erased", w, "the message key stays in memory on this exit", st)
            if serialized(st):
                r.need(any(not (is_k(a) or flows_from(a, rnd) and not flows_from(a, call_p("Encode"))) for a, _ in ws), "encoded-key-erased", w,
                       "the serialized message key stays in memory on this exit", st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/crypto", call=call, write=write, ret=ret, max_depth=4), [f])
    for f in dec:
        def call(r, st, c):
            wiped(r, st, c)

        def ret(r, st, v, line, fr):
            w = at(fr, line)
            ws = wipes(st)
            if succeeded(st, "EVP_HPKE_CTX_open"):
                r.need(any(not is_k(a) and not flows_from(a, call_p("EVP_AEAD_CTX_open")) for a, _ in ws), "encoded-key-erased", w,
                       "the unwrapped message key stays in memory on this exit", st)
            if decoded(st):
                r.need(any(is_k(a) for a, _ in ws), "key-erased", w, "the message key stays in memory on this exit", st)
            for nm, what in (("EVP_HPKE_CTX_open", "key"), ("EVP_AEAD_CTX_open", "plaintext")):
                if any(result_known(st, t) is False for t in all_calls(st) if sn(t.args[0]) == nm):
                    r.need(any(flows_from(a, call_p(nm)) or not is_k(a) for a, _ in ws) if what == "key" else any(flows_from(a, call_p(nm)) for a, _ in ws), "partial-output-erased", w,
                           "a %s that failed to authenticate stays in memory" % what, st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/crypto", call=call, ret=ret, max_depth=4), [f])
    ctx.need("key-erased")
    ctx.need("key-fresh")
    # the decryptor's own key pair: generated here, and only its public half leaves
    for f in methods(ctx, NS + "MessageDecryptor"):
        if f.kind == "ctor":
            def ret(r, st, v, line, fr):
                r.need(succeeded(st, "EVP_HPKE_KEY_generate"), "key-pair-generated", at(fr, line), "a decryptor is built without a freshly generated key pair", st)
            ctx.run(R(scope=SC, ret=ret), [f])
    for f in in_files(ctx, r"^fcp/confidentialcompute/crypto"):
        for c in calls_in(f, "EVP_HPKE_KEY_private_key", "EC_KEY_get0_private_key", "EVP_HPKE_KEY_copy"):
            ctx.viol("private-key-stays", f.rel(), c[4], "a private key is read out of its container")
        ctx.ob("private-key-stays", f.rel(), f.line)


def erased_copies(ctx, f):
    """Secrets are erased where they are, not in a copy; erasing is not called off; no copy is kept."""
    WIPE = ("OPENSSL_cleanse", "explicit_bzero", "memset_s", "memset_explicit")
    secret = set()
    guards = set()
    for n in walk(f.body):
        if n[0] == "decl" and len(n) > 5 and "absl::Cleanup" in str(n[4]) and any(x[0] == "call" and sn(str(x[1])) in WIPE for x in walk(n[5])):
            guards.add(n[2])
        if n[0] == "call" and sn(str(n[1])) in WIPE and n[3]:
            for x in walk(n[3][0]):
                if x[0] == "var":
                    secret.add(x[2])
    for n in walk(f.body):
        if n[0] == "lambda":
            for cap in n[2]:
                wiped = any(x[0] == "call" and sn(str(x[1])) in WIPE and x[3] and any(y[0] == "var" and y[1] == cap[0] for y in walk(x[3][0])) for x in walk(n[4]))
                if wiped:
                    ctx.check("erased-in-place", f.rel(), f.line, cap[2] != "v" and cap[2] != "c" or cap[1] is None, "a copy of the secret is erased instead of the secret")
        if n[0] == "call" and sn(str(n[1])) == "Cancel" and n[2] and any(x[0] == "var" and x[2] in guards for x in walk(n[2])):
            ctx.viol("erased-in-place", f.rel(), n[4], "erasing the secret is called off")
        if n[0] == "decl" and len(n) > 5 and re.match(r"(const )?std::basic_string<", str(n[4])) and "&" not in str(n[4]) and n[2] not in secret:
            x = n[5]
            while isinstance(x, list) and x and (x[0] == "cast" or x[0] == "ctor" and len(x[2]) == 1):
                x = x[2] if x[0] == "cast" else x[2][0]
            if isinstance(x, list) and x and x[0] == "var" and x[2] in secret:
                ctx.viol("erased-in-place", f.rel(), n[1], "a copy of a secret stays in memory")


def var_of(n):
    while isinstance(n, list) and n:
        if n[0] in ("var", "param", "lvar"):
            return n[1]
        n = n[2] if n[0] == "call" else n[-1] if n[0] in ("cast", "conv") else None
    return None


def is_k(t):
    return has_sub(t, lambda x: x.op == "fld" and sn(x.args[0]) == "k")


def serialized(st):
    return okfact(st, "Encode")


def decoded(st):
    return okfact(st, "Decode")


def okfact(st, name):
    """The StatusOr returned by a call of that name is known to be a success."""
    return any(a.op == "ok" and v is True and any(call_p(name)(x) for x in tm.subterms(a)) for a, v in st.facts.items())


# ---- C04: COSE / CWT decoding ------------------------------------------------------
AS = {"asInt": ("UINT", "NINT"), "asUint": ("UINT",), "asNint": ("NINT",), "asBstr": ("BSTR",), "asTstr": ("TSTR",), "asArray": ("ARRAY",), "asMap": ("MAP",)}


def as_call(t):
    return t.op == "call" and sn(t.args[0]) in AS and t.args[1] is not None


def nonnull(st, t):
    """A cppbor down-cast is known not to be null."""
    if st.known(mk("has", t)) is True:
        return True
    x = t.args[1]
    for a, v in st.facts.items():
        if v and a.op == "eq" and a.args[0].op == "enum" and call_p("type")(a.args[1]) and a.args[1].args[1] is x:
            return sn(a.args[0].args[0]) in AS[sn(t.args[0])]
        if v and a.op == "has" and as_call(a.args[0]) and a.args[0].args[1] is x and sn(a.args[0].args[0]) == sn(t.args[0]):
            return True
    return False


def c04(ctx):
    fs = [f for f in in_files(ctx, r"^fcp/confidentialcompute/cose\.cc")]
    roots = roots_of(ctx, fs)
    if not roots:
        raise AnalysisError("anchor vanished: COSE sources")

    def call(r, st, c):
        t = c.recv
        if isinstance(t, T) and as_call(t):
            r.need(nonnull(st, t), "type-checked-before-use", c, "an element is read as %s without its type having been checked" % sn(t.args[0])[2:], st)
        if isname(c, "cppbor::Array::get", "cppbor::Array::operator[]") and isinstance(t, T) and len(c.args) == 1:
            i = c.args[0]
            n = lambda x: size_p(lambda y: y is t or same_item(y, t))(x)
            r.need(bool(at_least(st, n, i, 1) or tm.is_const(i) and any(at_least(st, n, k) for k in (tm.cval(i) + 1,))), "element-exists", c,
                   "an array element is read without the array's length having been checked", st)
        if isname(c, "cppbor::parse"):
            st.ts[("p", c.line, c.file)] = c.term if c.term is not None else 1

    def deref(r, st, base, line, fr, typ):
        if isinstance(base, T) and as_call(base):
            r.need(nonnull(st, base), "type-checked-before-use", (fr.file, line), "an element is read as %s without its type having been checked" % sn(base.args[0])[2:], st)

    def ret(r, st, v, line, fr):
        if status_of(st, v) is False:
            return
        for t in all_calls(st):
            if isname(t, "cppbor::parse"):
                pass
        ps = [k for k in st.ts if isinstance(k, tuple) and k[0] == "p"]
        for k in ps:
            _, l, file = k
            r.need(parsed_ok(st, "2"), "parse-errors-reported", (file, l), "a value is accepted although parsing it may have failed", st)
            r.need(parsed_end(st, st.ts[k]), "trailing-data-rejected", (file, l), "a value followed by extra data is accepted", st)

    def it(r, st, node, fr):
        ids = [a.args[0] for a, v in st.facts.items() if v and a.op == "eq" and a.args[0].op == "enum" and call_p("cppbor::Int::value")(a.args[1])]
        if not ids:
            return
        keys = [base_of_item(a.args[1]) for a, v in st.facts.items() if v and a.op == "eq" and a.args[0] in ids]
        bad = False
        for a, v in st.facts.items():
            if v:
                continue
            if a.op == "has" and as_call(a.args[0]) and partner(a.args[0].args[1], keys):
                bad = not typed(st, a.args[0].args[1])
            elif a.op == "eq" and a.args[0].op == "enum" and call_p("type")(a.args[1]) and partner(a.args[1].args[1], keys):
                bad = not typed(st, a.args[1].args[1])
            elif a.op == "call" and isname(a, "ParseFromArray", "ParseFromString"):
                bad = True
            if bad:
                break
        r.need(not bad, "malformed-refused", (fr.file, node[1]), "a member of the wrong type is passed over", st)

    ctx.run(R(scope=r"^fcp/confidentialcompute/cose", call=call, deref=deref, ret=ret, iter=it, max_depth=4), fs)
    ctx.need("type-checked-before-use")
    ctx.need("malformed-refused")
    NARROW = r"^(std::optional<)?(const )?(unsigned )?(signed )?(char|short|int|bool)( int)?>?$"
    for f in fs:
        for l in nul_cut(f):
            ctx.viol("members-whole", f.rel(), l, "a value is cut off at its first zero byte")
        ctx.ob("members-whole", f.rel(), f.line)
        ty = {n[2]: str(n[4]) for n in walk(f.body) if n[0] == "decl" and len(n) > 4}
        for n in walk(f.body):
            if n[0] == "asg" and isinstance(n[2], list) and n[2] and n[2][0] == "var" and re.match(NARROW, ty.get(n[2][2], "")) and \
                    any(x[0] == "call" and str(x[1]).endswith("Int::value") for x in walk(n[3])):
                ctx.viol("members-whole", f.rel(), n[4], "a decoded number is cut down to a narrower type")
            if n[0] == "call" and str(n[1]).endswith("cppbor::Map::add") and len(n[3]) == 2:
                for x in walk(n[3][1]):
                    if x[0] == "cast" and re.match(NARROW, str(x[1])) and any(y[0] == "fld" for y in walk(x[2])):
                        ctx.viol("members-whole", f.rel(), n[4], "a number is cut down to a narrower type when it is encoded")
            if n[0] == "cast" and n[1] == "void" and isinstance(n[2], list) and n[2] and n[2][0] == "call" and re.search(r"absl::Status(Or<|$)", str(n[2][6] if len(n[2]) > 6 else "")):
                ctx.viol("malformed-refused", f.rel(), n[2][4], "the error of a nested part is ignored")
    for f in fn_(ctx, "OkpCwt", "Decode"):
        def sw(r, st, place, val, line, fr):
            if place[0] == "f" and place[2] == NS + "OkpCwt::signature":
                st.ts["sig"] = 1

        def sret(r, st, v, line, fr):
            if status_of(st, v) is not False:
                r.need("sig" in st.ts or (None if any(isname(c, "assign") for c in all_calls(st)) else False), "malformed-refused", at(fr, line), "a token is accepted without a signature having been found in it", st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/cose", write=sw, ret=sret, max_depth=0), [f])
    ctx.need("parse-errors-reported")

    # key type
    kinds = {}
    for cls in ("OkpKey", "SymmetricKey"):
        for f in fn_(ctx, cls, "Encode"):
            def call(r, st, c, cls=cls):
                if isname(c, "cppbor::Map::add") and len(c.args) == 2 and c.args[0].op == "enum" and c.args[1].op == "enum":
                    kinds.setdefault(cls, set()).add((c.args[0], c.args[1]))
            ctx.run(R(scope=r"^fcp/confidentialcompute/cose", call=call), [f])
        for f in fn_(ctx, cls, "Decode"):
            want = {y for _, y in kinds.get(cls, ())}

            def ret(r, st, v, line, fr):
                if status_of(st, v) is False:
                    return
                got = [a.args[0] for a, pol in st.facts.items() if a.op == "eq" and pol and a.args[0].op == "enum" and not call_p("type")(a.args[1])]
                r.need(bool(set(got) & want) if want else None, "key-type-checked", at(fr, line), "a key of another kind is accepted", st)
                for a, pol in st.facts.items():
                    if pol and a.op == "eq" and a.args[0] in want:
                        r.need(not any(has_sub(x, is_(a.args[0])) for y in tm.subterms(a.args[1]) for x in tm.START.get(y, ())), "key-type-checked", at(fr, line), "a key that does not say its kind is accepted", st)
            ctx.run(R(scope=r"^fcp/confidentialcompute/cose", ret=ret), [f])

    # what is written under an identifier is read back from it
    wr, rd, units = {}, {}, {}
    for cls in ("OkpKey", "SymmetricKey", "OkpCwt"):
        owner = NS + cls + "::"
        encs = fn_(ctx, cls, "Encode")
        decs = fn_(ctx, cls, "Decode")

        def call(r, st, c, cls=cls, owner=owner):
            if isname(c, "cppbor::Map::add") and len(c.args) == 2 and c.args[0].op == "enum":
                for x in tm.closure(c.args[1]):
                    if x.op == "fld" and x.args[0].startswith(owner):
                        wr.setdefault(cls, {}).setdefault(x.args[0], set()).add(c.args[0].args[0])
                        for y in tm.closure(c.args[1]):
                            if y.op == "call" and re.match(r"ToUnix\w+$", sn(y.args[0])):
                                units.setdefault((cls, x.args[0]), [set(), set()])[0].add(sn(y.args[0])[2:])

        ctx.run(R(scope=r"^fcp/confidentialcompute/cose", stops=[NS + "OkpKey::Encode", NS + "SymmetricKey::Encode"], call=call, max_depth=3), encs)

        def write(r, st, place, val, line, fr, cls=cls, owner=owner):
            if place[0] == "f" and place[2].startswith(owner):
                note(st, place[2], cls)
                for y in tm.closure(val):
                    if y.op == "call" and re.match(r"FromUnix\w+$", sn(y.args[0])):
                        units.setdefault((cls, place[2]), [set(), set()])[1].add(sn(y.args[0])[4:])

        def call2(r, st, c, cls=cls, owner=owner):
            t = c.recv
            if isinstance(t, T) and c.short in ("assign", "ParseFromArray", "ParseFromString", "append", "insert", "emplace"):
                n = c.node[2] if len(c.node) > 2 else None
                bf = n[1] if isinstance(n, list) and n and n[0] == "fld" else recv_field(c)
                if isinstance(bf, str) and bf.startswith(owner):
                    note(st, bf, cls)

        def note(st, field, cls):
            ids = {a.args[0].args[0] for a, v in st.facts.items() if v and a.op == "eq" and a.args[0].op == "enum" and call_p("value")(a.args[1])}
            if ids:
                rd.setdefault(cls, {}).setdefault(field, set()).update(ids)
        ctx.run(R(scope=r"^fcp/confidentialcompute/cose", write=write, call=call2, max_depth=3), decs)
    for cls, m in sorted(wr.items()):
        for field, ids in sorted(m.items()):
            got = rd.get(cls, {}).get(field)
            f = fn_(ctx, cls, "Decode")[0]
            if got is None:
                ctx.unknown("identifiers-agree", f.rel(), f.line, "")
                continue
            ctx.check("identifiers-agree", f.rel(), f.line, ids <= got,
                      "%s of %s is written under %s but read back from %s" % (sn(field), cls, sorted(map(sn, ids)), sorted(map(sn, got))))
            other = set()
            for f2, i2 in m.items():
                if f2 != field:
                    other |= i2
            ctx.check("identifiers-agree", f.rel(), f.line, not (got & other), "%s of %s is also read from the identifier of another member" % (sn(field), cls))
    for cls, m in sorted(rd.items()):
        for field in sorted(m):
            f = fn_(ctx, cls, "Encode")[0]
            ctx.check("members-encoded", f.rel(), f.line, field in wr.get(cls, {}), "%s of %s is understood when decoding but never encoded" % (sn(field), cls))
    for (cls, field), (a, b) in sorted(units.items()):
        if a and b:
            f = fn_(ctx, cls, "Encode")[0]
            ctx.check("units-agree", f.rel(), f.line, a == b, "%s is written in another unit than it is read in" % sn(field))
    ctx.need("identifiers-agree")


def base_of_item(t):
    """The item whose number t is."""
    while isinstance(t, T) and t.op == "call" and (isname(t, "cppbor::Int::value") or as_call(t)):
        t = t.args[1]
    return t


def partner(x, keys):
    """x is the value stored under one of the keys."""
    ts = lambda t: {y for y in tm.subterms(t) if y.op in ("each", "elem")}
    return x not in keys and any(ts(x) & ts(k) and x.op == k.op == "call" and x.args[1:3] == k.args[1:3] for k in keys)


def typed(st, x):
    """The item is known to have some type after all."""
    return any(v and (a.op == "has" and as_call(a.args[0]) and a.args[0].args[1] is x or a.op == "eq" and a.args[0].op == "enum" and call_p("type")(a.args[1]) and a.args[1].args[1] is x)
               for a, v in st.facts.items())


def same_item(a, b):
    return a is b


def parsed_ok(st, i):
    return bool(fact(st, lambda a: a.op == "eq" and any(size_p(lambda y: has_sub(y, call_p("parse")))(x) for x in a.args), True) or
                fact(st, lambda a: a.op == "call" and isname(a, "empty") and has_sub(a, call_p("parse")), True))


def parsed_end(st, t):
    for a, v in st.facts.items():
        if v and a.op == "eq" and any(has_sub(x, call_p("parse")) for x in a.args) and any(has_sub(x, call_p("size", "end", "length")) and not is_enumish(x) for x in a.args) and \
                not any(tm.is_const(x) for x in a.args):
            return True
    return False


def is_enumish(x):
    return x.op == "enum"


# ---- C05: what a CWT signature covers, and signatures ----------------------------------
def pieces(t):
    """The elements of a CBOR array value, in order, or None."""
    out = []
    while isinstance(t, T):
        if t.op == "upd" and isname(t, "cppbor::Array::add"):
            out.insert(0, t.args[2][0])
            t = t.args[1]
        elif t.op == "call" and isname(t, "cppbor::Array::add"):
            out.insert(0, t.args[2][0])
            t = t.args[1]
        elif t.op == "obj":
            return out
        elif t.op in ("ctor", "list") and isname(t, "cppbor::Array"):
            return list(t.args[1]) + out
        else:
            return None
    return None


def nth(t, i):
    """Element i of the parsed top-level array."""
    return has_sub(t, lambda x: x.op == "call" and isname(x, "cppbor::Array::get", "cppbor::Array::operator[]") and x.args[2] and tm.is_const(x.args[2][0]) and
                   tm.cval(x.args[2][0]) == i and x.args[1] is not None and not has_sub(x.args[1], call_p("cppbor::Array::get")))


def covers(t, p):
    return True if flows_from(t, p) else None if has_sub(t, lambda x: x.op == "hav") else False


def strc(t):
    for x in tm.subterms(t):
        if tm.is_const(x) and isinstance(tm.cval(x), str):
            return tm.cval(x)
    return None


def offset(p):
    """How far into its buffer p points."""
    c, l = tm._lin(p)
    for x in l:
        b = base_of(x)
        if b.op == "call" and isname(b, "substr") and b.args[2] and tm.is_int(b.args[2][0]):
            c += tm.cval(b.args[2][0])
    return c


def c05(ctx):
    hdr = lambda t: flows_from(t, lambda x: x.op == "fld" and x.args[0] == NS + "OkpCwt::algorithm") and not flows_from(t, claim)
    claim = lambda x: x.op == "fld" and x.args[0] in (NS + "OkpCwt::public_key", NS + "OkpCwt::expiration_time", NS + "OkpCwt::config_properties", NS + "OkpCwt::issued_at")
    for f in fn_(ctx, "OkpCwt", "BuildSigStructureForSigning"):
        aad = P_(f, 0)

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            w = at(fr, line)
            ps = [pieces(x.args[1]) for x in tm.subterms(v) if x.op == "call" and isname(x, "toString", "encode") and x.args[1] is not None and pieces(x.args[1])]
            if not ps:
                return r.need(None, "signature-structure", w, "", st)
            p = ps[0]
            if len(p) != 4:
                return r.need(False, "signature-structure", w, "the structure to be signed does not have its four parts", st)
            r.need(strc(p[0]) == "Signature1", "signature-structure", w, "the structure to be signed has the wrong context string", st)
            r.need(flows_from(p[2], aad), "signature-covers-aad", w, "the structure to be signed leaves out the additional data", st)
            alg = any(a.op == "has" and a.args[0].op == "fld" and a.args[0].args[0] == NS + "OkpCwt::algorithm" and v2 for a, v2 in st.facts.items())
            if alg:
                r.need(covers(p[1], lambda x: x.op == "fld" and x.args[0] == NS + "OkpCwt::algorithm"), "signature-covers-header", w, "the structure to be signed leaves out the protected header", st)
            cfg = lambda x: x.op == "fld" and x.args[0] == NS + "OkpCwt::config_properties"
            if covers(p[3], cfg) is False:
                r.need(bool(equal(st, size_p(lambda y: has_sub(y, cfg)), 0) or fact(st, lambda a: a.op == "call" and isname(a, "empty") and has_sub(a, cfg), True)), "signature-covers-claims", w,
                       "the structure to be signed can leave out the configuration", st)
            for a, v2 in st.facts.items():
                if v2 and a.op == "has" and claim(a.args[0]):
                    r.need(covers(p[3], lambda x: x.op == "fld" and x.args[0] == a.args[0].args[0]), "signature-covers-claims", w,
                           "the structure to be signed leaves out %s" % sn(a.args[0].args[0]), st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/cose", stops=[NS + "OkpKey::Encode"], ret=ret, max_depth=3), [f])
    # the token sent has its parts where the reader looks for them
    for f in fn_(ctx, "OkpCwt", "Encode"):
        def ret(r, st, v, line, fr):
            ps = [pieces(x.args[1]) for x in tm.subterms(v) if x.op == "call" and isname(x, "toString", "encode") and x.args[1] is not None and pieces(x.args[1])]
            if status_of(st, v) is False or not ps:
                return
            p, w = ps[0], at(fr, line)
            r.need(len(p) == 4, "token-parts", w, "an encoded token does not have its four parts", st)
            if len(p) != 4:
                return
            if any(a.op == "has" and a.args[0].op == "fld" and a.args[0].args[0] == NS + "OkpCwt::algorithm" and v2 for a, v2 in st.facts.items()):
                r.need(covers(p[0], lambda x: x.op == "fld" and x.args[0] == NS + "OkpCwt::algorithm"), "token-parts", w, "the first part of a token is not its protected header", st)
            for a, v2 in st.facts.items():
                if v2 and a.op == "has" and claim(a.args[0]):
                    r.need(covers(p[2], lambda x: x.op == "fld" and x.args[0] == a.args[0].args[0]), "token-parts", w, "the third part of a token is not its payload", st)
            r.need(covers(p[3], lambda x: x.op == "fld" and x.args[0] == NS + "OkpCwt::signature"), "token-parts", w, "the last part of a token is not its signature", st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/cose", stops=[NS + "OkpKey::Encode"], ret=ret, max_depth=3), [f])
    for f in fn_(ctx, "OkpCwt", "GetSigStructureForVerifying") + fn_(ctx, "OkpCwt", "BuildSigStructureForSigning") + fn_(ctx, "EcdsaP256R1SignatureVerifier", "Verify") + fn_(ctx, "EcdsaP256R1Signer", "Sign"):
        ctx.ob("signed-data-whole", f.rel(), f.line)
        for l in nul_cut(f):
            ctx.viol("signed-data-whole", f.rel(), l, "what is signed is cut off at its first zero byte")
    for f in fn_(ctx, "OkpCwt", "GetSigStructureForVerifying"):
        enc, aad = P_(f, 0), P_(f, 1)

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            w = at(fr, line)
            ps = [pieces(x.args[1]) for x in tm.subterms(v) if x.op == "call" and isname(x, "toString", "encode") and x.args[1] is not None and pieces(x.args[1])]
            if not ps or any(a.op == "has" and not v2 and as_call(a.args[0]) and nonnull(st, a.args[0]) for a, v2 in st.facts.items()):
                return r.need(None, "signature-structure", w, "", st)
            p = ps[0]
            multi = fact(st, lambda a: a.op == "eq" and a.args[0].op == "enum" and sn(a.args[0].args[0]) == "ARRAY" and nth(a.args[1], 3) and
                         not has_sub(a.args[1], call_p("cppbor::Item::asArray")) or a.op == "eq" and a.args[0].op == "enum" and sn(a.args[0].args[0]) == "ARRAY" and nth(a.args[1], 3), True)
            want = 5 if multi else 4
            if len(p) != want:
                return r.need(False, "signature-structure", w, "the structure to be verified has %d parts instead of %d" % (len(p), want), st)
            r.need(strc(p[0]) == ("Signature" if multi else "Signature1"), "signature-structure", w, "the structure to be verified has the wrong context string", st)
            r.need(nth(p[1], 0), "signature-covers-header", w, "the structure to be verified leaves out the protected header", st)
            if multi:
                r.need(nth(p[2], 3), "signature-covers-header", w, "the structure to be verified leaves out the signer's protected header", st)
            r.need(flows_from(p[-2], aad), "signature-covers-aad", w, "the structure to be verified leaves out the additional data", st)
            r.need(nth(p[-1], 2), "signature-covers-claims", w, "the structure to be verified leaves out the payload", st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/cose", ret=ret, max_depth=3), [f])
    ctx.need("signature-covers-claims")
    ctx.need("signature-covers-aad")

    # the published key is the decryptor's own, and what was signed is what is sent
    for f in fn_(ctx, "MessageDecryptor", "GetPublicKey"):
        def call(r, st, c):
            if isname(c, "BuildSigStructureForSigning") and isinstance(c.recv, T):
                st.ts["signed"] = c.recv
                r.need(succeeded(st, "EVP_HPKE_KEY_public_key"), "published-key-is-own", c, "a key is signed that was not read from the decryptor's key pair", st)
            if isname(c, "Encode") and isinstance(c.recv, T) and c.recvtype and "OkpCwt" in c.recvtype:
                r.need("signed" in st.ts, "published-key-signed", c, "the public key is published without being signed", st)

        def after(r, st, c):
            n = c.node[2] if len(c.node) > 2 else None
            f2 = n[1] if isinstance(n, list) and n and n[0] == "fld" else recv_field(c)
            if "signed" in st.ts and isinstance(f2, str) and re.match(re.escape(NS) + r"Okp(Cwt|Key)::(?!signature$)", f2) and c.short in ("resize", "assign", "append", "clear", "push_back", "reset", "emplace"):
                r.need(False, "published-key-signed", c, "%s is changed after the token was signed" % sn(f2), st)

        def write(r, st, place, val, line, fr):
            if place[0] == "f" and re.match(re.escape(NS) + r"Okp(Cwt|Key)::(?!signature$)", place[2]) and "signed" in st.ts:
                r.need(False, "published-key-signed", (fr.file, line), "%s is changed after the token was signed" % sn(place[2]), st)

        def both(r, st, c, call=call, after=after):
            after(r, st, c)
            call(r, st, c)
        ctx.run(R(scope=r"^fcp/confidentialcompute/crypto", call=both, write=write, max_depth=3), [f])

    # ECDSA
    for f in fn_(ctx, "EcdsaP256R1SignatureVerifier", "Verify"):
        data, sig = P_(f, 0), P_(f, 1)

        def call(r, st, c):
            if isname(c, "BN_bin2bn", "BN_le2bn", "BN_lebin2bn") and len(c.args) >= 2:
                ok = fact(st, lambda a: a.op == "eq" and any(size_p(sig)(x) for x in a.args), True)
                r.need(bool(ok) or bool(at_least(st, size_p(sig), 64)), "signature-length-checked", c, "a signature is read without its length having been checked", st)
            if isname(c, "ECDSA_do_verify") and len(c.args) >= 3:
                r.need(flows_from(c.args[0], data), "digest-of-data", c, "the digest verified is not that of the data", st)
                r.need(kit_whole(c.args[0], data) and exact(c.args[0], c.args[1]), "digest-of-data", c, "the digest verified is not that of all of the data", st)
            if isname(c, "ECDSA_SIG_set0") and len(c.args) >= 3:
                for a, off, nm in ((c.args[1], 0, "r"), (c.args[2], 32, "s")):
                    got = [offset(x.args[2][0]) for x in tm.closure(a) if x.op == "call" and isname(x, "BN_bin2bn")]
                    r.need(None if not got or any(g not in (0, 32) for g in got) else off in got, "signature-halves", c, "the %s value is taken from the wrong half of the signature" % nm, st)

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            r.need(bool(equal(st, size_p(sig), 64)), "signature-length-checked", at(fr, line), "a signature of another length is accepted", st)
            r.need(succeeded(st, "ECDSA_do_verify", "ECDSA_verify"), "verified-before-ok", at(fr, line), "a signature is accepted that was not found valid", st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/crypto", call=call, ret=ret, max_depth=3), [f])
    for f in fn_(ctx, "EcdsaP256R1Signer", "Sign"):
        data = P_(f, 0)

        def call(r, st, c):
            if isname(c, "ECDSA_do_sign", "ECDSA_sign") and c.args:
                r.need(flows_from(c.args[0], data), "digest-of-data", c, "the digest signed is not that of the data", st)
                if isname(c, "ECDSA_do_sign"):
                    r.need(kit_whole(c.args[0], data) and exact(c.args[0], c.args[1]), "digest-of-data", c, "the digest signed is not that of all of the data", st)
            if isname(c, "BN_bn2bin_padded") and len(c.args) == 3:
                off = tm._lin(c.args[0])[0]
                which = "r" if flows_from(c.args[2], call_p("ECDSA_SIG_get0_r")) else "s" if flows_from(c.args[2], call_p("ECDSA_SIG_get0_s")) else None
                r.need(None if which is None or off not in (0, 32) else (off == 0) == (which == "r"), "signature-halves", c, "the %s value is put into the wrong half of the signature" % which, st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/crypto", call=call, max_depth=3), [f])
    for f in fn_(ctx, "EcdsaP256R1SignatureVerifier", "Create"):
        pk = P_(f, 0)

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            r.need(succeeded(st, "EC_KEY_oct2key", "EC_POINT_oct2point"), "public-key-validated", at(fr, line), "a verifier is built from a public key that may not be a valid point", st)
        ctx.run(R(scope=r"^fcp/confidentialcompute/crypto", ret=ret, max_depth=3), [f])
    ctx.need("verified-before-ok")
    ctx.need("digest-of-data")


# ---- C06: client payload framing -----------------------------------------------------
def c06(ctx):
    enc = [f for f in ctx.db.funcs.values() if f.short == "EncodeClientPayload" and f.body]
    dec = [f for f in ctx.db.funcs.values() if f.short == "DecodeAndConsumeClientPayloadHeader" and f.body]
    if not enc or not dec:
        raise AnalysisError("anchor vanished: client payload encoding")
    OWN = NS + "ClientPayloadHeader::"
    ser = call_p("SerializeAsString", "SerializePartialAsString")
    wr, rd, magic = {}, {}, {"enc": set(), "dec": set()}
    need = set()
    for f in enc:
        for c in calls_in(f, *["set_" + k for k in ("encrypted_symmetric_key", "encapsulated_public_key", "blob_header")]):
            for x in walk(c):
                if x[0] == "fld" and str(x[1]).startswith(OWN):
                    need.add((sn(c[1])[4:], sn(x[1])))
        ct = P_(f, 1)

        def call(r, st, c):
            m = re.match(r"(set|mutable)_(\w+)$", c.short)
            if m and c.recvtype and "AggregationClientPayloadHeader" in c.recvtype and c.args:
                src = {sn(x.args[0]) for x in tm.closure(c.args[0]) if x.op == "fld" and x.args[0].startswith(OWN)}
                if c.args[0].op == "enum":
                    for a, v in st.facts.items():
                        if a.op == "fld" and a.args[0].startswith(OWN):
                            wr.setdefault(m.group(2), set()).add((sn(a.args[0]), sn(c.args[0].args[0]) if v else "!" + sn(c.args[0].args[0])))
                for y in src:
                    wr.setdefault(m.group(2), set()).add((y, None))
                    st.ts["set"] = tuple(sorted(set(st.ts.get("set", ())) | {(m.group(2), y)}))
            if re.match(r"WriteVarint|WriteLittleEndian|AppendVarint", c.short) and c.args:
                n = c.args[0]
                own = size_p(ser)(n) or call_p("ByteSizeLong")(n)
                cut = [x[1] for x in walk(c.node) if x[0] == "cast" and re.search(r"\b(char|short|u?int8_t|u?int16_t|bool)\b", str(x[1]))]
                r.need(not cut and (own or (False if tm.is_const(n) or flows_from(n, ct) or n.op == "lin" and has_sub(n, size_p(ser)) else None)),
                       "length-of-header", c, "the length written is not that of the encoded header", st)

        def ret(r, st, v, line, fr):
            w = at(fr, line)
            for k, y in sorted(need):
                bare = fact(st, lambda a: has_sub(a, lambda t: t.op == "fld" and sn(t.args[0]) == y) and (a.op == "fld" or has_sub(a, call_p("empty", "size")))) is not None and \
                    all(a.op == "eq" and p or a.op == "call" and isname(a, "empty") and p for a, p in st.facts.items() if has_sub(a, lambda t: t.op == "fld" and sn(t.args[0]) == y))
                r.need((k, y) in st.ts.get("set", ()) or bare, "members-written", w, "the header is encoded without its %s" % y, st)
            if not (v.op == "call" and isname(v, "absl::StrCat")):
                return r.need(None, "frame-order", w, "", st)
            p = list(v.args[2])
            ih = [i for i, x in enumerate(p) if ser(x) or has_sub(x, ser) and not size_p(ser)(x)]
            ic = [i for i, x in enumerate(p) if ct(x)]
            if not ic:
                return r.need(False, "frame-order", w, "the encoded payload leaves out the ciphertext", st)
            if not ih:
                return r.need(None if any(x.op in ("hav", "upd") for x in p) else False, "frame-order", w, "the encoded payload leaves out the header", st)
            r.need(ih[0] < ic[0] and ic[0] == len(p) - 1, "frame-order", w, "the parts of the encoded payload are out of order", st)
            if tm.is_const(p[0]):
                magic["enc"].add(tm.cval(p[0]))
            else:
                r.need(None if not ser(p[0]) else False, "frame-order", w, "the encoded payload does not start with the format marker", st)
        ctx.run(R(scope=SC, call=call, ret=ret, max_depth=3), [f])
    for f in dec:
        data = P_(f, 0)
        for n in walk(f.body):
            if n[0] == "op" and n[1] in ("+", "-", "*") and len(n) > 5 and any(x[0] == "call" and sn(str(x[1])) == "CurrentPosition" for x in walk(n)):
                ctx.check("header-fits", f.rel(), n[4], re.search(r"^(const )?(unsigned int|uint32_t)$", str(n[5])) is None or any(x[0] == "int" for x in n[2:4]), "a header length near the largest number wraps around before it is compared")

        def call(r, st, c):
            if c.short == "PushLimit" and c.args:
                n = c.args[0]
                ok = any(m.get(n) == -1 and any(size_p(data)(t) and q == 1 for t, q in m.items()) and any(q == -1 and call_p("CurrentPosition")(t) for t, q in m.items())
                         for m, k in bounds(st) if k <= 0) or any(call_p("BytesUntilLimit", "BytesUntilTotalBytesLimit")(t) and q == 1 and m.get(n) == -1 for m, k in bounds(st) for t, q in m.items())
                r.need(ok or (None if opaque(st, is_(n)) else False), "header-fits", c, "a header length larger than the remaining data is accepted", st)
                st.ts["limit"] = n
            if c.short == "remove_prefix" and isinstance(c.recv, T) and c.args and has_sub(c.recv, data):
                st.ts["rest"] = c.args[0]
            if c.short in ("ParseFromCodedStream", "MergeFromCodedStream"):
                r.need("limit" in st.ts, "header-bounded", c, "the header is parsed without being limited to its declared length", st)

        def write(r, st, place, val, line, fr):
            if val.op == "call" and isname(val, "substr") and has_sub(val.args[1], data):
                st.ts["rest"] = val

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            w = at(fr, line)
            a = fact(st, lambda a: call_p("StartsWith", "ConsumePrefix", "starts_with")(a), True)
            weak = fact(st, lambda a: call_p("StartsWithIgnoreCase", "StrContains", "EndsWith", "StrContainsIgnoreCase")(a) and has_sub(a, data), True)
            r.need(False if weak and not a else bool(a) or None if fact(st, lambda a: has_sub(a, data) and any(tm.is_const(x) and isinstance(tm.cval(x), str) for x in tm.subterms(a)), True) or a else False, "marker-checked", w,
                   "data without the format marker is accepted", st)
            if a:
                for x in tm.subterms(a[0]):
                    if tm.is_const(x) and isinstance(tm.cval(x), str):
                        magic["dec"].add(tm.cval(x))
            for nm, msg in (("ParseFromCodedStream", "the header"), ("ReadVarint", "the header's length")):
                r.need(bool(fact(st, lambda a: a.op == "call" and sn(a.args[0]).startswith(nm) or nm == "ParseFromCodedStream" and a.op == "call" and sn(a.args[0]).startswith("Parse"), True)),
                       "parse-failures-reported", w, "a payload is accepted although reading %s may have failed" % msg, st)
            rest = st.ts.get("rest")
            r.need(rest is not None and consumed(rest), "header-consumed", w, "not exactly the header is removed from the data", st)
            fs = fields_of(ctx, v)
            for nm, x in fs.items():
                for y in tm.subterms(x):
                    m = re.match(r"(mutable_|release_)?(encrypted_symmetric_key|encapsulated_public_key|blob_header|compression_type|\w+)$", sn(y.args[0])) if y.op == "call" else None
                    if y.op == "call" and y.args[1] is not None and "AggregationClientPayloadHeader::" in y.args[0]:
                        val = None
                        at_, pol = tm.as_atom(x)
                        if at_.op == "eq" and at_.args[0].op == "enum":
                            val = ("" if pol else "!") + sn(at_.args[0].args[0])
                        rd.setdefault(re.sub(r"^(mutable|release)_", "", sn(y.args[0])), set()).add((nm, val))
                        break
        ctx.run(R(scope=SC, call=call, write=write, ret=ret, max_depth=3), [f])
    ctx.need("frame-order")
    ctx.need("header-fits")
    d = dec[0]
    for k, ws in sorted(wr.items()):
        got = rd.get(k)
        if got is None:
            ctx.unknown("members-agree", d.rel(), d.line, "")
            continue
        names_w, names_r = {a for a, _ in ws}, {a for a, _ in got}
        ctx.check("members-agree", d.rel(), d.line, names_w == names_r, "%s is filled from %s but read into %s" % (k, sorted(names_w), sorted(names_r)))
        for a, v in got:
            if v and any(b == a and x is not None for b, x in ws):
                ctx.check("members-agree", d.rel(), d.line, (a, v) in ws, "%s is decoded with the wrong sense" % a)
    if magic["enc"] and magic["dec"]:
        ctx.check("marker-agrees", d.rel(), d.line, magic["enc"] == magic["dec"], "the marker written differs from the one expected")


def consumed(t):
    """The part taken off the front ends where reading stopped."""
    n = t
    if t.op == "call" and isname(t, "substr"):
        n = t.args[2][0] if t.args[2] else None
    if n is None or tm.is_const(n):
        return False
    c, m = tm._lin(n)
    pos = [(x, k) for x, k in m.items() if call_p("CurrentPosition")(x)]
    if len(m) == 1 and c == 0 and pos and pos[0][1] == 1:
        return True
    if any(k < 0 for _, k in pos):
        return False
    known = lambda x: x.op in ("out", "gvar") or size_p(lambda y: True)(x)
    if not pos and all(known(x) for x in m) and not has_sub(n, lambda x: x.op == "call" and re.match(r"VarintSize|BytesUntil", sn(x.args[0]))):
        return False            # the length of the length is left out or guessed
    return None


def fields_of(ctx, v):
    """Members of a returned aggregate, by short name."""
    for x in tm.subterms(v):
        if x.op in ("list", "ctor") and isinstance(x.args[0], str) and len(x.args) > 1 and x.args[0] in ctx.db.classes:
            c = ctx.db.classes[x.args[0]]
            if len(c["fields"]) == len(x.args[1]):
                return {f[0]: y for f, y in zip(c["fields"], x.args[1])}
    return {}
