"""Rules for what the client keeps on disk: cached resources, scratch files, statistics."""

import re

from fcx.kit import *
from rules.base import at, P_, const_of, of_type
from rules.client_run import proto_enum

CACHE = r"^fcp/client/cache/file_backed_resource_cache\.cc$"
CA_UNITS = [CACHE]
FSNAMES = ("remove", "remove_all", "unlink", "Delete", "DeleteFile")


def mut(t, *names):
    """The term is one of these parts of a message, obtained for writing."""
    return t.op == "call" and isname(t, *names)


def err_clear(st, call):
    """The error code a filesystem call filled in was looked at: True it was clear, False it was not."""
    f = fact(st, lambda a: a.op == "eq" and const_of_(a.args[0]) == 0 and has_sub(a.args[1], lambda t: t.op == "out" and t.args[0] is call))
    if f is not None:
        return f[1]
    f = fact(st, lambda a: a.op == "call" and isname(a, "operator bool") and has_sub(a, lambda t: t.op == "out" and t.args[0] is call))
    return None if f is None else not f[1]


def const_of_(t):
    return tm.cval(t) if tm.is_const(t) else None


# ---- E01: the resource cache ----------------------------------------------------------------
def e01(ctx):
    fs = [f for f in ctx.db.in_files(CACHE) if f.body is not None]
    puts = [f for f in fs if f.short == "Put"]
    gets = [f for f in fs if f.short == "Get"]
    if not puts or not gets:
        raise AnalysisError("anchor vanished: storing or looking up a resource")
    stale = lambda t: t.op == "call" and isname(t, "expiry_time")
    bykey = {f.key: f for f in fs}

    def below(f, seen):
        if f.key in seen:
            return seen
        seen.add(f.key)
        for n in walk(f.body):
            if n[0] == "call" and n[7] in bykey:
                below(bykey[n[7]], seen)
        return seen

    def clears(f):
        return any(list(calls_in(bykey[k], "expiry_time", "file_size")) for k in below(f, set()))
    cleaners = [bykey[n[7]] for f in puts for n in walk(f.body) if n[0] == "call" and n[7] in bykey and clears(bykey[n[7]])]

    def times(r, st, place, val, line, fr, age):
        t = place[1] if place[0] == "t" else None
        if t is None or not isinstance(t, T):
            return
        now = has_sub(val, call_p("Now"))
        if mut(t, "mutable_expiry_time"):
            sums = [tm._lin(t) for t in tm.subterms(val) if t.op == "lin"]
            exact = any(k == 0 and len(m) == 2 and set(m.values()) == {1} and any(age(x) for x in m) for k, m in sums) or not sums
            r.need(now and has_sub(val, age) and exact, "expires-when-asked", at(fr, line), "the resource does not expire at the age asked for", st)
            st.ts["exp"] = True
        elif mut(t, "mutable_last_accessed_time"):
            r.need(now and not has_sub(val, age), "use-remembered", at(fr, line), "the time of use is not the present time", st)
            st.ts["use"] = True
        elif mut(t, "mutable_metadata"):
            st.ts["meta"] = val

    for f in puts:
        pid, pres, pmeta, page = (P_(f, i) for i in range(4))
        names_id = lambda t: has_sub(t, pid)

        def checked(st):
            return fact(st, lambda a: has_sub(a, pid) and (has_sub(a, lambda t: t.op == "c" and const_of_(t) in ("/", ord("/"), "..")) or
                                                           has_sub(a, call_p("filename", "has_parent_path", "parent_path", "stem")) or a.op == "call" and any(has_sub(x, pid) for x in a.args[2]))) is not None

        def call(r, st, c):
            if isname(c, *FSNAMES) and c.args and names_id(c.args[0]):
                st.ts["rm"] = True
                r.need(checked(st), "stays-in-directory", c, "a file named by an unchecked id is removed", st)
            if isname(c, "set_file_name") and c.args:
                r.need(names_id(c.args[0]) or joined(c.args[0]) or None if joined(c.args[0]) else names_id(c.args[0]), "own-entry", c, "the entry names another file", st)
                st.ts["fn"] = True
            if isname(c, "WriteCordToFile", "WriteStringToFile"):
                st.ts["wr"] = True
                st.ts.pop("rm", None)
                r.need(names_id(c.args[0]), "own-entry", c, "the resource is written to another file than its entry names", st)
                r.need(c.args[1] is not None and pres(c.args[1]) or has_sub(c.args[1], pres) and None or False, "stored-whole", c, "something other than the resource is written", st)
                r.need(checked(st), "stays-in-directory", c, "a file named by an unchecked id is written", st)
                big = lambda t: t.op in ("size", "call") and has_sub(t, pres)
                lim = [a for a, p in st.facts.items() if has_sub(a, big) and has_sub(a, lambda t: t.op == "fld" and "max_cache_size" in t.args[0])]
                part = lambda t: has_sub(t, lambda x: x.op == "arith" and x.args[0] in ("/", ">>", "%", "&") and has_sub(x, big))
                r.need(any(a.op == "lt" and not any(part(x) for x in a.args) and (has_sub(a.args[1], big) and not st.facts[a] or has_sub(a.args[0], big) and st.facts[a]) for a in lim), "too-large-refused", c,
                       "a resource too large for the cache is stored", st)
                r.need(fact(st, lambda a: a.op == "ok" and a.args[0].op == "call" and isname(a.args[0], "Write"), True) is not None, "entry-before-file", c,
                       "the file is written although its entry is not on record", st)
                r.need(bool(st.ts.get("room")) or not cleaners and None or False, "room-made", c, "nothing makes room for the resource", st)
            if isname(c, "insert", "try_emplace", "emplace", "insert_or_assign") and c.recv is not None and has_sub(c.recv, call_p("mutable_cache")):
                k = next((t for a in c.args for t in tm.subterms(a) if pid(t)), None)
                r.need(k is not None or None, "own-entry", c, "the entry is kept under another id", st)
                r.need(isname(c, "insert_or_assign") or bool(st.ts.get("er")), "replaced", c, "an entry already there is kept instead of the new one", st)
                entry(r, st, c)
            if isname(c, "erase") and c.recv is not None and has_sub(c.recv, call_p("mutable_cache")):
                st.ts["er"] = True
            if any(c.name == k.name for k in cleaners) and any(has_sub(a, lambda t: t.op in ("size", "call") and has_sub(t, pres)) for a in c.args):
                st.ts["room"] = True

        def entry(r, st, c):
            m = st.ts.get("meta")
            r.need(m is not None and pmeta(m), "metadata-kept", c, "the metadata given is not in the entry", st)
            r.need(bool(st.ts.get("exp")), "expires-when-asked", c, "the entry never expires", st)
            r.need(bool(st.ts.get("use")), "use-remembered", c, "the entry has no time of use", st)
            r.need(bool(st.ts.get("fn")), "own-entry", c, "the entry names no file", st)

        def write(r, st, place, val, line, fr):
            times(r, st, place, val, line, fr, page)
            if place[0] == "i" and isinstance(place[1], T) and has_sub(place[1], call_p("mutable_cache")):
                r.need(has_sub(place[2], pid), "own-entry", at(fr, line), "the entry is kept under another id", st)
                r.need(True, "replaced", at(fr, line), "", st)
                entry(r, st, at(fr, line))

        def ret(r, st, v, line, fr):
            s = status_of(st, v)
            wrote = fact(st, lambda a: a.op == "ok" and a.args[0].op == "call" and isname(a.args[0], "WriteCordToFile", "WriteStringToFile"))
            there = fact(st, lambda a: a.op == "call" and isname(a, "exists"), True) is not None
            if s is not False:
                r.need(wrote is not None and wrote[1] or (None if there else False), "success-means-stored", at(fr, line), "success is reported although the resource was not written", st)
            if s is False and wrote is not None and not wrote[1]:
                r.need(bool(st.ts.get("rm")), "no-partial-file", at(fr, line), "a partly written file stays behind", st)
        ctx.run(R(scope=CACHE, call=call, write=write, ret=ret, stops=[re.escape(c.name) + "$" for c in cleaners]), [f])

    for f in gets:
        pid, page = P_(f, 0), P_(f, 1)
        rd = lambda t: t.op == "call" and isname(t, "ReadFileToCord", "ReadFileToString")

        def call2(r, st, c):
            if isname(c, "ReadFileToCord", "ReadFileToString"):
                r.need(has_sub(c.args[0], pid), "own-entry", c, "the file of another id is read", st)
                known = fact(st, lambda a: a.op == "haskey" and has_sub(a.args[0], call_p("cache", "mutable_cache")))
                r.need(known is not None and known[1] and has_sub(known[0].args[1], pid), "only-known", c, "a file without an entry is handed out", st)
            if isname(c, "insert", "insert_or_assign", "emplace") and c.recv is not None and has_sub(c.recv, call_p("mutable_cache")):
                r.need(bool(st.ts.get("er")) or isname(c, "insert_or_assign"), "use-remembered", c, "the entry already there is kept", st)
                st.ts["put"] = bool(st.ts.get("use"))
            if isname(c, "erase") and c.recv is not None and has_sub(c.recv, call_p("mutable_cache")):
                st.ts["er"] = True
                st.ts.pop("put", None)
            if isname(c, "Write") and st.ts.get("put"):
                st.ts["saved"] = True

        def write2(r, st, place, val, line, fr):
            times(r, st, place, val, line, fr, page)
            if place[0] == "t" and isinstance(place[1], T) and mut(place[1], "mutable_expiry_time"):
                r.need(fact(st, lambda a: a.op == "has" and has_sub(a, page), True) is not None, "expires-when-asked", at(fr, line), "the expiry is changed although no age was given", st)
            if place[0] == "i" and isinstance(place[1], T) and has_sub(place[1], call_p("mutable_cache")):
                st.ts["put"] = bool(st.ts.get("use"))

        def ret2(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            pos = at(fr, line)
            r.need(fact(st, lambda a: a.op == "ok" and rd(a.args[0]), True) is not None, "hit-means-read", pos, "a hit although the file could not be read", st)
            r.need(fact(st, lambda a: a.op == "haskey" and has_sub(a.args[1], pid), True) is not None, "only-known", pos, "a hit for an id that is not known", st)
            r.need(bool(st.ts.get("saved")) and fact(st, lambda a: a.op == "ok" and a.args[0].op == "call" and isname(a.args[0], "Write"), True) is not None,
                   "use-remembered", pos, "the use of the entry is not put on record", st)
            if fact(st, lambda a: a.op == "has" and has_sub(a, page), True) is not None:
                r.need(bool(st.ts.get("exp")), "expires-when-asked", pos, "the age asked for is ignored", st)
            if v.op in ("ctor", "list", "new"):
                r.need(has_sub(v, rd), "stored-whole", pos, "something other than the file's contents is handed out", st)
                r.need(has_sub(v, lambda t: t.op == "call" and isname(t, "metadata") and has_sub(t, pid)) or (None if has_sub(v, joined) else False), "metadata-kept", pos, "metadata of another entry is handed out", st)
        ctx.run(R(scope=CACHE, call=call2, write=write2, ret=ret2, stops=[re.escape(c.name) + "$" for c in cleaners]), [f])

    # clearing out: expired, missing, stranded, least recently used
    for f in cleaners or puts:
        purging, sweeping, scanning = set(), set(), set()

        def over(node):
            return node[0] in ("rfor", "for", "while")

        def call_0(r, st, c):
            if isname(c, "erase") and c.recv is not None and has_sub(c.recv, call_p("mutable_cache")):
                st.ts["er"] = True
            if isname(c, *FSNAMES) and c.args and has_sub(c.args[0], lambda t: t.op == "elem") and not has_sub(c.args[0], call_p("file_name")):
                st.ts["sw"] = True
            if scans(c):
                st.ts["sc"] = True

        def scans(c):
            return isname(c, "insert", "push_back", "emplace_back", "emplace") and c.args and has_sub(c.args[0], lambda t: t.op == "elem" and "directory_iterator" in str(t))

        def it_0(r, st, node, fr):
            if over(node):
                if st.ts.get("er"):
                    purging.add(id(node))
                if st.ts.get("sw"):
                    sweeping.add(id(node))
                if st.ts.get("sc"):
                    scanning.add(id(node))

        def loop_0(r, st, node, fr):
            if over(node):
                st.ts.pop("er", None)
                st.ts.pop("sw", None)
                st.ts.pop("sc", None)
        ctx.run(R(scope=CACHE, call=call_0, iter=it_0, loop=loop_0), [f])

        def loop3(r, st, node, fr):
            if over(node):
                for k in ("drop", "keep", "rm", "er", "scan"):
                    st.ts.pop(k, None)

        def reach3(r, st, node, fr):
            if id(node) in purging:
                st.ts["purged"] = True
            if id(node) in sweeping:
                st.ts["swept"] = True

        def of_entry(t):
            return has_sub(t, lambda x: x.op == "elem" and has_sub(x.args[0], call_p("cache", "mutable_cache")))

        def call3(r, st, c):
            if isname(c, "insert", "push_back", "emplace_back", "emplace") and c.args and any(a.op == "call" and isname(a, "get") and of_entry(a) or a.op == "fld" and of_entry(a) for a in c.args[:1]):
                st.ts["drop"] = True
            if scans(c):
                st.ts["scan"] = True
            if isname(c, "erase") and c.args and has_sub(c.args[0], lambda t: t.op == "call" and isname(t, "file_name")):
                st.ts["keep"] = True
            if isname(c, "erase") and c.recv is not None and has_sub(c.recv, call_p("mutable_cache")):
                st.ts["er"] = True
                if of_entry(c.args[0]):
                    st.ts["drop"] = True
            if isname(c, *FSNAMES) and c.args and has_sub(c.args[0], lambda t: t.op == "elem"):
                st.ts["rm"] = True

        def it3(r, st, node, fr):
            if not over(node):
                return
            pos = at(fr, node[1])
            exp = fact(st, lambda a: a.op == "lt" and has_sub(a, stale) and has_sub(a, call_p("Now")))
            there = fact(st, lambda a: a.op == "haskey" and has_sub(a, lambda t: t.op == "call" and isname(t, "file_name") and of_entry(t)))
            if exp is not None:
                late = exp[1] if has_sub(exp[0].args[0], stale) else None
                if late is None:
                    late = exp[1] is False or None
                if late:
                    r.need(bool(st.ts.get("drop")) and not st.ts.get("keep"), "expired-dropped", pos, "an expired entry stays", st)
                elif late is False and there is not None and there[1]:
                    r.need(not st.ts.get("drop") and bool(st.ts.get("keep")), "valid-kept", pos, "an entry that is valid is dropped", st)
            if st.ts.get("keep"):
                r.need(exp is not None, "expired-dropped", pos, "an entry stays whether it has expired or not", st)
                r.need(there is not None, "missing-dropped", pos, "an entry stays whether its file is there or not", st)
            if there is not None and not there[1]:
                r.need(bool(st.ts.get("drop")), "missing-dropped", pos, "an entry without a file stays", st)

            if id(node) in purging | sweeping | scanning and not any(n[0] == "call" and sn(n[1]) == "file_size" for n in walk(node)):
                r.need(not cut_short(node), "stranded-removed" if id(node) in sweeping | scanning else "expired-dropped", pos, "clearing out may stop before everything was looked at", st)
            if id(node) in purging:
                r.need(bool(st.ts.get("er")), "expired-dropped", pos, "an entry to be dropped stays", st)
            if id(node) in sweeping:
                r.need(bool(st.ts.get("rm")), "stranded-removed", pos, "a file no entry names stays", st)
            if id(node) in scanning:
                r.need(bool(st.ts.get("scan")), "stranded-removed", pos, "a file in the directory is overlooked", st)

        def ret3(r, st, v, line, fr):
            if status_of(st, v) is True:
                r.need(bool(st.ts.get("purged")), "expired-dropped", at(fr, line), "expired entries stay on record", st)
                r.need(bool(st.ts.get("swept")), "stranded-removed", at(fr, line), "files no entry names stay", st)
        ctx.run(R(scope=CACHE, call=call3, loop=loop3, reach=reach3, iter=it3, ret=ret3), [f])
        limits(ctx, f)
    for k in ("own-entry", "success-means-stored", "expires-when-asked", "hit-means-read", "expired-dropped"):
        ctx.need(k)


def limits(ctx, f):
    """Entries are given up, oldest first, until the rest fits in with what is to be added."""
    lim = lambda t: has_sub(t, lambda x: x.op == "fld" and "max_cache_size" in x.args[0])
    room = [p[1] for p in f.params if "optional" in p[2] or re.search(r"\bint64|long", p[2])]
    ranks = set()

    def write(r, st, place, val, line, fr):
        if place[0] == "v" and val.op == "call" and isname(val, "max", "min") and has_sub(val, call_p("file_size")):
            r.need(False, "size-limited", at(fr, line), "the size of the cache is not the sum of its files", st)

    def loop(r, st, node, fr):
        if node[0] in ("rfor", "for", "while"):
            for k in ("er", "rm"):
                st.ts.pop(k, None)

    def call(r, st, c):
        if isname(c, "erase") and c.recv is not None and has_sub(c.recv, call_p("mutable_cache")):
            st.ts["er"] = True
        if isname(c, *FSNAMES) and c.args and has_sub(c.args[0], call_p("file_name")):
            st.ts["rm"] = True
        if isname(c, "sort", "stable_sort"):
            st.ts["sorted"] = True
            st.ts["rev"] = has_sub(c.args[0], call_p("rbegin"))
        if isname(c, "min_element", "top", "push_heap", "make_heap", "partial_sort", "nth_element"):
            st.ts["ranked"] = True
        if isname(c, "emplace_back", "push_back", "insert", "emplace") and any(has_sub(a, call_p("last_accessed_time", "expiry_time")) for a in c.args):
            r.need(any(has_sub(a, call_p("last_accessed_time")) for a in c.args), "oldest-use-first", c, "entries are ranked by something other than their last use", st)
            for a in c.args:
                for t in tm.subterms(a):
                    if t.op in ("call", "ctor", "list") and re.search(r"\b(make_pair|pair)\b", str(t.args[0])):
                        ps = [x for x in (t.args[2] if t.op == "call" else t.args[1]) if isinstance(x, T)]
                        if len(ps) == 2:
                            ranks.update(n for n, x in zip(("first", "second"), ps) if has_sub(x, call_p("last_accessed_time")))

    def lamval(r, st, v, fr, node):
        a, p = tm.as_atom(v)
        names = [x[1] for x in node[3]]
        if a.op == "lt" and len(names) == 2 and p:
            of = [[i for i, n in enumerate(names) if has_sub(x, lambda t: t.op == "param" and t.args[0] == n)] for x in a.args]
            if sorted(of) == [[0], [1]] and ranks:
                by = {sn(t.args[0]) for x in a.args for t in tm.subterms(x) if t.op == "fld" and sn(t.args[0]) in ("first", "second")}
                r.need(not by or by <= ranks, "oldest-use-first", at(fr, node[1]), "entries are ranked by something other than their last use", st)
            if sorted(of) == [[0], [1]]:
                r.need((of[0] == [0]) != bool(st.ts.get("rev")), "oldest-use-first", at(fr, node[1]), "the entries used last are given up first", st)

    def branch(r, st, atom, pol, line, fr):
        if atom.op == "lt" and any(lim(a) for a in atom.args) and any(joined(x) or x.op == "lin" for x in atom.args):
            low = lim(atom.args[0])     # limit < size
            over = pol if low else not pol
            m = atom.args[0] if low else atom.args[1]
            if room:
                r.need(has_sub(m, lambda t: t.op in ("param", "p") and t.args[0] in room) or has_sub(m, call_p("value_or", "value")) or (None if has_sub(m, joined) else False), "room-made", at(fr, line),
                       "the space to be taken is not set aside", st)
            shrunk = any(has_sub(a, call_p("file_size")) for a in atom.args)
            if shrunk:
                r.need(bool(st.ts.get("sorted")) or (None if st.ts.get("ranked") else False), "oldest-use-first", at(fr, line), "entries are given up in no particular order", st)
                r.need(bool(st.ts.get("er")) and bool(st.ts.get("rm")), "evicted-entirely", at(fr, line), "an entry given up keeps its record or its file", st)
            st.ts["fits"] = not over
            st.ts["seen"] = True

    def ret(r, st, v, line, fr):
        if status_of(st, v) is True:
            r.need(bool(st.ts.get("seen")), "size-limited", at(fr, line), "the size is not held against the limit", st)
    ctx.run(R(scope=CACHE, call=call, loop=loop, branch=branch, lamval=lamval, ret=ret, write=write), [f])


# ---- E02: scratch files -----------------------------------------------------------------------
TEMP = r"^fcp/client/cache/temp_files\.(cc|h)$"
TF_UNITS = [r"^fcp/client/cache/temp_files\.cc$"]
O_CREAT, O_EXCL, EEXIST = 0o100, 0o200, 17


def sweeps(ctx, f, scope):
    """Loops of f (and its helpers) that remove the files of a directory."""
    out = set()

    def call(r, st, c):
        if isname(c, *FSNAMES) and c.args and has_sub(c.args[0], lambda t: t.op == "elem"):
            st.ts["rm"] = True

    def loop(r, st, node, fr):
        st.ts.pop("rm", None)

    def it(r, st, node, fr):
        if st.ts.get("rm"):
            out.add(id(node))
    ctx.run(R(scope=scope, call=call, loop=loop, iter=it), [f])
    return out


def e02(ctx):
    fs = [f for f in ctx.db.in_files(TEMP) if f.body is not None]
    makers = [f for f in fs if f.short == "CreateTempFile"]
    creates = [f for f in fs if f.short == "Create"]
    ends = [f for f in fs if f.short.startswith("~")]
    if not makers or not creates or not ends:
        raise AnalysisError("anchor vanished: creating or removing scratch files")
    for f in makers:
        def opens(t):
            return t.op == "call" and isname(t, "open", "open64", "mkstemp", "mkstemps")

        def call(r, st, c):
            if isname(c, "open", "open64"):
                fl = const_of(ctx, c.args[1])
                r.need(None if not isinstance(fl, int) else bool(fl & O_CREAT) and bool(fl & O_EXCL), "never-shared", c, "a file that is already there is taken for a new one", st)
                r.need(has_sub(c.args[0], lambda t: t.op == "fld") and not has_sub(c.args[0], call_p("parent_path", "root_path", "root_directory", "root_name")), "in-own-directory", c, "the file is not created in the directory for scratch files", st)
                st.ts["open"] = True
            if isname(c, "mkstemp", "mkstemps"):
                st.ts["open"] = True
            if isname(c, "close"):
                st.ts["closed"] = True

        def ret(r, st, v, line, fr):
            if status_of(st, v) is False:
                return
            pos = at(fr, line)
            r.need(bool(st.ts.get("open")), "never-shared", pos, "a file is handed out that was not created anew", st)
            bad = fact(st, lambda a: a.op in ("eq", "lt") and has_sub(a, opens) and not has_sub(a, call_p("__errno_location")))
            failed = None
            if bad is not None:
                a, p = bad
                c0, c1 = (const_of(ctx, x) for x in a.args)
                if a.op == "eq" and -1 in (c0, c1):
                    failed = p
                elif a.op == "lt" and c1 == 0:
                    failed = p
                elif a.op == "lt" and c0 == -1:
                    failed = not p
            exists = fact(st, lambda a: a.op == "eq" and any(const_of(ctx, x) == EEXIST for x in a.args) and has_sub(a, call_p("__errno_location")))
            ok = (failed is False or exists is not None and exists[1] is False) if bad is not None else False
            r.need(ok, "never-shared", pos, "a file that was already there is handed out", st)
            r.need(has_sub(v, lambda t: t.op == "fld") or (None if has_sub(v, joined) else False), "in-own-directory", pos, "the file handed out is not in the directory for scratch files", st)
            good = fact(st, lambda a: a.op == "ctor" and "stream" in str(a.args[0]) or a.op == "call" and isname(a, "good", "is_open", "fail", "operator!", "operator bool"))
            if good is None:
                r.need(failed is False, "created-or-error", pos, "a file that could not be created is handed out", st)
            else:
                neg = good[0].op == "call" and isname(good[0], "fail", "operator!")
                r.need(good[1] != neg, "created-or-error", pos, "a file that could not be created is handed out", st)
            if failed is False:
                r.need(bool(st.ts.get("closed")), "descriptor-closed", pos, "the descriptor of the new file is never closed", st)
        ctx.run(R(scope=TEMP, call=call, ret=ret), [f])

    for f in creates + ends:
        loops = sweeps(ctx, f, TEMP)

        def reach(r, st, node, fr):
            if id(node) in loops:
                st.ts["swept"] = True

        def loop(r, st, node, fr):
            if id(node) in loops:
                st.ts.pop("rm", None)

        def call2(r, st, c):
            if isname(c, *FSNAMES) and c.args and has_sub(c.args[0], lambda t: t.op == "elem"):
                st.ts["rm"] = True
            if isname(c, "remove_all"):
                st.ts["swept"] = True
            if isname(c, "create_directories", "create_directory"):
                r.need(fact(st, lambda a: a.op == "call" and isname(a, "is_absolute"), True) is not None, "absolute-path", c, "a directory is made at a place that depends on the working directory", st)

        def it(r, st, node, fr):
            if id(node) in loops:
                r.need(bool(st.ts.get("rm")), "all-removed", at(fr, node[1]), "a file left over is not removed", st)
                r.need(not cut_short(node), "all-removed", at(fr, node[1]), "removing may stop before every file was looked at", st)
                err = fact(st, lambda a: a.op == "call" and isname(a, *FSNAMES), False)
                kept = fact(st, lambda a: a.op == "ok" and joined(a.args[0]))
                if err is not None and f in creates:
                    st.ts["failed"] = True

        def ret2(r, st, v, line, fr):
            pos = at(fr, line)
            if f in ends:
                gone = fact(st, lambda a: a.op == "call" and isname(a, "exists"), False) is not None
                r.need(bool(st.ts.get("swept")) or gone, "all-removed", pos, "scratch files are left behind at the end", st)
                return
            if status_of(st, v) is False:
                return
            r.need(bool(st.ts.get("swept")), "all-removed", pos, "what an earlier run left behind is not removed", st)
            for a, p in st.facts.items():
                if a.op == "eq" and const_of(ctx, a.args[0]) == 0 and has_sub(a.args[1], lambda t: t.op == "out" and t.args[0].op == "call" and isname(t.args[0], "create_directories")):
                    r.need(p, "created-or-error", pos, "success is reported although the directory could not be made", st)
            r.need(fact(st, lambda a: a.op == "call" and isname(a, "is_absolute"), True) is not None, "absolute-path", pos, "a relative directory is accepted", st)
            okf = fact(st, lambda a: a.op == "ok" and joined(a.args[0]))
            r.need(okf is not None and okf[1] or None if okf is None else okf[1], "leftovers-noticed", pos, "success is reported although files could not be removed", st)
        ctx.run(R(scope=TEMP, call=call2, loop=loop, reach=reach, iter=it, ret=ret2), [f])
    # a failure to remove one file is remembered over the others
    for f in fs:
        if not any(n[0] == "rfor" for n in walk(f.body)) or not list(calls_in(f, *FSNAMES)):
            continue

        def write(r, st, place, val, line, fr):
            if place[0] == "v" and okness(val) is False:
                st.ts["noted"] = True

        def it4(r, st, node, fr):
            err = fact(st, lambda a: a.op == "call" and isname(a, *FSNAMES), False)
            was = fact(st, lambda a: a.op == "ok" and joined(a.args[0]), False)
            if err is not None:
                r.need(bool(st.ts.get("noted")) or was is not None, "leftovers-noticed", at(fr, node[1]), "a file that could not be removed goes unnoticed", st)

        def loop4(r, st, node, fr):
            st.ts.pop("noted", None)
        ctx.run(R(scope=TEMP, write=write, iter=it4, loop=loop4), [f])
    for k in ("never-shared", "all-removed", "created-or-error"):
        ctx.need(k)


# ---- E03: the record of a run -----------------------------------------------------------------
OPS = r"^fcp/client/opstats/"
OL_UNITS = [r"^fcp/client/opstats/opstats_logger_impl\.cc$"]
PHASE_DATA = ("add_events", "set_task_name", "set_error_message", "mutable_dataset_stats", "set_bytes_downloaded", "set_bytes_uploaded",
              "set_chunking_layer_bytes_downloaded", "set_chunking_layer_bytes_uploaded", "mutable_network_duration")


def spread(t, k=1):
    """Summands of a value, with members and conversions distributed over sums."""
    if not isinstance(t, T):
        return [(k, t)]
    if t.op == "lin":
        out = [] if not t.args[0] else [(k * t.args[0], None)]
        for c, x in t.args[1]:
            out += spread(x, k * c)
        return out
    if t.op == "fld" and isinstance(t.args[1], T) and t.args[1].op == "lin":
        return [(k * c, tm.mk("fld", t.args[0], x)) for c, x in t.args[1].args[1]]
    if t.op == "call" and t.args[1] is None and len(t.args[2]) == 1 and re.match(r"Convert|To", sn(t.args[0])):
        return spread(t.args[2][0], k)
    return [(k, t)]


def in_phase(st):
    p = fact(st, lambda a: a.op == "eq" and any(const_of_(x) == 0 for x in a.args) and any(call_p("phase")(x) for x in a.args))
    if p is not None:
        return not p[1]
    if fact(st, lambda a: a.op == "fld" and a.args[1] is THIS, False) is not None:
        return False
    return None


def par(f, regex):
    """Test for the parameters of f whose type matches."""
    ns = {p[1] for p in f.params if re.search(regex, p[2])}
    return lambda t: t.op == "param" and t.args[0] in ns


def e03(ctx):
    fs = [f for f in ctx.db.in_files(OPS) if f.body is not None]
    logs = [f for f in fs if any("OpStatsLogger::" in o for o in f.overrides)]
    if not logs:
        raise AnalysisError("anchor vanished: the recorder of a run")
    cls = {f.cls for f in logs}
    kw = {"scope": OPS, "stops": [r"OpStatsDb::Transform$"]}
    STR = r"basic_string<|string_view"

    def phase_call(r, st, c):
        if sn(c.name) in PHASE_DATA and "OperationalStats" in c.name:
            ph = in_phase(st)
            if "PhaseStats::" in c.name:
                r.need(ph is True, "own-phase", c, "what happens outside any phase is put down to a phase", st)
            else:
                r.need(ph is False, "own-phase", c, "what happens in a phase is not put down to that phase", st)

    for f in logs:
        events = par(f, r"EventKind$")
        strings = par(f, STR)
        has_event = any(re.search(r"EventKind$", p[2]) for p in f.params)
        tasks = f.short == "AddEventAndSetTaskName"
        errors = f.short == "AddEventWithErrorMessage"
        numbers = par(f, r"^(int|long|int64_t|std::int64_t)$")

        def call(r, st, c):
            phase_call(r, st, c)
            if isname(c, "add_events"):
                r.need(not st.ts.get("event"), "each-once", c, "one event is recorded twice", st)
                st.ts["event"] = True
            if isname(c, "set_event_type"):
                r.need(bool(events(c.args[0])), "each-once", c, "another event than the one that happened is recorded", st)
                st.ts["kind"] = True
            if isname(c, "set_task_name"):
                r.need(strings(c.args[0]), "task-named", c, "the task name recorded is not the one given", st)
                st.ts["task"] = True
            if isname(c, "set_error_message"):
                def own(t):
                    return t.op == "call" and isname(t, "error_message") and t.args[1] is not None and base_field(t.args[1]) in (base_field(c.recv), None)
                none = fact(st, lambda a: a.op == "eq" and has_sub(a, own), True)
                r.need(none is not None, "first-error-kept", c, "an error message recorded earlier is replaced", st)
                r.need(strings(c.args[0]), "first-error-kept", c, "the error message recorded is not the one given", st)
                st.ts["error"] = True
            for what, n in (("num_examples_read", 0), ("num_bytes_read", 1)):
                if isname(c, "set_" + what):
                    parts = spread(c.args[0])
                    old = [x for k, x in parts if k == 1 and isinstance(x, T) and x.op == "call" and isname(x, what)]
                    new = [x for k, x in parts if k == 1 and isinstance(x, T) and x.op == "param"]
                    r.need(len(parts) == 2 and len(old) == 1 and len(new) == 1, "counts-add-up", c, "the count of what was read is not increased by what was read now", st)
                    if len(new) == 1:
                        ns = [p[1] for p in f.params if not re.search(STR, p[2])]
                        r.need(new[0].args[0] == ns[n] if len(ns) == 2 else None, "counts-add-up", c, "bytes and examples are mixed up", st)
                    r.need(has_sub(c.recv, strings), "counts-add-up", c, "what was read is put down to another collection", st)
                    st.ts[what] = True
            for what in ("bytes_downloaded", "bytes_uploaded"):
                if isname(c, "set_" + what):
                    traffic(r, st, c, spread(c.args[0]), what)
                if isname(c, "set_chunking_layer_" + what):
                    v = c.args[0]
                    r.need(v.op == "fld" and isname(v, what) and v.args[1].op == "param", "counts-add-up", c, "the traffic recorded is not what was measured", st)
                    st.ts[what] = True
            if isname(c, "clear_retry_token"):
                st.ts["cleared"] = True
            if isname(c, "Transform") and "OpStatsDb" in c.name:
                st.ts["stored"] = True

        def traffic(r, st, pos, parts, what):
            old = [x for k, x in parts if k == 1 and isinstance(x, T) and x.op == "call" and isname(x, what)]
            new = [x for k, x in parts if k == 1 and isinstance(x, T) and x.op == "fld" and isname(x, what) and x.args[1].op == "param"]
            seen = [x for k, x in parts if k == -1 and isinstance(x, T) and x.op == "fld" and isname(x, what) and x.args[1].op == "fld"]
            r.need(len(parts) == 3 and len(old) == len(new) == len(seen) == 1, "counts-add-up", pos, "the traffic of a phase is not increased by what is new since the last report", st)
            st.ts[what] = True
            st.ts["running"] = True

        def write(r, st, place, val, line, fr):
            pos = at(fr, line)
            if place[0] == "t" and place[1].op == "call" and isname(place[1], "mutable_timestamp") and has_sub(place[1], call_p("add_events")):
                st.ts["time"] = True
            if place[0] == "t" and place[1].op == "call" and isname(place[1], "mutable_network_duration"):
                if "PhaseStats" in place[1].args[0]:
                    traffic(r, st, pos, spread(val), "network_duration")
                else:
                    v = val.args[2][0] if val.op == "call" and val.args[2] else val
                    r.need(v.op == "fld" and isname(v, "network_duration") and v.args[1].op == "param", "counts-add-up", pos, "the time on the network recorded is not what was measured", st)
                    st.ts["network_duration"] = True
            if place[0] == "f" and place[1] is THIS and val.op == "param" and any(re.search("NetworkStats", p[2]) for p in f.params):
                st.ts["mark"] = True
            if place[0] == "i" and place[1].op in ("fld", "upd") and base_field(place[1]) and any(re.search(r"absl::Time$", p[2]) for p in f.params):
                new = fact(st, lambda a: a.op == "haskey", False)
                r.need(new is not None, "first-access-kept", pos, "a later access replaces the time of the first one", st)
                st.ts["access"] = True
            if place[0] == "t" and place[1].op == "call" and isname(place[1], "mutable_retry_window"):
                r.need(has_sub(val, lambda t: t.op == "upd" and isname(t, "clear_retry_token")), "token-dropped", pos, "the retry token is kept in the record", st)
                st.ts["window"] = True

        def ret(r, st, v, line, fr):
            pos = at(fr, line)
            if has_event:
                r.need(bool(st.ts.get("event")) and bool(st.ts.get("kind")), "each-once", pos, "an event goes unrecorded", st)
                r.need(bool(st.ts.get("time")), "each-once", pos, "an event is recorded without its time", st)
            if tasks:
                r.need(bool(st.ts.get("task")), "task-named", pos, "the task name is not recorded", st)
            if errors and not st.ts.get("error"):
                had = fact(st, lambda a: a.op == "eq" and has_sub(a, call_p("error_message")), False)
                r.need(had is not None, "first-error-kept", pos, "the first error message is not recorded", st)
            if f.short == "UpdateDatasetStats":
                r.need(bool(st.ts.get("num_examples_read")) and bool(st.ts.get("num_bytes_read")), "counts-add-up", pos, "what was read is not counted", st)
            if any(re.search("NetworkStats", p[2]) for p in f.params):
                r.need(all(st.ts.get(k) for k in ("bytes_downloaded", "bytes_uploaded", "network_duration")), "counts-add-up", pos, "some of the traffic is not recorded", st)
                if st.ts.get("running"):
                    r.need(bool(st.ts.get("mark")), "counts-add-up", pos, "the traffic already put down to a phase is counted again with the next report", st)
            if any(re.search(r"absl::Time$", p[2]) for p in f.params):
                r.need(bool(st.ts.get("access")) or fact(st, lambda a: a.op == "haskey", True) is not None, "first-access-kept", pos, "the first access is not recorded", st)
            if any(re.search(r"RetryWindow$", p[2]) for p in f.params):
                r.need(bool(st.ts.get("window")) and bool(st.ts.get("cleared")), "token-dropped", pos, "the retry window is not recorded without its token", st)
        ctx.run(R(call=call, write=write, ret=ret, **kw), [f])

    # arithmetic on traffic counts
    for f in ctx.db.in_files(r"^fcp/client/stats\.h$"):
        if f.body is None or f.short not in ("operator-", "operator+") or "NetworkStats" not in str(f.cls):
            continue

        def ret9(r, st, v, line, fr):
            if v.op != "list":
                r.need(None, "counts-add-up", at(fr, line), "", st)
                return
            want = -1 if f.short == "operator-" else 1
            names = set()
            for x in v.args[1]:
                ps = spread(x)
                mine = [y for k, y in ps if k == 1 and isinstance(y, T) and y.op == "fld" and y.args[1] is THIS]
                other = [y for k, y in ps if isinstance(y, T) and y.op == "fld" and y.args[1].op == "param"]
                ok = len(ps) == 2 and len(mine) == 1 and len(other) == 1 and sn(mine[0].args[0]) == sn(other[0].args[0]) and (want, other[0]) in ps
                r.need(ok, "counts-add-up", at(fr, line), "traffic counts are combined wrongly", st)
                if mine:
                    names.add(sn(mine[0].args[0]))
            r.need(len(names) == len(v.args[1]), "counts-add-up", at(fr, line), "traffic counts are mixed up", st)
        ctx.run(R(scope=r"^fcp/client/stats\.h$", ret=ret9), [f])

    # phases
    for f in logs:
        if not any("PhaseStats" in p[2] for p in f.params) and f.short != "StopLoggingForTheCurrentPhase":
            continue

        def fresh(v):
            return v.op in ("ctor", "list", "call") and "PhaseStats" in str(v.args[0]) and not has_sub(v, lambda t: t.op == "fld")

        def write5(r, st, place, val, line, fr):
            if place[0] == "t" and place[1].op == "call" and isname(place[1], "add_phase_stats"):
                r.need(val.op == "fld" or None, "phases-kept", at(fr, line), "", st)
                st.ts["pushed"] = True
            if place[0] == "f" and place[1] is THIS and fresh(val):
                r.need(bool(st.ts.get("pushed")) or in_phase(st) is False, "phases-kept", at(fr, line), "the record of a phase is thrown away", st)
                st.ts["reset"] = True

        def call5(r, st, c):
            if isname(c, "Clear") and c.recv is not None and base_field(c.recv) and in_phase(st):
                r.need(bool(st.ts.get("pushed")), "phases-kept", c, "the record of a phase is thrown away", st)
                st.ts["reset"] = True
            if isname(c, "Swap", "swap"):
                st.ts["reset"] = st.ts["pushed"] = True
            if isname(c, "set_phase"):
                r.need(c.args[0].op == "param", "phases-kept", c, "another phase than the one that begins is recorded", st)
                r.need(bool(st.ts.get("reset")) or in_phase(st) is False, "phases-kept", c, "two phases are recorded as one", st)
                st.ts["set"] = True

        def ret5(r, st, v, line, fr):
            pos = at(fr, line)
            if in_phase(st):
                r.need(bool(st.ts.get("pushed")) and bool(st.ts.get("reset")), "phases-kept", pos, "the record of a phase that has ended is lost or counted again", st)
            if any("PhaseStats" in p[2] for p in f.params):
                off = fact(st, lambda a: a.op == "fld" and a.args[1] is THIS, False)
                r.need(bool(st.ts.get("set")) or off is not None, "phases-kept", pos, "the new phase is not begun", st)
        ctx.run(R(write=write5, call=call5, ret=ret5, **kw), [f])

    # storing
    commits = [f for f in logs if list(calls_in(f, "Transform"))] or [f for f in logs if f.short == "CommitToStorage"]
    ends = [f for f in fs if f.short.startswith("~") and f.cls in cls]
    if not commits or not ends:
        raise AnalysisError("anchor vanished: storing the record of a run")
    for f in commits + ends:
        flags = set()

        def wpre(r, st, place, val, line, fr):
            if place[0] == "f" and place[1] is THIS and val is tm.TRUE:
                flags.add(place[2])
        ctx.run(R(write=wpre, **kw), [f])

        def done(st):
            x = fact(st, lambda a: a.op == "fld" and a.args[0] in flags)
            return None if x is None else x[1]

        def write6(r, st, place, val, line, fr):
            pos = at(fr, line)
            if place[0] == "t" and place[1].op == "call" and isname(place[1], "add_phase_stats"):
                st.ts["phase"] = True
            if place[0] == "t" and place[1].op == "call" and isname(place[1], "add_opstats", "mutable_opstats"):
                if isname(place[1], "add_opstats"):
                    none = fact(st, lambda a: a.op == "eq" and any(const_of_(x) == 0 for x in a.args) and has_sub(a, call_p("opstats", "opstats_size")), True)
                    r.need(done(st) is False or none is not None, "one-entry-per-run", pos, "a run that is in the store already is stored a second time", st)
                else:
                    r.need(done(st) is True, "one-entry-per-run", pos, "the record of another run is overwritten", st)
                    i = place[1].args[2][0]
                    last = i.op == "lin" and i.args[0] == -1 and has_sub(i, call_p("size", "opstats_size"))
                    r.need(last, "one-entry-per-run", pos, "the record of another run is overwritten", st)
                r.need(base_field(val) is not None or (None if has_sub(val, joined) else False), "one-entry-per-run", pos, "something else than the record of this run is stored", st)
                if in_phase(st):
                    r.need(has_sub(val, lambda t: t.op == "upd" and isname(t, "add_phase_stats")) and bool(st.ts.get("phase")), "phase-included", pos, "the phase under way is missing from what is stored", st)
            if place[0] == "f" and place[2] in flags and val is tm.TRUE:
                okd = fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("Transform")), True)
                r.need(okd is not None, "one-entry-per-run", pos, "a run is taken for stored although storing it failed", st)

        def call6(r, st, c):
            if isname(c, "Transform"):
                st.ts["stored"] = True

        def ret6(r, st, v, line, fr):
            pos = at(fr, line)
            r.need(bool(st.ts.get("stored")), "stored-at-end" if f in ends else "one-entry-per-run", pos, "the record of the run is not stored", st)
            if f in commits:
                r.need(True if v.op == "call" and isname(v, "Transform") else status_of(st, v) is False or (None if has_sub(v, joined) else False), "failure-reported", pos, "storing is reported as done although it may have failed", st)
                good = fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("Transform")), True)
        ctx.run(R(write=write6, call=call6, ret=ret6, **kw), [f])
        if f in commits:
            ctx.check("one-entry-per-run", f.rel(), f.line, bool(flags), "whether the run is in the store already is never remembered")

    # the current task
    for f in logs:
        if f.short != "GetCurrentTaskName":
            continue

        def ret7(r, st, v, line, fr):
            if v.op == "call" and isname(v, "task_name"):
                own = "PhaseStats" in v.args[0] and v.args[1] is not None and v.args[1].op == "fld"
                if "PhaseStats" in v.args[0] and not own:
                    cur = fact(st, lambda a: a.op == "eq" and has_sub(a, lambda t: call_p("task_name")(t) and t.args[1].op == "fld"), True)
                    r.need(cur is not None, "latest-task", at(fr, line), "an earlier task is named although a later one is known", st)
        ctx.run(R(ret=ret7, **kw), [f])
        for n in walk(f.body):
            if n[0] in ("rfor", "for") and any(m[0] == "ret" for m in walk(n)):
                back = any(isname_(m, "reverse", "Reversed", "rbegin", "crbegin") for m in walk(n))
                front = n[0] == "rfor" or any(isname_(m, "begin", "cbegin") for m in walk(n))
                ctx.check("latest-task", f.rel(), n[1], back or not front, "the task of the earliest phase is named")
    for k in ("own-phase", "each-once", "counts-add-up", "one-entry-per-run", "phases-kept", "phase-included", "token-dropped", "first-error-kept", "stored-at-end"):
        ctx.need(k)


def isname_(n, *names):
    return n[0] == "call" and sn(n[1]) in names


# ---- E04: the store of run records ------------------------------------------------------------
OD_UNITS = [r"^fcp/client/opstats/pds_backed_opstats_db\.cc$"]
LOCK_EX = 2


def failed_of(ctx, st, names):
    """Whether a system call that answers -1 on failure has failed on the path."""
    for a, p in st.facts.items():
        if a.op not in ("lt", "eq") or not any(isinstance(x, T) and x.op == "call" and isname(x, *names) for x in a.args):
            continue
        l, r = a.args
        cl, cr = const_of(ctx, l), const_of(ctx, r)
        if a.op == "lt":
            if cl == -1:
                return not p
            if cr == 0:
                return p
        elif -1 in (cl, cr):
            return p
        elif 0 in (cl, cr) and p:
            return False
        elif 0 in (cl, cr):
            return True
    return None


def e04(ctx):
    fs = [f for f in ctx.db.in_files(OPS) if f.body is not None]
    reads = [f for f in fs if any(o.endswith("OpStatsDb::Read") for o in f.overrides)]
    trans = [f for f in fs if any(o.endswith("OpStatsDb::Transform") for o in f.overrides)]
    cls = {f.cls for f in trans}
    creates = [f for f in fs if f.short == "Create" and f.cls in cls]
    ends = [f for f in fs if f.short.startswith("~") and f.cls in cls]
    if not reads or not trans or not creates or not ends:
        raise AnalysisError("anchor vanished: the store of run records")

    def store(c, name):
        return isname(c, name) and "ProtoDataStore" in c.name

    def entered(st):
        x = fact(st, lambda a: a.op == "fld" and isname(a, "second") and has_sub(a, call_p("insert", "emplace")))
        return None if x is None else x[1]

    # one user at a time
    for f in creates:
        def call(r, st, c):
            if isname(c, "insert", "emplace") and c.recv is not None and root(c.recv).op == "gvar":
                st.ts["listed"] = True
            if isname(c, "erase") and c.recv is not None and has_sub(c.recv, lambda t: t.op == "gvar"):
                r.need(entered(st) is not False, "one-user", c, "the entry of another user of the store is removed", st)
                st.ts["unlisted"] = True
            if isname(c, "flock"):
                fl = const_of(ctx, c.args[1])
                r.need(None if not isinstance(fl, int) else bool(fl & LOCK_EX), "one-user", c, "the lock on the store lets others in", st)
            if isname(c, "close"):
                st.ts["closed"] = True
            if isname(c, "create_directories", "create_directory", "open"):
                r.need(fact(st, lambda a: a.op == "call" and isname(a, "is_absolute"), True) is not None, "absolute-path", c, "the store is made at a place that depends on the working directory", st)
            if store(c, "Write"):
                empty = fact(st, lambda a: a.op == "eq" and any(const_of(ctx, x) == 0 for x in a.args) and has_sub(a, call_p("GetFileSize")), True)
                r.need(empty is not None, "history-kept", c, "opening the store wipes what is in it", st)
                st.ts["init"] = True

        def ret(r, st, v, line, fr):
            if fr.func is not f:
                return
            pos = at(fr, line)
            if status_of(st, v) is False:
                if entered(st):
                    r.need(bool(st.ts.get("unlisted")), "lock-released", pos, "the store stays in use after it could not be opened", st)
                if failed_of(ctx, st, ("open", "open64")) is False:
                    r.need(bool(st.ts.get("closed")), "lock-released", pos, "the lock stays after the store could not be opened", st)
                return
            r.need(entered(st) is True, "one-user", pos, "a store that is in use in this process is opened a second time", st)
            r.need(failed_of(ctx, st, ("flock",)) is False, "one-user", pos, "a store that is in use in another process is opened", st)
            r.need(not st.ts.get("unlisted") and not st.ts.get("closed"), "one-user", pos, "the store is handed out unlocked", st)
            full = fact(st, lambda a: a.op == "eq" and any(const_of(ctx, x) == 0 for x in a.args) and has_sub(a, call_p("GetFileSize")), False)
            good = fact(st, lambda a: a.op == "ok" and has_sub(a, call_p("Write")), True)
            r.need(full is not None or bool(st.ts.get("init")) and good is not None, "initialised", pos, "a new store is handed out that was not set up", st)
            bad = fact(st, lambda a: a.op == "eq" and has_sub(a, call_p("create_directories")), False)
            r.need(bad is None, "initialised", pos, "a store is handed out although its directory could not be made", st)
        ctx.run(R(scope=OPS, call=call, ret=ret), [f])
    for f in ends:
        def call1(r, st, c):
            if isname(c, "operator()") and c.recv is not None and base_field(c.recv):
                st.ts["done"] = True
            if isname(c, "close"):
                st.ts["done"] = True

        def ret1(r, st, v, line, fr):
            r.need(bool(st.ts.get("done")), "lock-released", at(fr, line), "the store stays in use after it was closed", st)
        ctx.run(R(scope=OPS, call=call1, ret=ret1), [f])
    # what gives the lock back undoes all of it
    giving = [f for f in fs if list(calls_in(f, "close")) and list(calls_in(f, "erase")) and not list(calls_in(f, "open", "open64"))]
    for f in giving:
        def call2(r, st, c):
            if isname(c, "close"):
                st.ts["closed"] = True
            if isname(c, "erase"):
                st.ts["unlisted"] = True

        def ret2(r, st, v, line, fr):
            r.need(bool(st.ts.get("closed")) and bool(st.ts.get("unlisted")), "lock-released", at(fr, line), "the store stays in use after it was closed", st)
        ctx.run(R(scope=OPS, call=call2, ret=ret2), [f])

    def read_ok(st):
        x = fact(st, lambda a: a.op == "ok" and isinstance(a.args[0], T) and a.args[0].op == "call" and isname(a.args[0], "Read"))
        return None if x is None else x[1]

    for f in reads:
        def call3(r, st, c):
            if store(c, "Write"):
                r.need(read_ok(st) is False, "history-kept", c, "reading wipes what is in the store", st)
                st.ts["reset"] = True

        def ret3(r, st, v, line, fr):
            pos = at(fr, line)
            if read_ok(st) is False:
                r.need(status_of(st, v) is False, "unreadable-reported", pos, "a store that cannot be read is taken for an empty one", st)
                r.need(bool(st.ts.get("reset")), "unreadable-reset", pos, "a store that cannot be read stays unreadable", st)
            else:
                r.need(v.op == "call" and isname(v, "Read") or (None if has_sub(v, joined) else False), "history-kept", pos, "something else than what is stored is given out", st)
        ctx.run(R(scope=OPS, call=call3, ret=ret3), [f])

    size = call_p("ByteSizeLong")

    def limit(a):
        return a.op == "lt" and isinstance(a.args[0], T) and (a.args[0].op == "fld" and a.args[0].args[1] is THIS)

    for f in trans:
        def applied(t):
            return t.op == "out" and t.args[0].op == "call" and isname(t.args[0], "operator()")

        def small(st):
            return fact(st, limit, False) is not None or \
                fact(st, lambda a: a.op == "eq" and any(isinstance(x, T) and x.op == "call" and isname(x, "end") for x in a.args), True) is not None or \
                fact(st, lambda a: a.op == "eq" and any(const_of_(x) == 0 for x in a.args) and has_sub(a, call_p("opstats", "mutable_opstats")) and has_sub(a, call_p("size", "opstats_size")), True) is not None

        def call4(r, st, c):
            if isname(c, "remove_if", "partition", "stable_partition"):
                st.ts["ttl"] = True
            if isname(c, "erase", "DeleteSubrange", "RemoveLast") and c.recv is not None and has_sub(c.recv, call_p("mutable_opstats")):
                if not st.ts.get("func"):
                    st.ts["dropped"] = True
                    return
                a0 = c.args[0] if c.args else None
                ok = a0 is not None and (const_of_(a0) == 0 or has_sub(a0, lambda t: t.op == "call" and isname(t, "begin", "cbegin")) and not has_sub(a0, lambda t: t.op == "lin"))
                r.need(ok, "oldest-go-first", c, "newer records are removed before older ones", st)
                r.need(fact(st, limit, True) is not None, "no-more-than-needed", c, "records are removed although the store is small enough", st)
                st.ts["cut"] = small(st)
                st.ts.pop("trust", None)
            if isname(c, "operator()") and c.recv is not None and c.recv.op == "param":
                if read_ok(st):
                    r.need(bool(st.ts.get("ttl")), "outdated-removed", c, "records are kept longer than they may be", st)
                    r.need(has_sub(c.args[0], call_p("Read")), "history-kept", c, "what is in the store is lost by a change", st)
                    def less(t):
                        return has_sub(t, lambda x: x.op == "upd" and isname(x, "erase", "DeleteSubrange"))
                    same = fact(st, lambda a: a.op == "lt" and less(a.args[0]) and not less(a.args[1]), False) or \
                        fact(st, lambda a: a.op == "eq" and less(a) and has_sub(a, call_p("size", "opstats_size")), True)
                    same = same is not None
                    r.need(bool(st.ts.get("trust")) or same, "trust-moves", c, "the history is taken for complete although records were removed", st)
                st.ts["func"] = True
                st.ts.pop("trust", None)
            if store(c, "Write") and st.ts.get("func"):
                v = c.args[0]
                r.need(has_sub(v, applied) or (None if has_sub(v, joined) else False), "change-stored", c, "the change is not what is stored", st)
                r.need(bool(st.ts.get("cut")) or small(st), "size-limited", c, "a store larger than the limit is written", st)
                has = fact(st, lambda a: a.op == "call" and isname(a, "has_earliest_trustworthy_time"), True)
                r.need(bool(st.ts.get("trust")) or "cut" not in st.ts and has is not None, "trust-moves", c, "the history is taken for complete although records were removed", st)
                st.ts["stored"] = True

        def write4(r, st, place, val, line, fr):
            if place[0] == "t" and place[1].op == "call" and isname(place[1], "mutable_earliest_trustworthy_time"):
                if not has_sub(place[1], lambda t: t.op in ("new",)) or st.ts.get("func"):
                    now = has_sub(val, call_p("Now", "GetCurrentTime")) or has_sub(val, call_p("timestamp"))
                    late = has_sub(val, call_p("timestamp")) and (has_sub(val, call_p("rbegin")) and not st.ts.get("cut_"))
                    r.need((None if has_sub(val, joined) and not now else now) and not late, "trust-moves", at(fr, line), "the history is taken for complete from a time that is not that of the first record", st)
                    if st.ts.get("dropped") and not st.ts.get("func"):
                        ttl = any(isinstance(x, T) and x.op == "lin" and any(k == -1 for k, y in x.args[1]) and has_sub(x, call_p("Now")) for x in tm.subterms(val))
                        r.need(ttl or (None if has_sub(val, joined) else has_sub(val, call_p("GetCurrentTime", "Now")) and not has_sub(val, lambda t: t.op == "lin")), "trust-moves", at(fr, line), "the history is taken for complete from a time before which records were removed", st)
                    st.ts["trust"] = True

        def it4(r, st, node, fr):
            if not st.ts.get("func") or fact(st, limit, True) is None or node[0] not in ("while", "for"):
                return
            if not any(m[0] == "op" and m[1] in ("<", ">", "<=", ">=") for m in walk(node[2:4])):
                return
            if fact(st, lambda a: limit(a) and not joined(a.args[1]) and has_sub(a.args[1], joined), True) is not None:
                return
            r.need(bool(st.ts.get("less")), "no-more-than-needed", at(fr, node[1]), "records are removed although the store is small enough", st)

        def loop4(r, st, node, fr):
            st.ts.pop("less", None)

        def write5(r, st, place, val, line, fr):
            write4(r, st, place, val, line, fr)
            if place[0] == "v" and val.op == "lin" and any(k == -1 and has_sub(x, size) for k, x in val.args[1]):
                st.ts["less"] = True
                for k, x in val.args[1]:
                    if k == -1 and size(x) and any(has_sub(y, joined) for _, y in val.args[1]):
                        r.need(has_sub(x, joined) or has_sub(x, lambda t: t.op == "elem"), "size-limited", at(fr, line), "the size taken off is not that of the record removed", st)
            if place[0] == "v" and isinstance(val, T) and size(val):
                st.ts["less"] = True

        def lamval(r, st, v, fr, node):
            if st.ts.get("func") or not isinstance(v, T):
                return
            pos = at(fr, node[1] if len(node) > 1 and isinstance(node[1], int) else f.line)
            line = f.line
            if v.op == "not":
                r.need(None, "outdated-removed", pos, "", st)
                return
            if v.op != "lt":
                r.need(None if has_sub(v, joined) else False, "outdated-removed", pos, "what is removed does not depend on how old it is", st)
                return
            a, b = v.args
            lim = b.op == "lin" and any(k == 1 and has_sub(x, call_p("Now")) for k, x in b.args[1]) and any(k == -1 and has_sub(x, lambda t: t.op in ("fld", "param")) for k, x in b.args[1])
            r.need(lim and (has_sub(a, call_p("timestamp")) or a.op == "call" and isname(a, "InfinitePast")), "outdated-removed", pos, "records are removed or kept for another reason than their age", st)
            if has_sub(a, call_p("timestamp")):
                first = has_sub(a, lambda t: t.op == "call" and isname(t, "begin", "cbegin") and has_sub(t, call_p("events")))
                r.need(not first, "outdated-removed", pos, "the age of a record is not that of its last event", st)
            elif a.op == "call" and isname(a, "InfinitePast"):
                none = fact(st, lambda x: x.op == "eq" and any(const_of_(y) == 0 for y in x.args) and has_sub(x, call_p("events")), True)
                r.need(none is not None, "outdated-removed", pos, "a record that has events is taken for one without", st)

        def ret4(r, st, v, line, fr):
            pos = at(fr, line)
            if status_of(st, v) is False and not (v.op == "call" and isname(v, "Write")):
                return
            r.need(bool(st.ts.get("func")) and bool(st.ts.get("stored")) or status_of(st, v) is False, "change-stored", pos, "success is reported although the change was not stored", st)
            r.need(v.op == "call" and isname(v, "Write") or status_of(st, v) is False or fact(st, lambda a: a.op == "ok" and a.args[0].op == "call" and isname(a.args[0], "Write") and has_sub(a, applied), True) is not None or (None if has_sub(v, joined) else False),
                   "failure-reported", pos, "success is reported although the change may not have been stored", st)
        ctx.run(R(scope=OPS, call=call4, write=write5, iter=it4, loop=loop4, lamval=lamval, ret=ret4), [f])
    # first and last events are looked for from the right end
    for f in fs:
        last = f.ret.endswith("absl::Time") and any("OperationalStats" in p[2] for p in f.params)
        first = f.ret.endswith("Timestamp") and any("OperationalStats" in p[2] for p in f.params)
        if not last and not first:
            continue
        for n in walk(f.body):
            if n[0] in ("rfor", "for") and any(m[0] == "ret" for m in walk(n)):
                head = n[2:4] if n[0] == "for" else n[2:5]
                back = any(isname_(m, "reverse", "Reversed", "rbegin", "crbegin") for m in walk(head))
                front = n[0] == "rfor" and not back or any(isname_(m, "begin", "cbegin") for m in walk(head))
                ctx.check("outdated-removed" if last else "trust-moves", f.rel(), n[1], not front if last else not back, "the last event of a run is not looked for from its end" if last else "the first event is not looked for from the beginning")
    for k in ("one-user", "lock-released", "history-kept", "outdated-removed", "oldest-go-first", "size-limited", "trust-moves", "change-stored", "unreadable-reported"):
        ctx.need(k)


# ---- E05: asking about earlier runs -----------------------------------------------------------
OU_UNITS = [r"^fcp/client/opstats/opstats_utils\.cc$", r"^fcp/client/opstats/opstats_example_store\.cc$"]
UTIL = r"^fcp/client/opstats/opstats_(utils|example_store)\.(cc|h)$"


def hv(t):
    """Declaration of the variable whose value on several paths this is."""
    k = t.args[-1]
    return k[-1] if isinstance(k, tuple) else k


def var_of(n):
    while n and n[0] in ("deref", "addr", "move", "cast"):
        n = n[2] if n[0] == "cast" else n[1]
    return n[2] if n and n[0] == "var" else None


def e05(ctx):
    fs = [f for f in ctx.db.in_files(UTIL) if f.body is not None]
    kinds = proto_enum(ctx, "OperationalStats_Event_EventKind")
    started, aborted = kinds["EVENT_KIND_RESULT_UPLOAD_STARTED"], kinds["EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED"]

    def kind(st, value):
        x = fact(st, lambda a: a.op == "eq" and any(const_of(ctx, y) == value for y in a.args) and any(call_p("event_type")(y) for y in a.args))
        return None if x is None else x[1]

    # the last run that handed in a result
    queries = {f.short: f for f in fs if f.short.startswith("GetLastSuccessfulContribution") or f.short.startswith("GetPreviousCollection")}
    base = [f for n, f in queries.items() if n in ("GetLastSuccessfulContribution", "GetLastSuccessfulContributionTimeForPattern", "GetLastSuccessfulContributionTime", "GetLastSuccessfulContributionMinSepPolicyIndex", "GetPreviousCollectionFirstAccessTimeMap")]
    if "GetLastSuccessfulContribution" not in queries:
        raise AnalysisError("anchor vanished: the last successful contribution")
    for f in base:
        marks = {}

        def wpre(r, st, place, val, line, fr):
            if place[0] == "v" and val is tm.TRUE:
                s, a = kind(st, started), kind(st, aborted)
                marks.setdefault(place[2], set()).add(started if s else aborted if a else None)
        ctx.run(R(scope=UTIL, stops=[r"ConvertToLegacyOperationalStats$"], write=wpre), [f])

        def ret(r, st, v, line, fr):
            if v is tm.NULL or v.op == "call" and isname(v, "nullopt"):
                return
            pos = at(fr, line)
            if fr.func is not f:
                return
            own = [(a, p) for a, p in st.facts.items() if joined(a) and hv(a) in marks]
            lam = any(has_sub(a, lambda t: t.op == "lambda") and not isname(a, "find_if") for a in st.facts if a.op == "call")
            up = any(p and marks[hv(a)] == {started} for a, p in own)
            ab = any(not p and marks[hv(a)] == {aborted} for a, p in own)
            r.need(up or (None if lam or not marks and f.short != "GetLastSuccessfulContribution" else False), "handed-in", pos, "a run is taken for successful although it never began to hand in its result", st)
            r.need(ab or (None if lam or not marks and f.short != "GetLastSuccessfulContribution" else False), "handed-in", pos, "a run is taken for successful although the server turned its result away", st)
            if "ForPattern" in f.short:
                m = fact(st, lambda a: a.op == "call" and isname(a, "FullMatch") and has_sub(a, call_p("task_name")))
                part = fact(st, lambda a: a.op == "call" and isname(a, "PartialMatch"))
                r.need(m is not None and m[1] if part is None else False, "right-task", pos, "a run of another task is given", st)
            else:
                m = fact(st, lambda a: a.op == "eq" and has_sub(a, call_p("task_name")) and any(x.op == "param" for x in a.args))
                r.need(m is not None and m[1], "right-task", pos, "a run of another task is given", st)
            if "Time" in f.short and "Map" not in f.short:
                r.need(has_sub(v, call_p("timestamp")) or (None if has_sub(v, joined) else False), "right-task", pos, "something else than the time of the contribution is given", st)
            if "MinSep" in f.short:
                r.need(v.op == "call" and isname(v, "min_sep_policy_index") or (None if joined(v) else False), "right-task", pos, "something else than the index recorded is given", st)
                r.need(fact(st, lambda a: a.op == "call" and isname(a, "has_min_sep_policy_index"), True) is not None, "right-task", pos, "an index is given although none was recorded", st)

        def lamval(r, st, v, fr, node):
            if not isinstance(v, T) or v.op != "eq" or not has_sub(v, call_p("event_type")):
                return
            r.need(any(const_of(ctx, y) == started for y in v.args), "right-task", at(fr, f.line), "the time of another event is given as that of the contribution", st)
        ctx.run(R(scope=UTIL, stops=[r"ConvertToLegacyOperationalStats$"], ret=ret, lamval=lamval), [f])
    for f in fs:
        if "optional<fcp::client::opstats::OperationalStats>" not in f.ret:
            continue
        for n in walk(f.body):
            if n[0] in ("rfor", "for") and any(m[0] == "ret" for m in walk(n)):
                head = n[2:4] if n[0] == "for" else n[2:5]
                back = any(isname_(m, "reverse", "Reversed", "rbegin", "crbegin") for m in walk(head))
                front = n[0] == "rfor" and not back or any(isname_(m, "begin", "cbegin") for m in walk(head))
                ctx.check("latest", f.rel(), n[1], not front, "an earlier run is given although there is a later one")

    # the runs of a time range
    for f in fs:
        if f.short != "GetOperationalStatsForTimeRange":
            continue
        lo, hi = (p[1] for p in f.params[1:3])

        def outside(st, which):
            """Fact deciding one bound: True outside, False inside."""
            for a, p in st.facts.items():
                if a.op != "lt":
                    continue
                if which == "lo" and a.args[1].op == "param" and a.args[1].args[0] == lo and a.args[0].op != "param":
                    return p
                if which == "hi" and a.args[0].op == "param" and a.args[0].args[0] == hi and a.args[1].op != "param":
                    return p
            return None

        def call(r, st, c):
            if isname(c, "push_back", "emplace_back"):
                r.need(outside(st, "lo") is False and outside(st, "hi") is False, "in-range", c, "a run outside the time range is given", st)
                t = fact(st, lambda a: a.op == "lt" and has_sub(a, call_p("timestamp")))
                if t is not None:
                    r.need(not has_sub(t[0], lambda x: x.op == "call" and isname(x, "begin") and has_sub(x, call_p("events"))), "in-range", c, "the time of a run is not that of its last event", st)
                st.ts["given"] = True

        def loop(r, st, node, fr):
            st.ts.pop("given", None)

        def it(r, st, node, fr):
            if node[0] == "do":
                return
            r.need(bool(st.ts.get("given")) or outside(st, "lo") is True or outside(st, "hi") is True, "in-range", at(fr, node[1]), "a run inside the time range is left out", st)
        ctx.run(R(scope=UTIL, stops=[r"ConvertToLegacyOperationalStats$"], call=call, loop=loop, iter=it), [f])

    # a run with several tasks is told apart into one record per task
    for f in fs:
        if not (f.params and re.search(r"OperationalStats &$", f.params[0][2]) and re.search(r"vector<std::vector<fcp::client::opstats::OperationalStats_PhaseStats", f.ret)):
            continue
        values = proto_enum(ctx, "OperationalStats_PhaseStats_Phase")
        phases = {n: values[n] for n in ("ELIGIBILITY_EVAL_CHECKIN", "ELIGIBILITY_COMPUTATION", "MULTIPLE_TASK_ASSIGNMENTS", "CHECKIN", "COMPUTATION", "UPLOAD")}

        def phase(st):
            for n, v in phases.items():
                if fact(st, lambda a: a.op == "eq" and any(const_of(ctx, y) == v for y in a.args) and any(call_p("phase")(y) for y in a.args), True) is not None:
                    return n
            return None

        def elem(t):
            return t.op == "elem"

        def call2(r, st, c):
            if isname(c, "push_back", "emplace_back", "insert") and c.args:
                if elem(c.args[-1]):
                    st.ts["kept"] = True
                elif joined(c.args[-1]):
                    st.ts["pushed"] = st.ts.get("pushed", ()) + (hv(c.args[-1]),)

        def write2(r, st, place, val, line, fr):
            if place[0] == "v" and isinstance(val, T):
                if elem(val):
                    st.ts["kept"] = True
                    st.ts["assign"] = place[2]
                if val.op == "ctor" and has_sub(val, lambda t: t.op == "call" and isname(t, "begin")) or joined(val) and hv(val) != place[2]:
                    st.ts["shared"] = True
                    st.ts["over"] = place[2]

        def loop2(r, st, node, fr):
            for k in ("kept", "pushed", "shared", "assign", "over"):
                st.ts.pop(k, None)

        def full(st):
            x = fact(st, lambda a: a.op == "eq" and any(const_of_(y) == 0 for y in a.args) and any(isinstance(y, T) and y.op == "call" and isname(y, "size") and joined(y.args[1]) for y in a.args), False)
            if x is None:
                return None
            return next(hv(y.args[1]) for y in x[0].args if isinstance(y, T) and y.op == "call")

        def it2(r, st, node, fr):
            if node[0] != "rfor" and node[0] != "for":
                return
            p = phase(st)
            pos = at(fr, node[1])
            if p is None:
                open_ = [n for n, v in phases.items() if fact(st, lambda a: a.op == "eq" and any(const_of(ctx, y) == v for y in a.args) and any(call_p("phase")(y) for y in a.args), False) is None]
                r.need(bool(st.ts.get("kept")) or not open_, "phases-told-apart", pos, "a phase of a run is left out of the record of its task", st)
                return
            r.need(bool(st.ts.get("kept")), "phases-told-apart", pos, "a phase of a run is left out of the record of its task", st)
            if p == "COMPUTATION":
                w = full(st)
                if w is not None:
                    r.need(w in st.ts.get("pushed", ()), "phases-told-apart", pos, "the record of a task is lost when the next task begins", st)
                elif st.ts.get("over") is not None:
                    none = fact(st, lambda a: a.op == "eq" and any(const_of_(y) == 0 for y in a.args) and any(isinstance(y, T) and y.op == "call" and isname(y, "size") and joined(y.args[1]) and hv(y.args[1]) == st.ts["over"] for y in a.args), True)
                    r.need(none is not None or st.ts["over"] in st.ts.get("pushed", ()), "phases-told-apart", pos, "the record of a task is lost when the next task begins", st)
                r.need(bool(st.ts.get("shared")), "phases-told-apart", pos, "the phases shared by all tasks are left out of the record of one", st)
                r.need(len(set(st.ts.get("pushed", ())) - {w}) >= 1, "phases-told-apart", pos, "the phase in which a task was assigned is left out of its record", st)
            elif p != "UPLOAD":
                r.need(not st.ts.get("pushed"), "phases-told-apart", pos, "a record is closed before its task is over", st)
        ctx.run(R(scope=UTIL, call=call2, write=write2, loop=loop2, iter=it2), [f])

    for f in fs:
        if not (f.params and re.search(r"OperationalStats &$", f.params[0][2]) and re.search(r"^std::vector<fcp::client::opstats::OperationalStats[,>]", f.ret)):
            continue

        def call3(r, st, c):
            if isname(c, "push_back", "emplace_back") and c.args:
                st.ts["out"] = True
                st.ts["index"] = False
                none = fact(st, lambda a: a.op == "eq" and any(const_of_(y) == 0 for y in a.args) and has_sub(a, call_p("phase_stats")))
                if none is not None and none[1]:
                    r.need(c.args[0].op == "param" or (None if has_sub(c.args[0], joined) else False), "nothing-lost", c, "a run is not given as it was recorded", st)
            if isname(c, "set_min_sep_policy_index"):
                r.need(call_p("min_sep_policy_index")(c.args[0]), "nothing-lost", c, "another index is recorded for a task than for its run", st)
                st.ts["index"] = True

        def it3(r, st, node, fr):
            if node[0] != "rfor":
                return
            has = fact(st, lambda a: a.op == "call" and isname(a, "has_min_sep_policy_index"))
            r.need(bool(st.ts.get("out")), "nothing-lost", at(fr, node[1]), "a task of a run is left out", st)
            r.need(bool(st.ts.get("index")) or has is not None and not has[1], "nothing-lost", at(fr, node[1]), "the policy index of a run is lost", st)

        def loop3(r, st, node, fr):
            st.ts.pop("out", None)
            st.ts.pop("index", None)
        ctx.run(R(scope=UTIL, stops=[r"GeneratePerTaskStats$", r"CreateLegacyOperationalStats$"], call=call3, iter=it3, loop=loop3), [f])

    # sums over the phases of a task
    for f in fs:
        if not (re.search(r"opstats::OperationalStats$", f.ret) and any("PhaseStats" in p[2] for p in f.params)):
            continue
        sums = {}

        def write4(r, st, place, val, line, fr):
            if place[0] == "v" and val.op == "lin" and len(val.args[1]) == 2:
                for k, x in spread(val):
                    if isinstance(x, T) and has_sub(x, elem_) and not joined(x):
                        g = [t for t in tm.subterms(x) if t.op == "call" and t.args[1] is not None and t.args[1].op == "elem"]
                        for t in g:
                            sums.setdefault(place[2], set()).add((k, sn(t.args[0])))
            elif place[0] == "v" and not r.eng.muted and val.op == "call" and val.args[1] is not None and elem_(val.args[1]):
                sums.setdefault(place[2], set()).add((0, sn(val.args[0])))
            if place[0] == "t" and place[1].op == "call" and isname(place[1], "add_events"):
                r.need(elem_(val), "nothing-lost", at(fr, line), "an event is changed when a run is told apart", st)
                st.ts["ev"] = True

        def elem_(t):
            return t.op == "elem"

        def call4(r, st, c):
            for what in ("num_bytes_read", "num_examples_read"):
                if isname(c, "set_" + what):
                    ps = spread(c.args[0])
                    ok = len(ps) == 2 and all(k == 1 and isinstance(x, T) and x.op == "call" and isname(x, what) for k, x in ps)
                    r.need(ok, "sums", c, "what was read in several phases is not added up", st)
            for n in ("bytes_downloaded", "bytes_uploaded"):
                if isname(c, "set_chunking_layer_" + n):
                    v = c.args[0]
                    if joined(v):
                        r.need(sums.get(hv(v)) == {(1, n)} or None if hv(v) not in sums else sums.get(hv(v)) == {(1, n)}, "sums", c, "the traffic of several phases is not added up", st)
                    elif v is tm.const(0):
                        pass
                    else:
                        r.need(False, "sums", c, "the traffic of several phases is not added up", st)
                    st.ts[n] = True
            for n in ("task_name", "error_message"):
                if isname(c, "set_" + n):
                    r.need(call_p(n)(c.args[0]), "nothing-lost", c, "a task is given another name or error than was recorded", st)
                    st.ts["set_" + n] = True

        def it4(r, st, node, fr):
            if node[0] != "rfor":
                return
            if any(m[0] == "call" and sn(m[1]) == "add_events" for m in walk(node)) and not any(m[0] == "rfor" for m in walk(node[2:]) if m is not node):
                r.need(bool(st.ts.get("ev")), "nothing-lost", at(fr, node[1]), "an event is lost when a run is told apart", st)

        def loop4(r, st, node, fr):
            st.ts.pop("ev", None)

        def ret4(r, st, v, line, fr):
            r.need(bool(st.ts.get("bytes_downloaded")) and bool(st.ts.get("bytes_uploaded")), "sums", at(fr, line), "traffic is lost when a run is told apart", st)
        ctx.run(R(scope=UTIL, call=call4, write=write4, iter=it4, loop=loop4, ret=ret4), [f])
        names = {m[1].rsplit("::", 1)[-1] for m in walk(f.body) if m[0] == "call"}
        ctx.check("nothing-lost", f.rel(), f.line, "add_events" in names, "the events of a run are lost when it is told apart")

    # handing out records as examples
    makers = [f for f in fs if f.short == "CreateExampleIterator"]
    nexts = [f for f in fs if f.short == "Next" and any("ExampleIterator" in o for o in f.overrides)]
    if not makers or not nexts:
        raise AnalysisError("anchor vanished: run records as examples")
    FS = [r"OpStatsDb::Read$", r"OpStatsLogger::\w+$", r"GetOperationalStatsForTimeRange$", r"GetLastSuccessfulContribution$", r"::CreateExample$"]
    for f in makers:
        def call5(r, st, c):
            crit = fact(st, lambda a: a.op == "call" and isname(a, "last_successful_contribution"))
            if isname(c, "GetOperationalStatsForTimeRange"):
                r.need(crit is None or not crit[1], "as-selected", c, "other runs are given than were asked for", st)
                for i, (has, get) in ((1, ("has_start_time", "start_time")), (2, ("has_end_time", "end_time"))):
                    h = fact(st, lambda a: a.op == "call" and isname(a, has))
                    if h is not None and h[1]:
                        r.need(has_sub(c.args[i], call_p(get)) or (None if has_sub(c.args[i], joined) else False), "as-selected", c, "the time range asked for is not the one used", st)
                    else:
                        r.need(isname(c.args[i], "InfinitePast" if i == 1 else "InfiniteFuture") or (None if has_sub(c.args[i], joined) else False), "as-selected", c, "runs are left out that were asked for", st)
                st.ts["sel"] = True
            if isname(c, "GetLastSuccessfulContribution"):
                r.need(crit is not None and crit[1], "as-selected", c, "other runs are given than were asked for", st)
                r.need(has_sub(c.args[1], call_p("GetCurrentTaskName")) or (None if has_sub(c.args[1], joined) else False), "as-selected", c, "the last contribution of another task is given", st)
                st.ts["sel"] = True

        def ret5(r, st, v, line, fr):
            pos = at(fr, line)
            if status_of(st, v) is False:
                return
            r.need(bool(st.ts.get("sel")), "as-selected", pos, "runs are given that were not selected", st)
            uri = fact(st, lambda a: a.op == "eq" and has_sub(a, call_p("collection_uri")))
            r.need(uri is not None and uri[1], "asked-properly", pos, "run records are given for another collection", st)
            has = fact(st, lambda a: a.op == "call" and isname(a, "has_criteria"))
            if has is None or has[1]:
                r.need(fact(st, lambda a: a.op == "call" and isname(a, "UnpackTo"), True) is not None, "asked-properly", pos, "criteria that cannot be read are ignored", st)
                rng = fact(st, lambda a: a.op == "lt" and (has_sub(a, call_p("start_time", "InfinitePast")) and has_sub(a, call_p("end_time", "InfiniteFuture"))), False)
                r.need(rng is not None, "asked-properly", pos, "a time range that ends before it begins is accepted", st)
        ctx.run(R(scope=UTIL, stops=FS, call=call5, ret=ret5), [f])
    for f in nexts:
        def write6(r, st, place, val, line, fr):
            if place[0] == "f" and place[1] is THIS and val.op == "lin" and val.args[0] == 1:
                st.ts["moved"] = True

        def ret6(r, st, v, line, fr):
            pos = at(fr, line)
            if status_of(st, v) is False:
                inside = fact(st, lambda a: a.op == "lt" and has_sub(a.args[1], call_p("size")) and not has_sub(a.args[0], call_p("size")), True)
                r.need(inside is None, "each-once", pos, "a record is left out", st)
                return
            r.need(bool(st.ts.get("moved")), "each-once", pos, "the same record is given again and again", st)
            x = v.args[2][0] if v.op == "call" and v.args[2] else None
            if x is not None and x.op == "idx":
                inside = fact(st, lambda a: a.op == "lt" and has_sub(a.args[1], call_p("size")) and not has_sub(a.args[0], call_p("size")), True)
                r.need(inside is not None, "each-once", pos, "a record past the end is given", st)
                r.need(x.args[1].op == "fld", "each-once", pos, "a record is left out or given twice", st)
            else:
                none = fact(st, lambda a: a.op == "eq" and any(const_of_(y) == 0 for y in a.args) and has_sub(a, call_p("size")), True)
                r.need(none is not None or None, "each-once", pos, "", st)
        ctx.run(R(scope=UTIL, stops=FS, write=write6, ret=ret6), [f])
    for f in fs:
        if f.short != "CreateExample" and not ("string" in f.ret and any("OperationalStats" in p[2] for p in f.params)):
            continue
        pushes = {}

        def getters(t):
            out = set()
            for x in tm.subterms(t):
                if x.op == "call" and x.args[1] is not None and not x.args[2]:
                    out.add(sn(x.args[0]))
                if x.op == "fld":
                    out.add(sn(x.args[0]))
                if x.op == "param":
                    out.add(x.args[0])
            return out

        def call7(r, st, c):
            if isname(c, "push_back", "emplace_back") and c.args and c.node and c.node[0] == "call":
                d = var_of(c.node[2])
                if d is not None:
                    pushes.setdefault(d, set()).update(getters(c.args[0]))
        ctx.run(R(scope=UTIL, stops=[r"::CreateFeature"], call=call7), [f])

        def write7(r, st, place, val, line, fr):
            if place[0] != "i" or not has_sub(place[1], call_p("mutable_feature")):
                return
            key = const_of_(place[2]) if isinstance(place[2], T) else place[2]
            if not isinstance(key, str):
                return
            want = key.rsplit("-", 1)[-1]
            want = {"uri": "first"}.get(want, want)
            args = val.args[2] if val.op == "call" else [val]
            src = set()
            for a in args:
                src |= getters(a)
                for t in tm.subterms(a):
                    if joined(t) and hv(t) in pushes:
                        src |= pushes[hv(t)]
            if src:
                r.need(want in src or want == "supports_neet_context", "right-feature", at(fr, line), "the example tells %s from another part of the record" % key, st)
        ctx.run(R(scope=UTIL, stops=[r"::CreateFeature"], write=write7), [f])
    for k in ("handed-in", "right-task", "in-range", "as-selected", "asked-properly", "each-once"):
        ctx.need(k)
