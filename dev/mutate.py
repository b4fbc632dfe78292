#!/usr/bin/env python3
"""Development aid: run checks on edited copies of the tree.

usage: mutate.py [-p PROP] [-n REGEX] FILE...
Each FILE defines M(prop, path, old, new) edits that must raise an alarm of
prop and N(props, path, old, new) behaviour-preserving edits on which the named
checks (space separated; "*" = all) must stay quiet.  old must occur once,
unless given as ("text", k) for the k-th occurrence.  Work copies live in
/tmp/fcxmut and are reused.
"""
import os
import queue
import re
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("FCX_WORK", "/tmp/fcxmut")
NW = 8
items = []


def extra(path, more):
    """Further edits: (path, old, new) triples, or (old, new) pairs in the same file."""
    if more and not str(more[0]).startswith("fcp/"):
        return [(path,) + more[i:i + 2] for i in range(0, len(more), 2)]
    return [more[i:i + 3] for i in range(0, len(more), 3)]


def M(prop, path, old, new, *more):
    items.append(("M", prop, [(path, old, new)] + extra(path, more), None))


def N(props, path, old, new, *more):
    items.append(("N", props, [(path, old, new)] + extra(path, more), None))


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def setup(w):
    d = os.path.join(WORK, "w%d" % w)
    os.makedirs(os.path.join(d, "repo"), exist_ok=True)
    sh(["rsync", "-a", "--delete", "--exclude=_build", "--exclude=.git", "/repo/fcp", os.path.join(d, "repo/")])
    os.makedirs(os.path.join(d, "build"), exist_ok=True)
    for f in ("fcx", "fcx.stamp"):
        sh(["cp", "-pu", os.path.join(VERIF, ".build", f), os.path.join(d, "build", f)])
    return d


def run(d, prop):
    env = dict(os.environ, FCX_REPO=d + "/repo", FCX_BUILD=d + "/build", FCX_EVIDENCE=d + "/evidence")
    r = sh([os.path.join(VERIF, "check"), prop], env=env)
    return r.returncode, r.stdout + r.stderr


def apply(d, edits):
    saved = {}
    for path, old, new in edits:
        p = os.path.join(d, "repo", path)
        s = open(p).read() if os.path.exists(p) else ""
        saved.setdefault(p, s if os.path.exists(p) else None)
        k = 0
        if isinstance(old, tuple):
            old, k = old
            if s.count(old) <= k:
                return saved, "old text occurs %d times" % s.count(old)
            i = -1
            for _ in range(k + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        else:
            if old and s.count(old) != 1:
                return saved, "old text occurs %d times in %s" % (s.count(old), path)
            s = s.replace(old, new) if old else s + new
        open(p, "w").write(s)
    return saved, None


def restore(saved):
    for p, s in saved.items():
        if s is None:
            os.unlink(p)
        else:
            open(p, "w").write(s)


def main():
    args = sys.argv[1:]
    only = flt = None
    files = []
    verbose = False
    while args:
        a = args.pop(0)
        if a == "-p":
            only = args.pop(0).split(",")
        elif a == "-n":
            flt = args.pop(0)
        elif a == "-v":
            verbose = True
        else:
            files.append(a)
    for f in files:
        exec(compile(open(f).read(), f, "exec"), {"M": M, "N": N})
    sys.path.insert(0, VERIF)
    from rules.registry import REGISTRY
    allp = sorted(REGISTRY)
    q = queue.Queue()
    for it in items:
        if flt and not re.search(flt, str(it)):
            continue
        kind, props, edits, _ = it
        ps = allp if props == "*" else props.split()
        if only:
            ps = [p for p in ps if p in only]
        ps = [p for p in ps if p in REGISTRY]
        if ps:
            q.put((kind, ps, edits))
    total = q.qsize()
    bad = []
    lock = threading.Lock()

    def worker(w):
        d = setup(w)
        while True:
            try:
                kind, ps, edits = q.get_nowait()
            except queue.Empty:
                return
            saved, err = apply(d, edits)
            try:
                for p in ps:
                    if err:
                        with lock:
                            bad.append(("EDIT-FAILED", p, edits, err))
                        continue
                    rc, out = run(d, p)
                    good = rc == (1 if kind == "M" else 0)
                    with lock:
                        if verbose or not good:
                            tag = ("missed" if kind == "M" else "FALSE ALARM") if not good else "ok"
                            print("%s %s rc=%d %s\n   - %s\n   + %s" % (tag, p, rc, edits[0][0], str(edits[0][1])[:200], edits[0][2][:200]))
                            if kind == "N" and not good or rc not in (0, 1):
                                print("     " + "\n     ".join(l for l in out.splitlines() if "VIOL" in l or ": [" in l or "NO-ANSWER" in l or "Error" in l)[:900])
                            elif verbose:
                                print("     " + "\n     ".join(l for l in out.splitlines() if ": [" in l)[:400])
                            sys.stdout.flush()
                        if not good:
                            bad.append((kind, p, edits, rc))
            finally:
                restore(saved)
    t0 = time.time()
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(min(NW, total) or 1)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for b in bad:
        if b[0] == "EDIT-FAILED":
            print("EDIT-FAILED", b[1], b[2][0][0], str(b[2][0][1])[:160], b[3])
    print("%d edits, %d not as expected, %.0fs" % (total, len(bad), time.time() - t0))


main()
