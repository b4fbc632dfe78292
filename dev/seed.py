#!/usr/bin/env python3
"""Authoring aid for planted bugs.

seed.py new ID PROP KIT  -- copies the support files of a kit (cxx, py) into seeded/ID
seed.py diff ID SCRIPT.py -- runs SCRIPT with sub(path, old, new) against a scratch worktree
                             of /repo and stores the difference as patch.diff
seed.py try ID           -- applies the patch in a scratch copy, builds, tests, runs the demo
seed.py catch [ID...]    -- runs the property's check on each patched tree
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, "seeded")
KIT = os.path.join(V, "dev", "seedkit")


def copy_tree():
    d = tempfile.mkdtemp(prefix="seed")
    subprocess.run(["rsync", "-a", "--exclude=_build", "/repo/", d + "/"], check=True)
    return d


def write(id, prop, needs, breaks, edits, demo, files=(), kit="cxx"):
    """One planted bug: edits = [(path, old, new)], demo = text of demo.sh, files = {name: text}."""
    d = os.path.join(SD, id)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    t = copy_tree()
    try:
        for path, old, new in edits:
            p = os.path.join(t, path)
            s = open(p).read()
            assert s.count(old) == 1, (id, path, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True, check=True).stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(t)
    if kit == "cxx":
        shutil.copytree(os.path.join(KIT, "inc"), os.path.join(d, "inc"))
        shutil.copy(os.path.join(KIT, "cxx.sh"), d)
        if any("secagg_e2e" in x for x in dict(files).values()):
            shutil.copy(os.path.join(KIT, "secagg_e2e.h"), d)
    for n, x in dict(files).items():
        open(os.path.join(d, n), "w").write(x)
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def catch(ids):
    t = copy_tree()
    try:
        for id in ids:
            prop = json.load(open(os.path.join(SD, id, "meta.json")))["property"]
            subprocess.run(["git", "-C", t, "checkout", "-q", "--", "."], check=True)
            subprocess.run(["git", "-C", t, "apply", os.path.join(SD, id, "patch.diff")], check=True)
            env = dict(os.environ, FCX_REPO=t, FCX_BUILD=os.path.join("/tmp", "seedbuild"), FCX_EVIDENCE="/tmp/seedev")
            r = subprocess.run([os.path.join(V, "check"), prop], capture_output=True, text=True, env=env)
            first = [l for l in r.stdout.splitlines() if ": [" in l][:1]
            print(id, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), first[0][:170] if first else (r.stdout.splitlines() or [""])[-1][:170], flush=True)
    finally:
        shutil.rmtree(t)


def attempt(ids):
    """build, test and demonstrate on /repo itself, one bug at a time, undone straight afterwards"""
    for id in ids:
        d = os.path.join(SD, id)
        demo = [os.path.join(d, "demo.sh")]
        r0 = subprocess.run(["bash"] + demo, cwd="/repo", capture_output=True, text=True)
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
        try:
            b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
            r1 = subprocess.run(["bash"] + demo, cwd="/repo", capture_output=True, text=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
        print(id, "clean rc=%d, patched rc=%d, build rc=%d" % (r0.returncode, r1.returncode, b.returncode),
              "OK" if r0.returncode == 0 and r1.returncode not in (0, 99) and b.returncode == 0 else "NOT COUNTING\n" + r0.stdout[-500:] + r0.stderr[-1500:] + r1.stderr[-1500:] + b.stdout[-500:], flush=True)
    subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    ids = ids or sorted(os.listdir(SD))
    {"catch": catch, "try": attempt}[cmd](ids)
