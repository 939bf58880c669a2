#!/usr/bin/env python3
"""Applies each behaviour-preserving edit of tools/refactors/*.py to /repo in turn, runs the existing
tests and every check on it, undoes it. usage: runrefactors.py [id ...] [--checks C01,C02] [--together]
--together: as many at once as go together (the patterns of each must still be found once), then the others"""
import glob, json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
ALL = ["C%02d" % i for i in range(1, 23)]
args = sys.argv[1:]
if "--checks" in args:
    k = args.index("--checks")
    ALL = args[k + 1].split(",")
    del args[k:k + 2]
together = "--together" in args
if together:
    args.remove("--together")
refs = {}
for f in sorted(glob.glob(V + "/tools/refactors/*.py")):
    ns = {}
    exec(compile(open(f).read(), f, "exec"), ns)
    refs.update((r["id"], r) for r in ns["REFACTORS"])
assert not subprocess.check_output(["git", "-C", R, "status", "--porcelain"])
env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
bad = 0
todo = args or list(refs)
if together:
    groups = []
    while todo:
        text, ids, left, edits = {}, [], [], []
        for i in todo:
            mine = dict(text)
            for f, old, new in refs[i]["edits"]:
                t = mine.get(f) or open(os.path.join(R, f)).read()
                if t.count(old) != 1:
                    break
                mine[f] = t.replace(old, new)
            else:
                text = mine
                ids.append(i)
                edits += refs[i]["edits"]
                continue
            left.append(i)
        assert ids, left
        groups.append("+".join(ids))
        refs[groups[-1]] = dict(edits=edits)
        todo = left
    todo = groups
for i in todo:
    t = time.time()
    res = []
    try:
        for f, old, new in refs[i]["edits"]:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) != 1:
                res.append("pattern found %d times: %r" % (s.count(old), old[:50]))
                break
            open(p, "w").write(s.replace(old, new))
        if not res:
            e2 = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2", CARGO_TARGET_DIR="/tmp/pkstl-ref-target")
            p = subprocess.run(["cargo", "test", "--all-features", "--offline", "-q", "--", "--include-ignored"], cwd=R, env=e2,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                res.append("TESTS: " + p.stdout.decode()[-1500:])
        if not res:
            for c in ALL:
                p = subprocess.run([V + "/check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode or b"\nVIOLATION" in p.stdout:
                    res.append("%s rc=%d %s" % (c, p.returncode, p.stdout.decode("utf-8", "replace")[-600:].replace("\n", " | ")))
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    bad += bool(res)
    print(i, "NOISY" if res else "quiet", "%ds" % (time.time() - t), *res, sep=" ", flush=True)
sys.exit(bool(bad))
