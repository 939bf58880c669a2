#!/usr/bin/env python3
"""Builds and validates the planted bugs in /verif/seeded from the definitions in tools/bugs/*.py.
usage: mkbugs.py [id ...]      (works on a scratch copy of /repo under /tmp, which it removes)"""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, "tools", "bugkit")
WT = "/tmp/pkstl-mkbugs"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=WT + "/target",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)

def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")

def load():
    bugs = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for b in ns["BUGS"]:
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b
    return bugs

def edit(b):
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return "%s: pattern found %d times: %r" % (f, n, old[:60])
        open(p, "w").write(s.replace(old, new))

def main():
    bugs = load()
    want = sys.argv[1:] or list(bugs)
    shutil.rmtree(WT, ignore_errors=True)
    shutil.copytree("/repo", WT, symlinks=True)
    bad = 0
    for i in want:
        b = bugs[i]
        sh(["git", "checkout", "-q", "--", "."], WT)
        d = os.path.join(V, "seeded", i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in ("kit.rs", "refp.rs", "demo.sh"):
            shutil.copy(os.path.join(KIT, f), d)
        shutil.copy(os.path.join(KIT, "Cargo.lock"), d)
        if "features" in b:  # the demonstration is built with another selection of features
            fs = ", ".join('"%s"' % x for x in b["features"].split(",") if x)
            q = os.path.join(d, "demo.sh")
            t = open(q).read()
            assert 'features = ["bin", "cbor", "json"]' in t
            t = t.replace('features = ["bin", "cbor", "json"]', 'default-features = false, features = [%s]' % fs)
            open(q, "w").write(t)
            if not b["features"]:
                os.unlink(os.path.join(d, "kit.rs"))
        if "deps" in b:
            q = os.path.join(d, "demo.sh")
            t = open(q).read()
            open(q, "w").write(t.replace('ring = "0.16.9"\n', 'ring = "0.16.9"\n' + b["deps"]))
        open(os.path.join(d, "main.rs"), "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        why = None
        rc, o = sh(["bash", d + "/demo.sh"], WT)
        if rc != 0:
            why = "demo fails on the unchanged tree (%d): %s" % (rc, o[-900:])
        why = why or edit(b)
        if not why:
            rc, o = sh(["git", "diff"], WT)
            open(os.path.join(d, "patch.diff"), "w").write(o)
            rc, o = sh(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--locked", "--offline", "--", "--include-ignored", "--test-threads", "8"], WT)
            ok = o.count("... ok")
            if rc != 0 or ok < 51:
                why = "tests: rc %d, %d ok\n%s" % (rc, ok, "\n".join([l for l in o.splitlines() if "FAILED" in l or "error" in l or "panicked" in l][:8]))
        if not why:
            rc, o = sh(["bash", d + "/demo.sh"], WT)
            if rc in (0, 124) or (rc == 2 and not b.get("unbuildable")):
                why = "demo does not fail with the patch (%d): %s" % (rc, o[-900:])
            else:
                print("%s ok: %s" % (i, o.strip()[-160:]), flush=True)
        if why:
            bad += 1
            print("%s NOT KEPT: %s" % (i, why), flush=True)
            shutil.rmtree(d)
    shutil.rmtree(WT, ignore_errors=True)
    return bad

sys.exit(main())
