#!/usr/bin/env python3
"""Systematic mutation of the library: which small changes survive both its tests and all monitors?
usage: mutate.py [worker/workers] [file-substring]   results: /tmp/mutants.<worker>.txt
Works in scratch copies under /tmp, never in /repo."""
import os, re, shutil, subprocess, sys, random
V = "/verif"
w, n = (int(x) for x in (sys.argv[1] if len(sys.argv) > 1 else "0/1").split("/"))
only = sys.argv[2] if len(sys.argv) > 2 else ""
D = "/tmp/pkstl-mut%d" % w
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
subprocess.check_call(["git", "clone", "-q", "/repo", D + "/repo"])
shutil.copytree(V + "/harness", D + "/harness", ignore=shutil.ignore_patterns("target*"))
c = open(D + "/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "../repo"').replace("opt-level = 2", "opt-level = 1").replace("debug = 1", "debug = 0")
open(D + "/harness/Cargo.toml", "w").write(c)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
ORDER = "C07 C01 C11 C13 C03 C06 C02 C16 C09 C15 C10 C14 C04 C05 C08 C12 C17 C18 C19 C22 C20".split()

SUBS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
        (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", " + 2"), (r" \+= 1\b", " += 2"), (r" \+ ", " - "), (r" - ", " + "),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
        (r"\.is_empty\(\)", ".is_empty() == false"), (r"!self", "self"), (r"if !", "if "), (r"\b0\.\.", "1.."),
        (r"\b(\d+)\b(?!\.)", lambda m: str(int(m.group(1)) + 1)), (r"\.take\(\)", ".clone()"),
        (r"Self::Fail;", "Self::init();"), (r"\bNone\b(?=,)", "Some(vec![])"), (r"to_be_bytes", "to_le_bytes"), (r"from_be_bytes", "from_le_bytes")]

def code(path):
    out = []
    for i, l in enumerate(open(path).read().split("\n")):
        if l.startswith("#[cfg(test)]"):
            break
        out.append((i, l))
    return out

muts = []
for d, _, fs in os.walk(D + "/repo/src"):
    for f in sorted(fs):
        p = os.path.join(d, f)
        rel = os.path.relpath(p, D + "/repo")
        if only not in rel or f == "errors.rs":
            continue
        for i, l in code(p):
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use") or "panic!" in s or s.startswith("mod ") or s.startswith("extern"):
                continue
            for a, b in SUBS:
                for m in re.finditer(a, l):
                    r = b(m) if callable(b) else b
                    new = l[:m.start()] + r + l[m.end():]
                    muts.append((rel, i, new))
            if re.match(r"\s*(self\.\S+ [+]?= .*;|.*\?;|\*?\w+ = .*;|self\..*;|return .*;|status.*;)$", l) and "let " not in l and "->" not in l:
                muts.append((rel, i, ""))
random.Random(5).shuffle(muts)
muts = muts[w::n]
log = open("/tmp/mutants.%d.txt" % w, "w")
def say(*a):
    print(*a, file=log, flush=True)
say(len(muts), "mutants")
def sh(cmd, cwd, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, ""
for k, (rel, i, new) in enumerate(muts):
    p = D + "/repo/" + rel
    orig = open(p).read()
    lines = orig.split("\n")
    old = lines[i]
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    tag = "%s:%d: %s => %s" % (rel, i + 1, old.strip(), new.strip() or "(deleted)")
    try:
        rc, o = sh(["cargo", "build", "--release", "--offline", "-q"], D + "/harness", 300)
        if rc != 0:
            say("nobuild", tag)
            continue
        killed = None
        for c in ORDER:
            rc, o = sh([D + "/harness/target/release/pkstl-mon", c, "--tier", "quick", "--seed", "1", "--label", "m", "--out", "/dev/null",
                        "--replays", D + "/replays", "--known", V + "/known_findings.txt", "--repo", D + "/repo", "--cap", "120"], D, 240)
            if rc == 1:
                killed = c
                break
            if rc != 0:
                killed = "%s(rc %d)" % (c, rc)
                break
        if killed:
            say("killed", killed, tag)
            continue
        rc, o = sh(["cargo", "test", "--all-features", "--offline", "-q", "--", "--include-ignored"], D + "/repo", 300)
        say("SURVIVED" if rc == 0 else "tests-only", tag)
    finally:
        open(p, "w").write(orig)
say("done")
shutil.rmtree(D, ignore_errors=True)
