#!/usr/bin/env python3
"""make.py SPEC.py [id...]: builds /verif/seeded/<id>/ from the bugs in SPEC.py and confirms each in a scratch copy.
A spec holds BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], case=python text)]."""
import json, os, re, runpy, shutil, subprocess, sys
S = "/tmp/seed/repo"
BASE = "9efbcee"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=S + "/target",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
HERE = os.path.dirname(os.path.abspath(__file__))

def sh(a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, cwd=k.pop("cwd", S), errors="replace", **k)

def git(*a):
    r = sh(["git", *a])
    assert r.returncode == 0, r.stdout
    return r.stdout

def main():
    if not os.path.exists(S):
        os.makedirs("/tmp/seed", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", S])
    git("checkout", "-q", "--", ".")
    assert git("rev-parse", "HEAD") == subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True), "scratch copy is stale"
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        print("==", b["id"], flush=True)
        git("checkout", "-q", "--", ".")
        bad = None
        for f, old, new in b["edits"]:
            t = open(S + "/" + f).read()
            if t.count(old) != 1:
                bad = "%s: text occurs %d times" % (f, t.count(old))
                break
            open(S + "/" + f, "w").write(t.replace(old, new))
        if bad:
            print("  REJECT", bad); continue
        patch = git("diff", "-U3")
        # removed lines must come from the base commit
        ok = False
        for f in {e[0] for e in b["edits"]}:
            d = git("diff", "-U0", f)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                s, n = int(m.group(1)), int(m.group(2) or 1)
                for l in range(s, s + n):
                    bl = git("blame", "-s", "-L", "%d,%d" % (l, l), "HEAD", "--", f)
                    if bl.lstrip("^").startswith(BASE[:6]):
                        ok = True
                    else:
                        print("  note: line of a fix:", bl.strip()[:100])
        if not ok:
            print("  REJECT no original line changed"); continue
        r = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--locked", "--offline", "--", "--test-threads", "8"])
        passed = len(re.findall(r"^test .* \.\.\. ok$", r.stdout, re.M))
        if r.returncode or passed < 7:
            print("  REJECT build or tests", passed, r.stdout[-1500:]); continue
        d = "/tmp/seed/case"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(HERE + "/seedlib.py", d)
        open(d + "/case.py", "w").write(b["case"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/case.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        r1 = sh(["bash", d + "/demo.sh"], timeout=400)
        git("checkout", "-q", "--", ".")
        r0 = sh(["bash", d + "/demo.sh"], timeout=400)
        if r1.returncode == 0 or r0.returncode != 0:
            print("  REJECT demo: patched", r1.returncode, r1.stdout[-800:], "clean", r0.returncode, r0.stdout[-800:]); continue
        shutil.rmtree(d + "/__pycache__", ignore_errors=True)
        t = "/verif/seeded/" + b["id"]
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        open(t + "/patch.diff", "w").write(patch)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(t + "/meta.json", "w"), indent=1)
        print("  kept:", r1.stdout.strip().split("\n")[-1][:200], flush=True)
main()
