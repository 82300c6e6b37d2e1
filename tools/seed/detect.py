#!/usr/bin/env python3
"""detect.py [-j N] [-a] [-s SEED] [-t TIER] BUG...: which checks report each planted bug.
Each slot is a copy of /repo and /verif, bound over them in a mount namespace of its own.
Without -a only the bug's own property's check runs; -c C01,C02 names others."""
import argparse, json, os, re, subprocess, sys, threading, queue, time
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=4)
ap.add_argument("-a", action="store_true")
ap.add_argument("-c", default="")
ap.add_argument("-s", default="1")
ap.add_argument("-t", default="quick")
ap.add_argument("-p", default="", help="directory of other patches NAME.diff; BUG is NAME:PROP")
ap.add_argument("-o", default="/tmp/det/results.jsonl")
ap.add_argument("bugs", nargs="*")
a = ap.parse_args()
ALL = ["C%02d" % i for i in range(1, 29)]
bugs = a.bugs or sorted(os.listdir("/verif/seeded"))
q = queue.Queue()
for b in bugs:
    q.put(b)
lock = threading.Lock()

def slot(n):
    d = "/tmp/det/slot%d" % n
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/work/", "/repo", "/verif", d]) if subprocess.call("command -v rsync >/dev/null", shell=True) == 0 else subprocess.check_call("rm -rf %s/repo %s/verif.new; cp -a /repo %s/; rm -rf %s/verif; cp -a /verif %s/" % (d, d, d, d, d), shell=True)
    while True:
        try:
            b = q.get_nowait()
        except queue.Empty:
            return
        if a.p:
            name, prop = b.split(":")
            patch = "%s/%s.diff" % (a.p, name)
        else:
            name = b
            bd = "/verif/seeded/%s" % b
            if not os.path.isdir(bd):
                bd = "/verif/seeded-templates/%s" % b
            patch = bd + "/patch.diff"
            prop = json.load(open(bd + "/meta.json"))["property"]
        subprocess.check_call(["git", "-C", d + "/repo", "apply", patch])
        checks = a.c.split(",") if a.c else ([prop] + [c for c in ALL if c != prop and c != "C27"] if a.a else prop.split("+"))
        res = {}
        for c in checks:
            t = time.time()
            cmd = ["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_SEED=%s VERIF_TIER=%s exec timeout 900 bash check.sh %s" % (d, d, a.s, a.t, c)]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            v = re.findall(r"^VIOLATION property=%s .*" % c, r.stdout, re.M)
            res[c] = "caught" if r.returncode == 1 and v else ("quiet" if r.returncode == 0 and not v else "EXIT %d" % r.returncode)
            with lock:
                detail = "" if res[c] == "quiet" else " | " + " / ".join(r.stdout.strip().split("\n")[:3])[:300]
                print("%-28s %s %s %.0fs%s" % (name, c, res[c], time.time() - t, detail), flush=True)
        subprocess.check_call(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
        with lock:
            open(a.o, "a").write(json.dumps({"bug": name, "res": res}) + "\n")

ts = [threading.Thread(target=slot, args=(i,)) for i in range(min(a.j, len(bugs)))]
[t.start() for t in ts]
[t.join() for t in ts]
