#!/usr/bin/env python3
"""Run the checks of planted bugs: hunt.py [-p PROPERTY] [ID...]. Works in copies of /repo and /verif which are mounted over
the real ones in a namespace of its own, so that nothing else is disturbed. A .diff file is an edit which changes no
behaviour: hunt.py FILE.diff PROPERTY..."""
import json, os, subprocess, sys
S = "/verif/seeded"
H = "/tmp/hunt"
args = sys.argv[1:]
jobs = []
if args and args[0].endswith(".diff"):
    jobs = [(args[0], p, args[0]) for p in args[1:]]
else:
    ids = [a for a in args if os.path.isdir(S + "/" + a)] or sorted(os.listdir(S))
    jobs = [(i, json.load(open("%s/%s/meta.json" % (S, i)))["property"], "%s/%s/patch.diff" % (S, i)) for i in ids]
    if args and args[0] == "-p":
        jobs = [j for j in jobs if j[1] == args[1]]
subprocess.run("mkdir -p %s/repo %s/verif && rsync -a --delete --exclude target /repo/ %s/repo/ && rsync -a --delete --exclude seeded --exclude .git --exclude evidence /verif/ %s/verif/ && mkdir -p %s/verif/evidence" % (H, H, H, H, H), shell=True, check=True)
for i, pid, patch in jobs:
    subprocess.run(["git", "-C", H + "/repo", "checkout", "-q", "-f", "."], check=True)
    subprocess.run(["git", "-C", H + "/repo", "apply", patch], check=True)
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec python3 check.py %s" % (H, H, pid)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    l = (p.stdout + p.stderr).strip().splitlines()
    print(i, pid, {0: "quiet", 1: "CAUGHT"}.get(p.returncode, "NO ANSWER (%d)" % p.returncode),
          [x[:200] for x in l if x.startswith(("engine", "native", "entry", "ERROR"))][:3] or l[-1:], flush=True)
