#!/usr/bin/env python3
"""runseed.py [ID...]: applies each planted bug to /repo, runs the check of its property, undoes it (by hand only)."""
import json, os, subprocess, sys
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, stdout=subprocess.PIPE, text=True).stdout.strip()
for i in ids:
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff"])
    try:
        r = subprocess.run(["python3", "/verif/check.py", p, "quick"], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    finally:
        subprocess.check_call("git -C /repo checkout -q -- .", shell=True)
    e = r.stderr.strip().split("\n")
    print(i, p, "rc=%d" % r.returncode, r.stdout.strip().replace("\n", " | "))
    for l in e:
        if "obligation" in l or "undecided" in l or l.startswith("unit") or l.startswith("error"):
            print("     ", l[:200])
    print("     ", e[-1][:200], flush=True)
