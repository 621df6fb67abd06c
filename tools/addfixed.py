"""Appends 'fixed:' lines to known_findings.txt: addfixed.py PROP HASH..."""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/known_findings.txt"
have = open(p).read()
with open(p, "a") as f:
    for h in sys.argv[2:]:
        s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h]).decode().strip()
        hh, s = s.split(" ", 1)
        if hh not in have: f.write("fixed: property=%s %s %s\n" % (sys.argv[1], hh, s.replace("fix: ", "")))
