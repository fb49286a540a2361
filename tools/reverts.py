#!/usr/bin/env python3
"""Each repaired defect, brought back: does the check of its property report it? python3 tools/reverts.py [commit...]"""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    if not m or (len(sys.argv) > 1 and m[2] not in sys.argv[1:]):
        continue
    d = "/tmp/reverts/" + m[2]
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    subprocess.run(["git", "-C", d, "config", "user.email", "x@x"]); subprocess.run(["git", "-C", d, "config", "user.name", "x"])
    r = subprocess.run(["git", "-C", d, "revert", "-n", m[2]], capture_output=True, text=True)
    if r.returncode:
        print(m[1], m[2], "CONFLICT", r.stderr.split("\n")[0], flush=True)
    else:
        props = [m[1]] + re.findall(r"C\d\d", " ".join(re.findall(r"\(also ([^)]*)\)", m[3])))
        for p in props:
            r = subprocess.run([sys.executable, V + "/check.py", p], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_BUILD=d + "-build"))
            v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
            print(p, m[2], r.returncode, "reported" if r.returncode == 1 and v else "MISSED", (r.stdout.strip().split("\n") or [""])[0][:150], flush=True)
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + "-build", ignore_errors=True)
