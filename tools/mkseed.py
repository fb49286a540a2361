#!/usr/bin/env python3
"""Development tool, used by no check: confirms planted bugs in scratch copies and keeps the good ones in /verif/seeded.

  mkseed.py SPECS.py [ID...]      SPECS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=text or {name: text}, needs, breaks)]
  mkseed.py --eval [ID[:PROPERTY]...]   runs the check of each kept bug's property (or another one) against a patched scratch copy
"""
import concurrent.futures, json, os, queue, re, runpy, shutil, subprocess, sys, time
VERIF = "/verif"
ROOT = os.environ.get("SEED_ROOT", "/tmp/seed")
BASE = "b46875b"

def sh(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode(errors="replace")

class Copy:
    def __init__(self, n, build=True):
        self.d = "%s/w%d" % (ROOT, n)
        self.repo = self.d + "/repo"
        os.makedirs(self.d, exist_ok=True)
        head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"]).decode().strip()
        if not os.path.exists(self.repo):
            sh(["git", "clone", "-q", "/repo", self.repo])
        sh(["git", "-C", self.repo, "fetch", "-q", "origin"])
        sh(["git", "-C", self.repo, "checkout", "-q", "-f", head])
        sh(["git", "-C", self.repo, "clean", "-qfd"])
        os.makedirs(self.d + "/driver", exist_ok=True)
        t = open("/opt/vp/driver/CMakeLists.txt").read().replace("set(REPO /repo)", "set(REPO %s)" % self.repo)
        if not os.path.exists(self.d + "/driver/CMakeLists.txt"):
            open(self.d + "/driver/CMakeLists.txt", "w").write(t)
        self.build = self.repo + "/_build"
    def reset(self):
        sh(["git", "-C", self.repo, "checkout", "-q", "--", "."])
        sh(["git", "-C", self.repo, "clean", "-qfd"])
    def make(self):
        env = dict(os.environ, CC="gcc", CXX="g++")
        for c in (["cmake", "-S", self.d + "/driver", "-B", self.build, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug"], ["ninja", "-C", self.build, "-j3"]):
            rc, out = sh(c, env=env)
            if rc:
                return False, out[-1500:]
        return True, ""
    def tests(self):
        rc, out = sh(["ctest", "--test-dir", self.build, "-j4", "--timeout", "120"])
        m = re.search(r"(\d+) tests failed out of (\d+)", out) or re.search(r"tests passed, (\d+) tests failed out of (\d+)", out)
        if not m:
            return False, out[-1500:]
        return m.group(1) == "0" and m.group(2) == "70", out[-1200:]
    def demo(self, d):
        t = "%s/demo-%s" % (self.d, os.path.basename(d))
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        for f in os.listdir(t):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                os.remove(os.path.join(t, f))
        try:
            return sh(["bash", t + "/demo.sh"], cwd=self.repo, timeout=300)
        except subprocess.TimeoutExpired:
            return None, "timeout"
        finally:
            shutil.rmtree(t)

CPP = '''#!/bin/bash
# Compiles demo.cpp against the library of the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cmake -S . -B "$W/b" @OPTS@ > "$W/log" 2>&1 || { cat "$W/log"; exit 2; }
@CXX@ -std=c++@STD@ -w @FLAGS@ -I include -I "$W/b/include" "$D/demo.cpp" -o "$W/demo" || exit 3
cd "$W" && timeout 60 ./demo
'''

def work(copy, s):
    d = "%s/out/%s" % (ROOT, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    copy.reset()
    if isinstance(s["demo"], dict):
        for n, t in s["demo"].items():
            open(d + "/" + n, "w").write(t)
    else:
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
        t = CPP
        for k, v in dict(OPTS=s.get("opts", "-DSHIVA_ENABLE_BOUNDS_CHECK=ON"), CXX=s.get("cxx", "g++"), STD=s.get("std", "17"), FLAGS=s.get("flags", "-O1")).items():
            t = t.replace("@%s@" % k, v)
        open(d + "/demo.sh", "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    rc, out = copy.demo(d)
    if rc != 0:
        return "demo fails on the clean tree: %s %s" % (rc, out[-800:])
    for f, old, new in s["edits"]:
        p = copy.repo + "/" + f
        t = open(p).read()
        if t.count(old) != 1:
            return "edit: %d matches in %s of %r" % (t.count(old), f, old)
        # the changed lines have to be lines of the original repository
        open(p, "w").write(t.replace(old, new))
    rc, diff = sh(["git", "-C", copy.repo, "diff"])
    for h in re.finditer(r"^--- a/(\S+)$|^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
        pass
    cur, ln, mine = None, 0, []
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            bl = sh(["git", "-C", copy.repo, "blame", "-l", "HEAD", "--", cur])[1].splitlines()
            orig = set(sh(["git", "-C", copy.repo, "rev-list", BASE])[1].split())
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            c = bl[ln - 1].split()[0].lstrip("^")
            if not any(o.startswith(c) for o in orig):
                mine.append("%s:%d" % (cur, ln))
            ln += 1
        elif l.startswith(" "):
            ln += 1
    if mine:
        return "touches lines of fix commits: %s" % mine
    open(d + "/patch.diff", "w").write(diff)
    ok, out = copy.make()
    if not ok:
        return "does not build: " + out[-1200:]
    ok, out = copy.tests()
    if not ok:
        return "tests fail: " + out[-900:]
    rc, out = copy.demo(d)
    if rc == 0:
        return "demo passes with the patch"
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    t = "%s/seeded/%s" % (VERIF, s["id"])
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    return "KEPT (demo: %s %s)" % (rc, out.strip()[-100:].replace("\n", " | "))

def evaluate(copy, sid):
    sid, _, prop = sid.partition(":")   # ID or ID:PROPERTY
    d = "%s/seeded/%s" % (VERIF, sid)
    meta = json.load(open(d + "/meta.json"))
    copy.reset()
    rc, out = sh(["git", "-C", copy.repo, "apply", d + "/patch.diff"])
    if rc:
        return "patch does not apply: " + out
    env = dict(os.environ, VERIF_REPO=copy.repo, VERIF_BUILD=copy.d + "/vbuild", VERIF_JOBS="4", VERIF_SEED="1")
    t = time.time()
    rc, out = sh(["python3", VERIF + "/check.py", prop or meta["property"]], env=env, timeout=1500, cwd=VERIF)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")]
    copy.reset()
    return "%s %s rc=%s %.0fs %s" % ("CAUGHT" if rc == 1 and v else "MISSED", prop or meta["property"], rc, time.time() - t, (v[1] if len(v) > 1 else out[-400:]).strip()[:200])

def main():
    ev = sys.argv[1] == "--eval"
    if ev:
        items = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
        fn, n = evaluate, 2
    else:
        items = [s for s in runpy.run_path(sys.argv[1])["SEEDS"] if not sys.argv[2:] or s["id"] in sys.argv[2:]]
        fn, n = work, 3
    pool = queue.Queue()
    for i in range(min(n, len(items))):
        pool.put(Copy(i))
    def one(s):
        c = pool.get()
        try:
            return s if ev else s["id"], fn(c, s)
        except Exception as e:
            return s if ev else s["id"], "ERROR %r" % e
        finally:
            pool.put(c)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, s) for s in items]):
            print("%s: %s" % f.result(), flush=True)

main()
