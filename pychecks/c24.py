"""C24: scripts/config-build.py under every combination of its options, initial directories and tool outcomes. The script
runs as its command line would, as an unprivileged user inside a scratch directory; the tools it finds are stand-ins that
only record how they were called."""
import concurrent.futures, itertools, os, shlex, shutil, stat, subprocess
from check import REPO, JOBS
from pychecks.scratch import Scratch, run_script, tree, unprivileged, enough, confirmed

SCRIPT = os.path.join(REPO, "scripts/config-build.py")
TEXT = None

TOOL = """#!/bin/sh
{ printf 'CALL\\0%%s\\0%%s\\0' %s "$(pwd -P)"
  for a; do printf 'A%%s\\0' "$a"; done
  for f in * .[!.]*; do if [ -e "$f" ] || [ -h "$f" ]; then printf 'L%%s\\0' "$f"; fi; done
} >> "$TOOL_LOG"
case "$TOOL_%s" in kill) kill -9 $$ ;; esac
exit "$TOOL_%s"
"""

TYPES = [None, "Release", "Debug", "RelWithDebInfo", "MinSizeRel"]
FLAGS = [("-e", "--eclipse"), ("-x", "--xcode"), ("-n", "--ninja"), ("-ecc", "--exportcompilercommands"), ("-gvz", "--graphviz")]
UNKNOWN = [[], ["-DFOO=1"], ["-DNAME=a b"], ["-Wno-dev", "--trace"], ["-DX=$HOME", "-DY=`id`", "-DZ=$(id)"], ["-DQ=\"q\"", "-DS='s'"], ["-U", "BAR*"],
           ["-DL=a;b&c|d>e", "-DEMPTY="], ["-DM=1", "-DM=2", "-DA=\\"], ["-DW=two  blanks"],
           # long ones: one argument, and a command of many
           ["-DLONG=" + "/some/prefix;" * 100 + "end"], ["-DN%d=v%d" % (i, i) for i in range(150)], ["-DHUGE=" + "x y" * 3000, "-DAFTER=1"],
           # names beyond ASCII, and bytes that are no UTF-8
           ["-DU=/home/j\u00e9r\u00f4me/\u5de5"], ["-DL1=/prj/\udce9t\udce9", "-DB=\udcff\udcfe"]]
HC = ["host.cmake", "hosts/machine-gcc@13.cmake", "plain", "my host.cmake", "a.b.cmake", "cmake.cmake"]
#        name, what exists there before
DIRS = [None, ("out", None), ("out", "empty"), ("out", "full"), ("p/q/r", None), ("p/q/r", "full"), ("with blank/b", None), ("with blank/b", "full"), ("$HOME;x", "full")]


def fill(p, how):
    if how is None:
        return
    if how in ("link", "dangling"):
        # a symbolic link to somewhere else, which has to stay as it is
        os.makedirs(os.path.dirname(p), exist_ok=True)
        t = os.path.join(os.path.dirname(p), "linked", os.path.basename(p))
        if how == "link":
            os.makedirs(t)
            open(t + "/keep", "w").write("keep\n")
        os.symlink(t, p)
        return
    os.makedirs(p)
    if how == "stuck":
        # somebody's files that cannot be removed
        os.makedirs(p + "/deep/er")
        open(p + "/deep/er/x", "w").write("old\n")
        os.chmod(p + "/deep/er", 0o555)
        return
    if how == "file":
        os.rmdir(p)
        open(p, "w").write("a file\n")
        return
    if how == "full":
        open(p + "/CMakeCache.txt", "w").write("old\n")
        open(p + "/.hidden", "w").write("old\n")
        os.makedirs(p + "/CMakeFiles/deep")
        open(p + "/CMakeFiles/deep/x", "w").write("old\n")
        os.symlink("/tmp", p + "/elsewhere")
        os.symlink("../outside", p + "/CMakeFiles/up")


def parse_log(path):
    calls = []
    if os.path.exists(path):
        it = iter(open(path, "rb").read().decode(errors="surrogateescape").split("\0")[:-1])
        for w in it:
            if w == "CALL":
                calls.append(dict(tool=next(it), cwd=next(it), args=[], ls=[]))
            elif w[0] == "A":
                calls[-1]["args"].append(w[1:])
            else:
                calls[-1]["ls"].append(w[1:])
    return calls


def understand(args, cwd):
    """A CMake command line as settings: (settings, what is left over, in order)."""
    s, rest, i = dict(C=[], D=[], G=[], graphviz=[], source=[], B=[]), [], 0
    def value(flag):
        nonlocal i
        if args[i] == flag:
            i += 1
            return args[i] if i < len(args) else None
        return args[i][len(flag):]
    while i < len(args):
        a = args[i]
        if a.startswith("-C"):
            s["C"].append(value("-C"))
        elif a.startswith("-G"):
            s["G"].append(value("-G"))
        elif a.startswith("-B"):
            s["B"].append(value("-B"))
        elif a.startswith("-S"):
            s["source"].append(value("-S"))
        elif a.startswith("--graphviz="):
            s["graphviz"].append(a[11:])
        elif a.startswith("-DCMAKE_"):
            k, _, v = a[2:].partition("=")
            s["D"].append((k.split(":")[0], v))
        elif not a.startswith("-") and os.path.isdir(os.path.join(cwd, a)) and os.path.exists(os.path.join(cwd, a, "CMakeLists.txt")):
            s["source"].append(a)
        else:
            rest.append(a)
        i += 1
    return s, rest


def one_case(base, c):
    d = os.path.join(base, "case")
    for p, ds, _ in os.walk(d):
        os.chmod(p, 0o755)
    shutil.rmtree(d, ignore_errors=True)
    work, bin_ = os.path.join(d, "work dir" if c["cwd"] == "blank" else "work"), os.path.join(d, "bin")
    os.makedirs(work); os.makedirs(bin_); os.makedirs(os.path.join(d, "outside"))
    open(d + "/outside/keep", "w").write("keep\n")
    for t in ("cmake", "dot"):
        if c[t] != "missing":
            open(bin_ + "/" + t, "w").write(TOOL % (t, t, t))
            os.chmod(bin_ + "/" + t, 0o755)
    hc = os.path.join(work, c["hc"])
    os.makedirs(os.path.dirname(hc), exist_ok=True)
    if c["hcstate"] == "ok":
        text = "# cmake executable path: %s/cmake\nset( X 1 CACHE STRING \"\" )\n" % bin_ if c["hcline"] else "# nothing\n"
        open(hc, "wb").write((b"# by J\xe9r\xf4me, \xff\n" if c["bytes"] else b"") + text.encode())
    # neighbours that look like build directories of other configurations
    for n in ("build-other-debug", "install-other-debug", "build", "install", "build-host", "outer"):
        os.makedirs(os.path.join(work, n)); open(os.path.join(work, n, "keep"), "w").write("keep\n")
    plat = os.path.basename(c["hc"])
    plat = plat[:-6] if plat.endswith(".cmake") else plat
    bt = c["bt"] or "Debug"
    argv, where = [], {}
    for opt, key, word in (("bp", "bp", "build"), ("ip", "ip", "install")):
        v = c[key]
        name = "%s-%s-%s" % (word, plat, bt.lower()) if v is None or v[0] is None else (word + "-" + v[0] if not v[0].startswith(".") else v[0])
        where[key] = os.path.join(work, name)
        if v is not None:
            fill(where[key], v[1])
            if v[0] is not None:
                val = where[key] if c["abs"] else name
                argv += [["-" + key, "--%spath" % word][c["long"]], val + ("/" if c["slash"] else "")]
    if c["nest"] == "ip in bp":
        where["ip"] = os.path.join(where["bp"], "inst"); argv += ["-ip", where["ip"]]
    elif c["nest"] == "bp in ip":
        where["ip"] = os.path.join(work, "both"); where["bp"] = where["ip"] + "/build"; argv += ["-ip", where["ip"], "-bp", where["bp"]]
        if c["abs"]:
            fill(where["ip"], "full"); fill(where["bp"], "full")
    elif c["nest"] == "same":
        where["ip"] = where["bp"] = os.path.join(work, "both"); argv += ["-ip", where["ip"], "-bp", where["bp"]]
        if c["abs"]:
            fill(where["bp"], "full")
    if c["bt"] is not None:
        argv += [["-bt", "--buildtype"][c["long"]], c["bt"]]
    argv += [FLAGS[k][c["long"]] for k in c["flags"]]
    if c["hcstate"] != "not given":
        argv += [["-hc", "--hostconfig"][c["long"]], hc if c["abs"] else c["hc"]]
    if c["mix"]:
        argv = c["unknown"] + argv
    else:
        argv = argv + c["unknown"]
    if c["locked"]:
        lock = os.path.dirname(where[c["locked"]]) if not os.path.exists(where[c["locked"]]) else where[c["locked"]]
        while not os.path.exists(lock):
            lock = os.path.dirname(lock)
        os.chmod(lock, 0o555)
    log = os.path.join(base, "log")
    if os.path.exists(log):
        os.remove(log)
    before = tree(d)
    env = dict(PATH=bin_, TOOL_LOG=log, TOOL_cmake=str(c["cmake"]), TOOL_dot=str(c["dot"]), HOME=d)
    rc, text = run_script(SCRIPT, TEXT, argv, work, timeout=20, env=env)
    if c["locked"]:
        os.chmod(lock, 0o755)
    calls = parse_log(log)
    after = tree(d)
    # what links point to is not the directory named
    hard = [k for k in ("bp", "ip") if c[k] is not None and c[k][1] in ("link", "dangling", "stuck", "file")]
    inside = lambda p: not p.startswith(os.path.relpath(os.path.join(work, "linked"), d) + "/") and any((os.path.join(d, p.rstrip("/")) + "/").startswith(where[k] + "/") for k in where)
    parent = lambda p: p.endswith("/") and any((where[k] + "/").startswith(os.path.join(d, p)) for k in where)
    bad = []
    if rc == "timeout":
        return [("termination", "does not end")]
    changed = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p) and not inside(p) and not (parent(p) and p not in before))
    if changed:
        bad.append(("elsewhere", "changed %s, outside the build and install directories" % changed[:3]))
    cm = [x for x in calls if x["tool"] == "cmake"]
    usable = c["hcstate"] == "ok" and c["bt"] in TYPES and not c["locked"]
    if not usable:
        if rc == 0:
            bad.append(("unusable", "exit 0 although %s" % ("the build type is unknown" if c["bt"] not in TYPES else "the directory cannot be written" if c["locked"] else "there is no host config")))
        return bad
    works = c["cmake"] == 0
    if hard and rc != 0:
        if any(f for x in cm for f in x["ls"] if os.path.basename(f) != "cmake_cmd"):
            bad.append(("emptied", "CMake ran in a build directory that holds other things"))
        return bad
    if works and rc != 0 and not (c["dot"] not in (0, None) and 4 in c["flags"]):
        return bad + [("status", "exit %s although CMake succeeded: %s" % (rc, text[-300:]))]
    if not works and rc == 0:
        bad.append(("status", "exit 0 although CMake %s" % ("is missing" if c["cmake"] == "missing" else "ended with %s" % c["cmake"])))
    if c["cmake"] == "missing":
        return bad
    if len(cm) != 1:
        return bad + [("once", "CMake was invoked %d times" % len(cm))]
    cm = cm[0]
    if os.path.realpath(cm["cwd"]) != os.path.realpath(where["bp"]) and not any(x.startswith("-B") for x in cm["args"]):
        bad.append(("directory", "CMake ran in %s, not in %s" % (cm["cwd"], where["bp"])))
    left = [f for f in cm["ls"] if os.path.basename(f) != "cmake_cmd" and not (c["nest"] == "ip in bp" and f == "inst")]
    if left:
        bad.append(("emptied", "the build directory still held %s" % left[:3]))
    s, rest = understand(cm["args"], cm["cwd"])
    rp = lambda p: os.path.realpath(os.path.join(cm["cwd"], p))
    if [rp(p) for p in s["C"]] != [os.path.realpath(hc)]:
        bad.append(("host config", "-C %s instead of %s" % (s["C"], hc)))
    if [rp(p) for p in s["source"]] != [os.path.realpath(REPO)]:
        bad.append(("source", "source directory %s" % s["source"]))
    if s["B"] and [rp(p) for p in s["B"]] != [os.path.realpath(where["bp"])]:
        bad.append(("directory", "-B %s" % s["B"]))
    want = {"CMAKE_BUILD_TYPE": bt}
    D = {}
    for k, v in s["D"]:
        if k in D:
            bad.append(("definitions", "%s is given twice" % k))
        D[k] = v
    if rp(D.pop("CMAKE_INSTALL_PREFIX", "?")) != os.path.realpath(where["ip"]):
        bad.append(("prefix", "the install prefix is %s, not %s" % (dict(s["D"]).get("CMAKE_INSTALL_PREFIX"), where["ip"])))
    if 3 in c["flags"]:
        if D.pop("CMAKE_EXPORT_COMPILE_COMMANDS", "off").upper() not in ("ON", "1", "TRUE", "YES", "Y"):
            bad.append(("definitions", "no compilation database asked for"))
    if D != want:
        bad.append(("definitions", "definitions %s instead of %s" % (D, want)))
    gen = [("Eclipse CDT4 - Unix Makefiles", "Xcode", "Ninja")[k] for k in c["flags"] if k < 3]
    if sorted(s["G"]) != sorted(gen):
        bad.append(("generator", "generators %s instead of %s" % (s["G"], gen)))
    if bool(s["graphviz"]) != (4 in c["flags"]):
        bad.append(("graphviz", "graphviz %s" % s["graphviz"]))
    if rest != c["unknown"]:
        bad.append(("arguments", "passed on %r instead of %r" % (rest, c["unknown"])))
    dots = [x for x in calls if x["tool"] == "dot"]
    if c["dot"] != "missing" and len(dots) != (1 if 4 in c["flags"] and works else 0) and works:
        bad.append(("dot", "dot was run %d times" % len(dots)))
    # the recorded command
    rel = os.path.relpath(where["bp"], d)
    files = [p for p, v in after.items() if os.path.dirname(p) == rel and not p.endswith("/") and isinstance(v, bytes) and b"cmake" in v]
    if len(files) != 1:
        bad.append(("recorded", "the build directory records the command in %s" % files))
    else:
        os.remove(log)
        subprocess.run(["/bin/sh", os.path.join(d, files[0])], cwd=where["bp"], env=dict(env, TOOL_cmake="0"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        again = parse_log(log)
        if [(x["tool"], x["args"]) for x in again] != [("cmake", cm["args"])]:
            bad.append(("recorded", "the recorded command runs %s instead of %s" % ([x["args"] for x in again], cm["args"])))
    return bad


def cases(thorough):
    def case(i, **k):
        c = dict(hc=HC[i % 2 * 3], hcstate="ok", hcline=i % 3 == 0, bp=DIRS[i % 9], ip=DIRS[(i // 9) % 9], bt=None, flags=(), unknown=[], cmake=0, dot=0,
                 cwd=("plain", "blank")[i % 2], abs=i % 5 == 0, long=i % 4 == 1, slash=i % 7 == 0, mix=i % 3 == 1, bytes=i % 4 == 2, locked=None, nest=None)
        c.update(k)
        return c
    subsets = [c for r in range(6) for c in itertools.combinations(range(5), r)]
    i = 0
    for f in subsets:
        for bt in TYPES:
            for u in UNKNOWN:
                for rep in range(6 if thorough else 1):
                    yield case(i + rep * 7, flags=f, bt=bt, unknown=u)
                i += 1
    # every directory state
    for bp in DIRS + [(None, "full"), (None, "empty")]:
        for ip in DIRS + [(None, "full")]:
            for hc in HC:
                for ab in (False, True):
                    for sl in ((False, True) if thorough else (i % 2 == 0,)):
                        for cwd in (("plain", "blank") if thorough else (("plain", "blank")[i // 2 % 2],)):
                            yield case(i, bp=bp, ip=ip, hc=hc, abs=ab, slash=sl, cwd=cwd, bt=TYPES[i % 5])
                            i += 1
    # directories that cannot be removed: links, files, somebody's
    for how in ("link", "dangling", "stuck", "file"):
        for n in ("out", "p/q/r", "with blank/b"):
            for other in (None, ("other", None), ("other", "full"), ("other", how)):
                for k in range(4):
                    for a, b in (("bp", "ip"), ("ip", "bp")):
                        yield case(i, abs=bool(k & 1), long=bool(k & 2), slash=False, cmake=(0, 0, 1)[i % 3], **{a: (n, how), b: other})
                        i += 1
    # nested directories
    for nest in ("ip in bp", "bp in ip", "same"):
        for ab in (False, True):
            for k in range(4):
                yield case(k, nest=nest, abs=ab, bp=None, ip=None)
    # every outcome of the tools
    for cm in (0, 1, 2, 77, 126, 127, 128, 130, 192, 254, 255, "kill", "missing"):
        for dot in (0, 1, "kill", "missing"):
            for f in subsets if thorough else ((), (4,), (2, 4), (0, 1, 2, 3, 4)):
                for u in ([], ["-DA=b c"]):
                    yield case(i, cmake=cm, dot=dot, flags=f, unknown=u)
                    i += 1
    # unusable inputs, with everything else varied
    for hs in ("missing", "not given", "ok"):
        for bt in ("Debug", "debug", "RELEASE", "Profile", ""):
            for lock in (None, "bp", "ip"):
                if hs == "ok" and bt == "Debug" and not lock:
                    continue
                for d in (DIRS[1], DIRS[3], DIRS[4], DIRS[7]):
                    for cm in (0, 1):
                        yield case(i, hcstate=hs, bt=bt, locked=lock, bp=d, ip=d, cmake=cm)
                        i += 1


def worker(job):
    base, chunk = job
    unprivileged()
    os.umask(0o022)
    n = os.open("/dev/null", os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(n, fd)
    d = os.path.join(base, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    found, n = [], 0
    for c in chunk:
        if enough(base):
            break
        bad = one_case(d, c)
        n += 1
        if bad:
            again = {k for k, _ in one_case(d, c)}
            found += [(k, m, c) for k, m in bad if k in again]
            confirmed(base)
        if len(found) > 12:
            break
    shutil.rmtree(d, ignore_errors=True)
    return found, n


def setup(text):
    global TEXT
    TEXT = text


def run(ctx):
    text = open(SCRIPT).read()
    setup(text)
    s = Scratch()
    try:
        cs = list(cases(ctx.thorough))
        jobs = [(s.dir, cs[k::4 * JOBS]) for k in range(4 * JOBS)]
        keys = set()
        with concurrent.futures.ProcessPoolExecutor(JOBS, initializer=setup, initargs=(text,)) as ex:
            for found, n in ex.map(worker, jobs):
                ctx.count(transitions=n, traces=n)
                for k, m, c in found:
                    if k not in keys:
                        keys.add(k)
                        ctx.add_violation(k, m + "  [%s]" % {a: b for a, b in c.items() if b}, dict(kind="case", case=c))
        ctx.count(states=len({str(sorted(c.items(), key=str)) for c in cs}))
        ctx.extra["distinct_combinations"] = dict(flags=len({c["flags"] for c in cs}), directories=len({(c["bp"], c["ip"]) for c in cs}), tool_outcomes=len({(c["cmake"], c["dot"]) for c in cs}))
        for c in cs[::max(1, len(cs) // 6)]:
            ctx.sample(str({a: b for a, b in c.items() if b}))
    finally:
        s.remove()
