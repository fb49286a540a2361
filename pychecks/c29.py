"""C29: the continuous-integration scripts under every combination of their options and settings and every outcome of every
step. The scripts are run by bash, as an unprivileged user, from a copy of them in a scratch directory, with the fixed places
they use (/tmp/...) moved below it; what they call are stand-ins that record how they were called and fail when told to. The
call of the container engine recorded from the outer script is then carried out on the inner one. The code checks of
cmake/Macros.cmake are registered by CMake, with a stand-in for BLT, and run by CTest with a stand-in for the tool, under both
orders of the reader and the writer of its report."""
import concurrent.futures, itertools, os, re, shutil, signal, subprocess
from check import REPO, JOBS, known_findings
from pychecks.scratch import Scratch, unprivileged, enough, confirmed

OUTER, INNER = "ci_build_and_test.sh", "ci_build_and_test_in_container.sh"
BASH = shutil.which("bash") or "/bin/bash"
TEXTS = {}

STUB = """#!/bin/sh
C='%(ctl)s'
n=$(( $(cat "$C/n") + 1 )); echo $n > "$C/n"
{ printf 'CALL\\0%(name)s\\0%%s\\0' "$(pwd -P)"
  for a; do printf 'A%%s\\0' "$a"; done
  env -0 | while IFS= read -r e; do :; done
  env -0 > "$C/env.$n"
} >> "$C/log"
read -r at how < "$C/fail"
if [ "$at" = "$n" ]; then
  %(partly)s
  case "$how" in kill) kill -9 $$ ;; *) exit "$how" ;; esac
fi
%(effect)s
exit 0
"""
EFFECTS = {
    # what config-build does: a fresh build directory
    "python3": """while [ $# -gt 0 ]; do
  case "$1" in -bp|--buildpath) mkdir -p "$2"; shift ;; -bp?*) mkdir -p "${1#-bp}" ;; --buildpath=*) mkdir -p "${1#*=}" ;; esac
  shift
done""",
    "make": """d=.; [ "$1" = -C ] && d=$2
for a; do if [ "$a" = shiva_coverage ] && [ -e "$C/coverage" ]; then echo covered > "$d/shiva_coverage.info.cleaned"; fi; done""",
    "cmake": """d=.; [ "$1" = --build ] && d=$2
for a; do if [ "$a" = shiva_coverage ] && [ -e "$C/coverage" ]; then echo covered > "$d/shiva_coverage.info.cleaned"; fi; done""",
    "ctest": "", "docker": "", "podman": "", "ninja": "",
}
CHECKS = {"--test-code-style": {"testUncrustifyCheck"}, "--test-doxygen": {"testDoxygenCheck"}, "--code-checks": {"testCppCheck", "testClangTidy"}}
LINT = set().union(*CHECKS.values())
UNIT = {"testCArray", "testIndexTypes", "testNestedSequenceUtilities", "testSequenceUtilities", "testShivaErrorHandling", "testParentElement", "testLagrangeBasis",
        "testQuadrature", "testSpacing", "testLinearTransform", "testScaling", "testUniformScaling", "testInterpolatedShape", "testNCube", "testNSimplex"}


def ended(argv, cwd, env, timeout):
    """(exit status, output) of a command; nothing of it is left running."""
    try:
        p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    except OSError as x:
        return "cannot be run (%s)" % x, ""
    try:
        out = p.communicate(timeout=timeout)[0]
        return p.returncode, out
    except subprocess.TimeoutExpired:
        return "does not end", ""
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


class World:
    """A scratch machine: the checked-out sources, the fixed places of the scripts, the stand-ins."""

    def __init__(self, d, blank=False):
        self.d = d
        shutil.rmtree(d, ignore_errors=True)
        self.work = w_path(d, blank)
        self.tmp, self.bin, self.ctl = (os.path.join(d, x) for x in ("tmp", "bin", "ctl"))
        for x in (os.path.join(self.work, "scripts"), os.path.join(self.work, "hostconfigs"), self.tmp, self.bin, self.ctl):
            os.makedirs(x)
        for n in (OUTER, INNER):
            p = os.path.join(self.work, "scripts", n)
            # the fixed places, moved below the scratch directory
            open(p, "w").write(re.sub(r"/tmp\b", self.tmp, TEXTS[n]))
            os.chmod(p, 0o755)
        open(os.path.join(self.work, "scripts", "config-build.py"), "w").write("#!/usr/bin/env python3\n")
        os.chmod(os.path.join(self.work, "scripts", "config-build.py"), 0o755)
        for n, e in EFFECTS.items():
            p = os.path.join(self.bin, n)
            open(p, "w").write(STUB % dict(ctl=self.ctl, name=n, effect=e, partly='if [ -e "$C/partly" ]; then\n%s\nfi' % e if e and n != "python3" else ":"))
            os.chmod(p, 0o755)
        p = os.path.join(self.bin, "nproc")
        open(p, "w").write("#!/bin/sh\necho 7\n")
        os.chmod(p, 0o755)

    def run(self, argv, cwd, env, fail, coverage=True, timeout=20, partly=False):
        """(exit status, calls) of a command with the stand-ins on its path."""
        for f in os.listdir(self.ctl):
            os.remove(os.path.join(self.ctl, f))
        open(self.ctl + "/n", "w").write("0\n")
        open(self.ctl + "/fail", "w").write("%s %s\n" % (fail or (0, 0)))
        if coverage:
            open(self.ctl + "/coverage", "w").close()
        if partly:
            open(self.ctl + "/partly", "w").close()
        e = dict(env, PATH=self.bin + ":/usr/bin:/bin", HOME=self.d, LC_ALL="C.UTF-8")
        r = ended(argv, cwd, e, timeout)[0]
        calls = []
        if os.path.exists(self.ctl + "/log"):
            it = iter(open(self.ctl + "/log", "rb").read().decode(errors="surrogateescape").split("\0")[:-1])
            for w in it:
                if w == "CALL":
                    calls.append(dict(tool=next(it), cwd=next(it), args=[]))
                else:
                    calls[-1]["args"].append(w[1:])
            for k, c in enumerate(calls):
                c["env"] = dict(x.split("=", 1) for x in open("%s/env.%d" % (self.ctl, k + 1), "rb").read().decode(errors="surrogateescape").split("\0") if "=" in x)
        return r, calls


def options(args, valued, plain):
    """A command line as ({option: [values]}, words): options of the first kind take a value."""
    o, words, it = {}, [], iter(args)
    for a in it:
        for v in valued:
            if a == v:
                o.setdefault(valued[v], []).append(next(it, None))
                break
            if a.startswith(v + "=") and v.startswith("-"):
                o.setdefault(valued[v], []).append(a[len(v) + 1:])
                break
            if len(v) == 2 and v[0] == "-" and a.startswith(v) and not a.startswith("--"):
                o.setdefault(valued[v], []).append(a[2:])
                break
        else:
            if a in plain:
                o.setdefault(a, []).append(True)
            else:
                words.append(a)
    return o, words


def step(w, c):
    """What a recorded call asks for: (kind, details)."""
    rp = os.path.realpath
    here = lambda p: rp(os.path.join(c["cwd"], p))
    build = rp(os.path.join(w.tmp, "build"))
    a = c["args"]
    if c["tool"] == "python3" and a and here(a[0]) == rp(os.path.join(w.work, "scripts/config-build.py")):
        # the last option that is no definition takes what follows; definitions are passed on
        o, words = {}, []
        it = iter(a[1:])
        names = {"-hc": "hc", "--hostconfig": "hc", "-bt": "bt", "--buildtype": "bt", "-bp": "bp", "--buildpath": "bp", "-ip": "ip", "--installpath": "ip"}
        for x in it:
            k = x.split("=", 1)[0]
            if k in names and x.startswith("--") and "=" in x:
                o[names[k]] = x.split("=", 1)[1]
            elif x in names:
                o[names[x]] = next(it, None)
            else:
                words.append(x)
        defs = {}
        for x in words:
            m = re.match(r"^-D([^:=]*)(?::[A-Z]+)?=(.*)$", x, re.S)
            if not m:
                return ("odd", "configures with %r" % words)
            defs[m.group(1)] = m.group(2)
        return ("configure", (o.get("hc"), o.get("bt"), here(o["bp"]) if o.get("bp") else None, here(o["ip"]) if o.get("ip") else None, tuple(sorted(defs.items()))))
    if c["tool"] == "ctest":
        o, words = options(a, {"-R": "R", "--tests-regex": "R", "-E": "E", "--exclude-regex": "E", "--test-dir": "dir", "-j": "j", "--parallel": "j", "--timeout": "t"}, {"--output-on-failure", "-V", "-VV", "--verbose", "--extra-verbose", "--no-tests"})
        words = [x for x in words if not x.startswith("--no-tests")]
        if words or here((o.get("dir") or ["."])[0]) != build:
            return ("odd", "tests with %r in %s" % (a, c["cwd"]))
        try:
            chosen = {t for t in LINT | UNIT if all(re.search(r, t) for r in o.get("R", [])) and not any(re.search(r, t) for r in o.get("E", []))}
        except re.error:
            return ("odd", "tests with %r" % a)
        return ("test", frozenset(chosen))
    if c["tool"] in ("make", "ninja", "cmake"):
        o, words = options(a, {"-C": "dir", "--build": "dir", "-j": "j", "--jobs": "j", "--parallel": "j", "--target": "target", "-t": "target"}, {"-k", "--verbose", "-v", "--"})
        words = [x for x in words if not re.match(r"^[A-Z_]+=", x)]
        if here((o.get("dir") or ["."])[0]) != build:
            return ("odd", "builds in %s" % c["cwd"])
        j = (o.get("j") or [None])[0]
        targets = tuple(sorted(set(o.get("target", []) + words) - {"all"}))
        return ("make", targets, j)
    return ("odd", "%s %r in %s" % (c["tool"], a, c["cwd"]))


def wanted(w, flags, env):
    """The steps asked for, in order; None: the settings are refused. A list in the plan stands for steps whose selection among
    several code checks is not settled."""
    if not env.get("HOST_CONFIG") or not env.get("CMAKE_BUILD_TYPE"):
        return None
    rp = os.path.realpath
    plan = [("configure", (env["HOST_CONFIG"], env["CMAKE_BUILD_TYPE"], rp(os.path.join(w.tmp, "build")), rp(os.path.join(w.tmp, "install")), (("ENABLE_COVERAGE", "ON" if "--code-coverage" in flags else "OFF"),)))]
    asked = [f for f in CHECKS if f in flags]
    if asked:
        return plan + [("test", frozenset(CHECKS[asked[0]]))] if len(asked) == 1 and not {"--code-coverage", "--build-exe"} & set(flags) else plan + [...]
    if "--code-coverage" in flags:
        plan += [("make", ()), ("make", ("shiva_coverage",)), ("deliver",)]
    if "--build-exe" in flags:
        plan += [("make", ())]
        if "--disable-unit-tests" not in flags:
            plan += [("test", frozenset(UNIT))]
    return plan


def judge(w, c, env, rc, calls, nproc):
    """[(key, message)] for one run of the inner script."""
    bad = []
    plan = wanted(w, c["flags"], env)
    steps = [step(w, x) for x in calls]
    if isinstance(rc, str):
        return [("ends", "the script %s" % rc)]
    odd = [s[1] for s in steps if s[0] == "odd"]
    if odd:
        return [("step", "it %s" % odd[0])]
    if plan is None:
        if steps or rc == 0:
            bad.append(("refusal", "without its settings it runs %s and exits with %s" % ([s[0] for s in steps], rc)))
        return bad
    for s in steps:
        if s[0] == "make" and nproc and (s[2] is None or not s[2].isdigit() or int(s[2]) < 1 or nproc != "some" and s[2] != nproc) and s[1] == ():
            bad.append(("jobs", "it builds with %s jobs for NPROC=%s" % (s[2], nproc)))
    done = [(s[0], s[1]) for s in steps]
    failed = c["fail"] is not None and len(done) >= c["fail"][0]
    if failed:
        if len(done) > c["fail"][0]:
            bad.append(("goes-on", "after %s failed (%s) it goes on with %s" % (done[c["fail"][0] - 1], c["fail"][1], done[c["fail"][0]:])))
        if rc == 0:
            bad.append(("status", "it exits with 0 although %s failed (%s)" % (done[c["fail"][0] - 1], c["fail"][1])))
    if plan[-1] is ...:
        # several things at once with a code check: which are done is not settled, but what is done counts
        if done[:1] != plan[:1]:
            bad.append(("steps", "it runs %s first, not %s" % (done[:1], plan[:1])))
        elif not failed and len(done) < 2:
            bad.append(("steps", "it does nothing of what was asked for"))
        return bad
    # what is to be delivered is a matter of files, and building twice is as good as once
    def squeeze(p):
        r, built = [], False
        for s in p:
            if s == ("deliver",) or s == ("make", ()) and built:
                continue
            built = built or s == ("make", ())
            r.append(s)
        return r
    want, got = squeeze(plan), squeeze(done)
    cannot = ("deliver",) in plan and c["deliver"] != "ok"
    lost = None
    if ("deliver",) in plan:
        p = os.path.join(w.tmp, "Shiva", "shiva_coverage.info.cleaned")
        lost = not (os.path.isfile(p) and open(p).read() == "covered\n")
    if failed:
        if got != want[:len(got)]:
            bad.append(("steps", "it runs %s, not %s" % (got, want)))
    elif cannot:
        if rc == 0:
            bad.append(("status", "it exits with 0 although the coverage report could not be delivered (%s)" % c["deliver"]))
    else:
        if got != want:
            bad.append(("steps", "it runs %s, not %s" % (got, want)))
        if lost:
            bad.append(("delivery", "the coverage report does not arrive"))
        if rc != 0:
            bad.append(("status", "it exits with %s although everything went well" % rc))
    return bad


def inner_case(d, c):
    w = World(d)
    os.symlink(w.work, os.path.join(w.tmp, "Shiva"))
    if c["left"]:
        os.makedirs(os.path.join(w.tmp, "build"))
        open(os.path.join(w.tmp, "build", "old"), "w").close()
    if c["deliver"] == "unwritable":
        os.chmod(w.work, 0o555)
    env = {k: v for k, v in dict(HOST_CONFIG=c["hc"], CMAKE_BUILD_TYPE=c["bt"], NPROC=c["nproc"]).items() if v is not None}
    at = os.path.join(w.tmp, "Shiva/scripts", INNER)
    cwd, argv = {"abs": ("/", [at]), "root": (w.work, ["scripts/" + INNER]), "here": (os.path.join(w.work, "scripts"), ["./" + INNER]),
                 "bash": (w.tmp, [BASH, "Shiva/scripts/" + INNER])}[c["from"]]
    rc, calls = w.run(argv + list(c["flags"]) + list(c["more"]), cwd, env, c["fail"], coverage=c["deliver"] != "missing", partly=c.get("partly", False))
    bad = judge(w, c, env, rc, calls, c["nproc"])
    os.chmod(w.work, 0o755)
    return bad


def docker(args):
    """A 'run' of the container engine: (environment given, passed on, volumes, image, command, the other options)."""
    valued = {"-e", "--env", "-v", "--volume", "-w", "--workdir", "--name", "--user", "-u", "--cap-add", "--cpus", "--memory", "-m", "--runtime", "--gpus", "--entrypoint", "--env-file", "--network"}
    env, passed, vols, other = {}, [], [], []
    it = iter(args[1:])
    for a in it:
        if not a.startswith("-"):
            return env, passed, vols, a, list(it), other
        k, v = a, None
        if a.startswith("--") and "=" in a:
            k, v = a.split("=", 1)
        elif a in valued:
            v = next(it, "")
        if k in ("-e", "--env"):
            if "=" in v:
                env[v.split("=", 1)[0]] = v.split("=", 1)[1]
            else:
                passed.append(v)
        elif k in ("-v", "--volume"):
            vols.append(v)
        else:
            other.append((k, v))
    return env, passed, vols, None, [], other


SETTINGS = ("HOST_CONFIG", "CMAKE_C_COMPILER", "CMAKE_CXX_COMPILER", "ENABLE_CUDA", "CMAKE_CUDA_ARCHITECTURES", "CMAKE_BUILD_TYPE", "NPROC")


def outer_case(d, c):
    split = ["split-" + k for k, v in sorted(c["env"].items()) if v and " " in v] + ["split-workspace"] * c["blank"]
    if split:
        # as it is called without the blanks: splitting there, and nowhere else, is a known finding of its own
        _, plain, env, rc, calls = outer_run(d, dict(c, blank=False, env={k: v and v.replace(" ", NOBLANK) for k, v in c["env"].items()}))
        apart = [y for x in calls[0]["args"] for y in x.replace(plain.work, w_path(d, c["blank"])).replace(NOBLANK, " ").split()] if len(calls) == 1 else None
    _, w, env, rc, calls = outer_run(d, c)
    if split and len(calls) == 1 and calls[0]["args"] == apart:
        return [(k, "%s is split at its blanks: the container engine is given %s" % (k[6:], apart)) for k in split]
    return outer_judge(w, c, env, rc, calls)


UNHANDED = "NPROC-unset"
NOBLANK = "_noblank_"


def w_path(d, blank):
    return os.path.join(d, "work space" if blank else "workspace")


def outer_run(d, c):
    w = World(d, blank=c["blank"])
    env = {k: v for k, v in c["env"].items() if v is not None}
    env.update(GITHUB_WORKSPACE=w.work, DOCKER_REPOSITORY="geosx/ubuntu:22.04-123")
    if c["run_args"] is not None:
        env["DOCKER_RUN_ARGS"] = c["run_args"]
    words = list(c["flags"])
    if words or c["some"]:
        env["BUILD_AND_TEST_ARGS"] = c["some"] + " ".join(words)
    cwd, argv = {"abs": ("/", [os.path.join(w.work, "scripts", OUTER)]), "root": (w.work, ["./scripts/" + OUTER]), "bash": (w.tmp, [BASH, os.path.join(w.work, "scripts", OUTER)])}[c["from"]]
    rc, calls = w.run(argv, cwd, env, (1, c["engine"]) if c["engine"] else None)
    return None, w, env, rc, calls


def outer_judge(w, c, env, rc, calls):
    """[(key, message)] for one run of the outer script."""
    if len(calls) != 1 or calls[0]["tool"] not in ("docker", "podman") or calls[0]["args"][:1] != ["run"]:
        return [("container", "it does not run one container: %s" % [(x["tool"], x["args"]) for x in calls])]
    bad, found = [], []
    if (rc == 0) != (c["engine"] is None):
        bad.append(("container-status", "it exits with %s when the container ends with %s" % (rc, c["engine"] or 0)))
    given, passed, vols, image, command, other = docker(calls[0]["args"])
    inside = dict(given)
    for k in passed:
        if k in calls[0]["env"]:
            inside[k] = calls[0]["env"][k]
    if image != "geosx/ubuntu:22.04-123":
        bad.append(("image", "the image is %s" % image))
        return bad + found
    for k in SETTINGS:
        want = env.get(k, "")
        got = inside.get(k, "")
        if k == "NPROC" and not want:
            if "NPROC" not in env and "NPROC" in passed and not got:
                # found by the script and kept to itself: go on with what was to arrive
                found.append((UNHANDED, "the number of processors found when NPROC is not set does not reach the container"))
                inside["NPROC"] = "7"
            elif not got.isdigit() or int(got) < 1:
                bad.append(("NPROC", "NPROC is %r in the container when it is not set outside" % got))
        elif got != want:
            bad.append(("setting", "%s is %r in the container, not %r" % (k, got, want)))
    for k, o in (("CC", "CMAKE_C_COMPILER"), ("CXX", "CMAKE_CXX_COMPILER")):
        if inside.get(k, "") != env.get(o, ""):
            bad.append(("setting", "%s is %r in the container, not %r" % (k, inside.get(k, ""), env.get(o, ""))))
    flat = [x for k, v in other for x in (["%s=%s" % (k, v)] if v is not None else [k])]
    for x in re.sub(r" (?=all)", "=", c["run_args"] or "").split():
        if x not in flat:
            bad.append(("engine-options", "the option %s of the engine is lost: %s" % (x, flat)))
    # the volumes: the sources, where the script is looked for
    where = [v for v in vols if os.path.realpath(v.rsplit(":", 1)[0]) == os.path.realpath(w.work)]
    if len(where) != 1 or len(vols) != 1:
        bad.append(("volume", "the volumes are %s" % vols))
        return bad + found
    mount = where[0].rsplit(":", 1)[1]
    if not command or not command[0].startswith(mount + "/"):
        bad.append(("command", "the command is %s with the sources at %s" % (command, mount)))
        return bad + found
    if not os.path.realpath(mount).startswith(os.path.realpath(w.tmp) + "/"):
        bad.append(("volume", "the sources are at %s" % mount))
        return bad + found
    if bad or c["engine"]:
        return bad + found
    # the container
    os.symlink(w.work, mount)
    rc, calls = w.run(command, "/", inside, c["fail"])
    return found + [("inside-" + k, m) for k, m in judge(w, dict(c, deliver="ok"), {k: v for k, v in inside.items()}, rc, calls, env.get("NPROC") or "some")]


def cases(thorough):
    def case(**k):
        c = {"kind": "inner", "flags": (), "more": (), "hc": "hostconfigs/environment.cmake", "bt": "Release", "nproc": "4", "from": "abs", "fail": None, "deliver": "ok", "left": False}
        c.update(k)
        return c
    work = ("--code-coverage", "--build-exe", "--disable-unit-tests")
    orders = [p for r in range(4) for s in itertools.combinations(work, r) for p in itertools.permutations(s)]
    lint = [(f,) for f in CHECKS] + [p for f in CHECKS for p in ((f, "--disable-unit-tests"), ("--disable-unit-tests", f))]
    fails = [None] + [(k, h) for k in range(1, 6) for h in (1, 2, 8, 127, 255, "kill")]
    i = 0
    for f in orders + lint:
        for fail in fails:
            for more in ((), ("--something",)) if fail is None or thorough else ((),):
                for way in ("abs", "root", "here", "bash") if thorough or fail is None else (("abs", "root", "here", "bash")[i % 4],):
                    yield case(flags=f, fail=fail, more=more, left=i % 3 == 0, nproc=("4", "1", "16")[i % 3], **{"from": way})
                    i += 1
    # every set of flags
    flags = tuple(CHECKS) + work
    for r in range(7):
        for f in itertools.combinations(flags, r):
            for fail in [None] + [(k, h) for k in range(1, 4) for h in ((1, 255, "kill") if thorough else (1,))]:
                yield case(flags=f if i % 2 else f[::-1], fail=fail, **{"from": ("abs", "root")[i % 2]})
                i += 1
    # settings
    for hc in (None, "", "hostconfigs/environment.cmake", "hostconfigs/LLNL/quartz-gcc-12.cmake", "/else/where.cmake", "host configs/mine.cmake"):
        for bt in (None, "", "Debug", "Release", "RelWithDebInfo"):
            for np in (None, "1", "3"):
                for f in ((), ("--build-exe",), ("--code-checks",), ("--code-coverage", "--build-exe")):
                    for left in (False, True):
                        for fail in (None, (1, 3)):
                            yield case(hc=hc, bt=bt, nproc=np, flags=f, left=left, fail=fail)
    # what is to be delivered cannot be
    for f in orders:
        if "--code-coverage" in f:
            for dl in ("unwritable", "missing"):
                for left in (False, True):
                    yield case(flags=f, deliver=dl, left=left)
    # a step fails although it has made what is asked of it
    for f in orders:
        if "--code-coverage" in f:
            for k in range(1, 6):
                for h in (1, 2, "kill"):
                    yield case(flags=f, fail=(k, h), partly=True, left=k % 2 == 0)
    # the outer script, and the inner one with what it hands over
    full = dict(HOST_CONFIG="hostconfigs/environment.cmake", CMAKE_C_COMPILER="/usr/bin/clang", CMAKE_CXX_COMPILER="/usr/bin/clang++", ENABLE_CUDA="ON", CMAKE_CUDA_ARCHITECTURES="86", CMAKE_BUILD_TYPE="Debug", NPROC="3")
    def out(**k):
        c = {"kind": "outer", "env": full, "run_args": None, "flags": ("--build-exe",), "some": "", "from": "root", "engine": None, "fail": None, "blank": False}
        c.update(k)
        return c
    for r in range(len(full) + 1):
        for off in itertools.combinations(full, r):
            for v in ((None, "") if r and (thorough or r <= 2 or r >= 6) else (None,)):
                yield out(env={k: v if k in off else x for k, x in full.items()})
    for f in orders + lint:
        for fail in (None, (1, 1), (2, 2), (3, 1), (4, 8)):
            yield out(flags=f, fail=fail, some=" " if i % 2 else "", run_args=(None, "", "--cpus=1 --memory=64g", "--cpus=1 --memory=64g --runtime=nvidia --gpus all")[i % 4], **{"from": ("root", "abs", "bash")[i % 3]})
            i += 1
    for eng in (None, 1, 2, 125, 126, 127, 137, 255, "kill"):
        for way in ("root", "abs", "bash"):
            for f in ((), ("--build-exe",)):
                yield out(engine=eng, flags=f, **{"from": way})
    # settings and places with blanks
    for blank in (False, True):
        for k, v in (("CMAKE_CXX_COMPILER", "ccache g++"), ("CMAKE_C_COMPILER", "ccache gcc"), ("HOST_CONFIG", "host configs/a.cmake"), ("CMAKE_CUDA_ARCHITECTURES", "70;86"), ("CMAKE_BUILD_TYPE", "Release"), ("CMAKE_CXX_COMPILER", "/opt/a*b/g++")):
            if not blank or " " not in v:
                yield out(env=dict(full, **{k: v}), blank=blank)


# ---- the code checks ------------------------------------------------------------------------------------------------
# a stand-in for BLT that says what it was given
BLT = """set( BLT_LOADED ON )
set( CPPCHECK_FOUND ON )
set( CLANGTIDY_FOUND ON )
enable_testing()
function( blt_add_code_checks )
  cmake_parse_arguments( arg "" "PREFIX;UNCRUSTIFY_CFG_FILE" "SOURCES;CPPCHECK_FLAGS" ${ARGN} )
  file( WRITE "${CMAKE_BINARY_DIR}/given.txt" "${arg_UNCRUSTIFY_CFG_FILE}\n" )
  foreach( f ${arg_SOURCES} )
    file( APPEND "${CMAKE_BINARY_DIR}/given.txt" "${f}\n" )
  endforeach()
endfunction()
macro( blt_add_code_coverage_target )
endmacro()
macro( blt_add_code_coverage )
endmacro()
"""
# the tool: so many lines on standard error, and its status; when the report is in time, it waits for it to be in some file
TOOL = """#!/bin/sh
i=0
while [ $i -lt %(lines)d ]; do echo "x.cpp:$i: problem" >&2; i=$((i+1)); done
if [ %(late)d = 0 ] && [ %(lines)d -gt 0 ]; then
  t=0
  while [ $t -lt 40 ]; do
    for f in *.err; do [ -e "$f" ] && [ "$(wc -l < "$f")" -ge %(lines)d ] && t=1000; done
    sleep 0.05; t=$((t+1))
  done
fi
exit %(status)d
"""
TEE = """#!/bin/sh
[ %(late)d = 1 ] && sleep 0.7
exec /usr/bin/tee "$@"
"""


def lint_project(d, place):
    """The sources at a place, configured with the stand-in for BLT: (source directory, build directory)."""
    src, bld, blt = os.path.join(d, "lint", place), os.path.join(d, "lint-out"), os.path.join(d, "lint-blt")
    os.makedirs(src)
    os.makedirs(blt)
    open(blt + "/SetupBLT.cmake", "w").write(BLT)
    for f in ("CMakeLists.txt", "cmake", "include", "tests", "hostconfigs"):
        p = os.path.join(REPO, f)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(src, f))
        else:
            shutil.copy(p, src)
    rc, out = ended(["cmake", "-S", src, "-B", bld, "-DSHIVA_ENABLE_BLT=ON", "-DBLT_SOURCE_DIR=" + blt], d, dict(os.environ), 120)
    return src, bld, "%s %s" % (rc, out[-400:]) if rc else None


_made = {}


def lint_case(d, c):
    d = d + "-lint"
    if _made.get("place") != (d, c["place"]):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _made["project"] = lint_project(d, c["place"])
        _made["place"] = (d, c["place"])
    src, bld, trouble = _made["project"]
    if trouble:
        return [("lint", "the code checks cannot be configured: %s" % trouble)]
    if c["test"] == "given":
        given = open(bld + "/given.txt").read().split("\n") if os.path.exists(bld + "/given.txt") else [""]
        bad = []
        if not os.path.isfile(given[0]):
            bad.append(("lint-style", "the style check is given a configuration that does not exist: %s" % given[0].replace(src, "<source>")))
        have = {os.path.realpath(x) for x in given[1:] if x}
        must = {os.path.realpath(os.path.join(p, f)) for p, _, fs in os.walk(src + "/include") for f in fs if f.endswith(".hpp")}
        if must - have:
            bad.append(("lint-sources-" + c["place"], "the code checks leave out %d of %d headers when the sources are in .../%s: %s ..." % (len(must - have), len(must), c["place"], sorted(os.path.relpath(x, src) for x in must - have)[0])))
        return bad
    shutil.rmtree(d + "/bin", ignore_errors=True)
    os.makedirs(d + "/bin")
    for f in os.listdir(bld):
        if f.endswith(".err"):
            os.remove(os.path.join(bld, f))
    for f in ("cppcheck.err", "tidyCheck.err") if c["stale"] else ():
        open(os.path.join(bld, f), "w").write("old problem\n" * 3)
    for n, t in (("make", TOOL), ("ninja", TOOL), ("gmake", TOOL), ("tee", TEE)):
        open(d + "/bin/" + n, "w").write(t % c)
        os.chmod(d + "/bin/" + n, 0o755)
    rc, out = ended(["ctest", "-R", "^%s$" % c["test"], "--no-tests=error"], bld, dict(os.environ, PATH=d + "/bin:" + os.environ["PATH"]), 60)
    if "No tests were found" in out:
        return [("lint", "there is no test %s" % c["test"])]
    want = c["lines"] == 0 and c["status"] == 0
    if (rc == 0) != want:
        return [("lint-%s-%d-%d-%s" % (c["test"], c["lines"], c["status"], "late" if c["late"] else "in-time"),
                 "%s %s when its tool ends with %d and reports %d problems%s" % (c["test"], "passes" if rc == 0 else "fails", c["status"], c["lines"], ", written after the tool has ended" if c["late"] else ""))]
    return []


def lint_cases(thorough):
    for t in ("testCppCheck", "testClangTidy"):
        for st in (0, 1, 2):
            for n in (0, 1, 2, 100, 255, 256, 257, 512, 513) if thorough or st == 0 else (0, 1, 256):
                for late in (0, 1) if n < 3 else (0,):
                    for stale in (0, 1) if n < 2 else (0,):
                        yield dict(kind="lint", test=t, lines=n, status=st, late=late, stale=stale, place="checked out")
    # what the checks are given, wherever the sources are
    for place in ("Shiva", "builds/me/Shiva", "camp/blt/Shiva", "with blank/Shiva", "rebuild"):
        yield dict(kind="lint", test="given", place=place, lines=0, status=0, late=0, stale=0)


def one_case(d, c):
    return lint_case(d, c) if c["kind"] == "lint" else inner_case(d, c) if c["kind"] == "inner" else outer_case(d, c)


def worker(job):
    base, chunk, known = job
    unprivileged()
    os.umask(0o022)
    n = os.open("/dev/null", os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(n, fd)
    os.environ["HOME"] = base
    d = os.path.join(base, "w%d" % os.getpid())
    found, n = [], 0
    for c in chunk:
        if enough(base):
            break
        bad = one_case(d, c)
        n += 1
        if bad:
            again = {k for k, _ in one_case(d, c)}
            found += [(k, m, c) for k, m in bad if k in again]
            if c["kind"] != "lint" and any(k not in known for k in again):
                confirmed(base)
        if sum(k not in known for k, _, _ in found) > 40:
            break
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(d + "-lint", ignore_errors=True)
    _made.clear()
    return found, n


def setup(texts):
    TEXTS.update(texts)


def run(ctx):
    texts = {n: open(os.path.join(REPO, "scripts", n), encoding="utf-8", errors="surrogateescape").read() for n in (OUTER, INNER)}
    setup(texts)
    s = Scratch()
    try:
        cs = list(cases(ctx.thorough)) + list(lint_cases(ctx.thorough))
        known = frozenset(known_findings(ctx.prop))
        jobs = [(s.dir, part, known) for part in [[c for c in cs if c["kind"] != "lint"][k::3 * JOBS] for k in range(3 * JOBS)] + [[c for c in cs if c["kind"] == "lint"][k::JOBS] for k in range(JOBS)] if part]
        keys = set()
        with concurrent.futures.ProcessPoolExecutor(JOBS, initializer=setup, initargs=(texts,)) as ex:
            for found, n in ex.map(worker, jobs):
                ctx.count(transitions=n, traces=n)
                for k, m, c in found:
                    if k not in keys:
                        keys.add(k)
                        ctx.add_violation(k, m + "  [%s]" % {a: b for a, b in c.items() if b}, dict(kind="case", case=c))
        ctx.count(states=len({str(sorted(c.items(), key=str)) for c in cs}))
        ctx.extra["cases"] = {k: sum(c["kind"] == k for c in cs) for k in ("inner", "outer", "lint")}
        for c in cs[::max(1, len(cs) // 6)]:
            ctx.sample(str({a: b for a, b in c.items() if b}))
    finally:
        s.remove()
