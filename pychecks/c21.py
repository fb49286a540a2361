"""C21: the program of harness/c21_program.cpp in the full cross product of configurations; all outputs must agree, and
within each output constant evaluation must agree with run time."""
import concurrent.futures, itertools, os
from check import VERIF, JOBS, sh, CheckError

PARTS = 3
TOL = dict(d=1e-12, f=2e-5)


def configs(thorough):
    out = []
    if thorough:
        for cxx, std, opt, bounds, more in itertools.product(("g++", "clang++"), ("17", "20", "23"), ("-O0", "-O1", "-O2", "-O3", "-Os"), (True, False),
                                                             ((), ("-DNDEBUG",), ("-march=native", "-ffp-contract=fast"))):
            out.append((cxx, std, opt, bounds, more, "host"))
    else:
        for cxx, std, opt, bounds in itertools.product(("g++", "clang++"), ("17", "20"), ("-O0", "-O3"), (True, False)):
            out.append((cxx, std, opt, bounds, ("-DNDEBUG",) if opt == "-O3" and bounds == (std == "17") else (), "host"))
        for cxx, bounds in itertools.product(("g++", "clang++"), (True, False)):
            out.append((cxx, "23", "-O2", bounds, ("-DNDEBUG",), "host"))
    # other switches that users compile with
    out += [("g++", "17", "-Os", True, ("-std=gnu++17", "-fopenmp", "-D_GLIBCXX_ASSERTIONS"), "host"), ("clang++", "20", "-Os", False, ("-fno-rtti", "-fno-exceptions"), "host"),
            ("g++", "20", "-Og", False, ("-pthread", "-D_GLIBCXX_DEBUG", "-DDEBUG", "-D_DEBUG"), "host"), ("clang++", "17", "-O2", True, ("-march=native", "-fPIC", "-std=gnu++17"), "host"),
            ("g++", "17", "-O2", False, ("-march=native", "-funsigned-char", "-fno-rtti", "-fno-exceptions"), "host")]
    for cxx in ("g++", "clang++"):
        out.append((cxx, "17", "-O1", True, ("-fsanitize=address,undefined", "-fno-sanitize-recover=all"), "host"))
    # the device and CAMP configurations, on the emulated runtime; the device compilation pass of CUDA
    devices = [(x, c) for x in ("g++", "clang++") for c in ("cuda", "hip", "camp", "cuda-camp")] if thorough else [("g++", "cuda"), ("clang++", "hip"), ("g++", "camp"), ("clang++", "cuda-camp")]
    for k, (cxx, c) in enumerate(devices):
        for std in (("17", "20") if thorough else (("20", "17")[k % 2],)):
            out.append((cxx, std, "-O1", k % 2 == 0, (), c))
    out.append(("clang++", "17", "-O1", True, ("-D__CUDA_ARCH__=700", "-D__trap=__builtin_trap"), "cuda"))
    return out


def name(c):
    return "%s -std=c++%s %s bounds check %s%s%s" % (c[0], c[1], c[2], "on" if c[3] else "off", "".join(" " + m for m in c[4]), "" if c[5] == "host" else ", %s configuration" % c[5])


def compiling(ctx, c):
    if c[5] == "host":
        return ctx.includes(c[3])
    h = os.path.join(VERIF, "harness")
    options = [o for k, o in (("cuda", "-DSHIVA_ENABLE_CUDA=ON"), ("hip", "-DSHIVA_ENABLE_HIP=ON"), ("camp", "-DSHIVA_ENABLE_CAMP=ON")) if k in c[5].split("-")]
    return ctx.includes(c[3], options, True) + ["-I", h, "-I", os.path.join(h, "emu")] + (["-include", os.path.join(h, "emu/cuda_runtime.h")] if "cuda" in c[5] else [])


def parse(text):
    rows = []
    for line in text.splitlines():
        w = line.split()
        rows.append((w[0], w[1], w[2], [int(x) for x in w[3:]] if w[1] == "i" else [float(x) for x in w[3:]]))
    return rows


def differ(kind, a, b):
    if len(a) != len(b):
        return "%d values against %d" % (len(a), len(b))
    if kind == "i":
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "value %d is %d against %d" % (k, x, y)
        return None
    scale = max([abs(x) for x in a + b if x == x] + [0])
    for k, (x, y) in enumerate(zip(a, b)):
        if not abs(x - y) <= TOL[kind] * scale:
            return "value %d is %.17g against %.17g" % (k, x, y)
    return None


def run(ctx):
    ctx.includes(True), ctx.includes(False)
    if not ctx.canary():
        raise CheckError("the compiler does not work here")
    cfgs = configs(ctx.thorough)

    def one(job):
        i, p = job
        c = cfgs[i]
        exe = os.path.join(ctx.dir, "p%d_%d" % (p, i))
        cmd = [c[0], "-std=c++" + c[1], c[2], "-w"] + list(c[4]) + compiling(ctx, c) + ["-DPART=%d" % p, os.path.join(VERIF, "harness/c21_program.cpp"), "-o", exe]
        for attempt in range(2):
            rc, out = sh(cmd, timeout=600)
            if rc == 0:
                break
        if rc is None:
            raise CheckError("compilation did not end: " + " ".join(cmd))
        if rc != 0:
            return "compile", " | ".join(l for l in out.splitlines() if "error" in l)[:500] or out[-500:], cmd
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0")
        for attempt in range(2):
            rc, out = sh([exe], timeout=120, env=env)
            if rc == 0:
                break
        os.remove(exe)
        if rc != 0:
            return "run", "status %s: %s" % (rc, out[-500:]), cmd
        return "ok", parse(out), cmd

    jobs = [(i, p) for p in range(PARTS) for i in range(len(cfgs))]
    jobs.sort(key=lambda j: (j[1] == 0, -("O3" in cfgs[j[0]][2]), j))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = dict(zip(jobs, ex.map(one, jobs)))
    values = 0
    distinct = set()
    for p in range(PARTS):
        first = None
        for i, c in enumerate(cfgs):
            status, rows, cmd = res[(i, p)]
            if status != "ok":
                ctx.add_violation(status + ":%d" % p, "%s: %s" % (name(c), rows), dict(kind="program", cmd=" ".join(cmd)))
                continue
            # constant evaluation against run time
            seen = {}
            for n, kind, when, v in rows:
                values += len(v)
                ref = seen.setdefault(n, (when, v))
                d = differ(kind, v, ref[1])
                if d:
                    ctx.add_violation("constant:%s" % n, "%s: %s, %s (%s; %s)" % (name(c), n, d, when, ref[0]), dict(kind="program", cmd=" ".join(cmd)))
            if first is None:
                first = (c, rows)
                continue
            if [r[:3] for r in rows] != [r[:3] for r in first[1]]:
                ctx.add_violation("output", "%s prints other lines than %s" % (name(c), name(first[0])), dict(kind="program", cmd=" ".join(cmd)))
                continue
            for a, b in zip(rows, first[1]):
                d = differ(a[1], a[3], b[3])
                if d:
                    ctx.add_violation("differs:%s" % a[0], "%s (%s): %s, %s; %s" % (a[0], "constant" if a[2] == "c" else "run time", d, name(c), name(first[0])),
                                      dict(kind="program", cmd=" ".join(cmd)))
                    break
            distinct.add((p, repr([r[3] for r in rows])))
    lines = sum(len(r[1]) for r in res.values() if r[0] == "ok")
    ctx.count(states=lines, transitions=values, traces=len(jobs))
    ctx.extra["configurations"] = [name(c) for c in cfgs]
    ctx.extra["distinct_outputs"] = len(distinct)
    for j in jobs[:3]:
        if res[j][0] == "ok":
            ctx.sample("%s: %s" % (name(cfgs[j[0]]), " ".join(map(str, res[j][1][5]))[:300]))
