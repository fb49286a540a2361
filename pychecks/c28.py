"""C28: the CMake build system in every combination of its options, along every short history of reconfigurations, and
through every way of consuming the library. Everything runs as an unprivileged user inside a scratch directory."""
import concurrent.futures, filecmp, itertools, json, os, re, shlex, shutil, subprocess
from check import REPO, VERIF, JOBS, CheckError
from pychecks.scratch import NOBODY, Scratch

OPTS = ["SHIVA_ENABLE_CUDA", "SHIVA_ENABLE_HIP", "SHIVA_ENABLE_UNIT_TESTS", "SHIVA_ENABLE_CAMP", "SHIVA_BUILD_OBJ_LIBS", "SHIVA_ENABLE_BOUNDS_CHECK",
        "ENABLE_CUDA", "ENABLE_HIP"]
YES, NO = ["ON", "1", "TRUE", "Yes", "y", "on"], ["OFF", "0", "FALSE", "No", "n", "off", "NO", ""]
IN_HEADER = ["SHIVA_ENABLE_CUDA", "SHIVA_ENABLE_HIP", "SHIVA_ENABLE_CAMP", "SHIVA_ENABLE_BOUNDS_CHECK"]
CONSUMER_MACROS = IN_HEADER + ["SHIVA_VERSION_MAJOR", "SHIVA_VERSION_MINOR", "SHIVA_VERSION_PATCHLEVEL", "SHIVA_CUDA_MAJOR", "SHIVA_CUDA_MINOR"]

BLT = """set( BLT_LOADED TRUE )
macro( blt_add_code_checks )
endmacro()
macro( blt_add_executable )
  cmake_parse_arguments( _b "" "NAME;OUTPUT_DIR" "SOURCES;HEADERS;DEPENDS_ON" ${ARGN} )
  file( APPEND ${CMAKE_BINARY_DIR}/blt.txt "executable ${_b_NAME} ${_b_SOURCES}\\n" )
endmacro()
macro( blt_add_test )
  cmake_parse_arguments( _b "" "NAME" "COMMAND" ${ARGN} )
  file( APPEND ${CMAKE_BINARY_DIR}/blt.txt "test ${_b_NAME}\\n" )
endmacro()
"""


def run_as_user(cmd, cwd, env=None, timeout=300):
    """(exit status, output), as an unprivileged user; exit status None when it does not end."""
    e = dict(PATH=os.environ["PATH"], HOME=cwd, LC_ALL="C", CC="gcc", CXX="g++")
    e.update(env or {})
    kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if os.getuid() == 0 else {}
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, umask=0o022, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "does not end"


def make(path, files):
    os.makedirs(path, exist_ok=True)
    for f, text in files.items():
        q = os.path.join(path, f)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "w").write(text)
    for p, ds, fs in os.walk(path):
        for n in [p] + [os.path.join(p, x) for x in fs]:
            os.chown(n, NOBODY, NOBODY)


# ways a consumer may compile: the configuration does not depend on them
MODES = [["g++"], ["g++", "-DNDEBUG", "-O3", "-std=c++17"], ["clang++", "-std=c++20"], ["clang++", "-DNDEBUG", "-O2", "-std=c++17"], ["g++", "-std=gnu++14", "-O2"], ["g++", "-std=c++23", "-D_GLIBCXX_ASSERTIONS", "-g"]]


def macros_of(header, cwd, mode=0):
    rc, out = run_as_user(MODES[mode] + ["-E", "-dM", "-x", "c++", header], cwd)
    if rc != 0:
        return None
    return dict(re.match(r"#define (\w+) ?(.*)", l).groups() for l in out.splitlines() if l.startswith("#define SHIVA"))


def on(opts, name):
    return opts.get(name) is True


def expect(opts, version, cuda=None):
    """The macros of a configuration header, or None when the combination must be refused."""
    c, h = on(opts, "SHIVA_ENABLE_CUDA") or on(opts, "ENABLE_CUDA"), on(opts, "SHIVA_ENABLE_HIP") or on(opts, "ENABLE_HIP")
    if c and h:
        return None
    enabled = {k for k, v in (("SHIVA_ENABLE_CUDA", c), ("SHIVA_ENABLE_HIP", h), ("SHIVA_ENABLE_CAMP", on(opts, "SHIVA_ENABLE_CAMP")),
                              ("SHIVA_ENABLE_BOUNDS_CHECK", on(opts, "SHIVA_ENABLE_BOUNDS_CHECK"))) if v}
    v = [int(x) for x in (version.split(".") + ["0", "0"])[:3]]
    n = [int(x) for x in (cuda.split(".") + ["0"])[:2]] if c and cuda else [0, 0]
    return enabled, dict(SHIVA_VERSION_MAJOR=v[0], SHIVA_VERSION_MINOR=v[1], SHIVA_VERSION_PATCHLEVEL=v[2], SHIVA_CUDA_MAJOR=n[0], SHIVA_CUDA_MINOR=n[1])


def compare(got, want, opts):
    if got is None:
        return "the configuration header cannot be preprocessed"
    enabled, numbers = want
    have = {k for k in got if k.startswith("SHIVA_ENABLE_") and got[k].strip() != "0"}
    also = {k for k in have - set(IN_HEADER) if on(opts, k) or k == "SHIVA_ENABLE_DEVICE"}     # other options that are enabled may be recorded as well
    if have - also != enabled:
        return "the header enables %s instead of %s" % (sorted(have), sorted(enabled))
    for k, v in numbers.items():
        if got.get(k, "").strip() != str(v):
            return "%s is %r instead of %d" % (k, got.get(k), v)
    return None


def dargs(opts, i=0):
    """Command line definitions of an option set, in varying spellings."""
    out = []
    for k in sorted(opts, key=lambda k: hash((i % 7, OPTS.index(k) * 5 % 8))):
        if opts[k] is None:
            continue
        s = YES[i % len(YES)] if opts[k] else NO[i % len(NO)]
        out.append("-D%s%s=%s" % (k, (":BOOL", "", "", ":STRING")[i % 4], s))
        i += 1
    return out


class Job:
    def __init__(self, base, n, version):
        self.dir, self.version = os.path.join(base, "j%d" % n), version
        os.makedirs(self.dir)
        os.chown(self.dir, NOBODY, NOBODY)
        self.bad, self.executions, self.steps, self.headers, self.states = [], 0, 0, 0, set()

    def fail(self, key, msg, **how):
        self.bad.append((key, msg, how))

    def cmake(self, *args, cwd=None, env=None):
        self.steps += 1
        return run_as_user(["cmake"] + list(args), cwd or self.dir, env)

    def header_state(self, build, opts, want, out, how):
        h = build + "/include/shiva/ShivaConfig.hpp"
        if not os.path.exists(h):
            return self.fail("header", "no configuration header was generated", how=how)
        for k in (0, 1, 2 + self.headers % (len(MODES) - 2)):
            m = compare(macros_of(h, self.dir, k), want, opts)
            if m:
                self.fail("header", m + (" (for %s)" % " ".join(MODES[k]) if k else ""), how=how)
        self.headers += 1
        doc = build + "/docs/doxygen/ShivaConfig.hpp"
        if os.path.exists(doc) and not filecmp.cmp(doc, h, shallow=False):
            self.fail("doxygen", "the documented configuration header is another one", how=how)
        self.states.add(str(want))

    def remove(self):
        assert self.dir.startswith("/tmp/shiva-check-")
        shutil.rmtree(self.dir, ignore_errors=True)


def configurations(job, items):
    """Fresh configurations; items: (index, options, CUDA compiler version, extra arguments)."""
    for i, opts, cuda, more in items:
        b = job.dir + "/build"
        shutil.rmtree(b, ignore_errors=True)
        args = dargs(opts, i) + (["-DCMAKE_CUDA_COMPILER_VERSION=" + cuda] if cuda else []) + more
        rc, out = job.cmake("-S", job.source, "-B", b, *args)
        job.executions += 1
        want = expect(opts, job.version, cuda)
        how = dict(arguments=args)
        job.states.add(str(sorted(opts.items(), key=str)) + str(cuda) + str(more))
        if want is None:
            if rc == 0:
                job.fail("accepted", "incompatible options are accepted: %s" % args, how=how)
            continue
        if rc != 0:
            job.fail("refused", "exit %s for the valid options %s: %s" % (rc, args, out[-400:]), how=how)
            continue
        job.header_state(b, opts, want, out, how)


def histories(job, walk):
    """Reconfigurations of one build directory."""
    b = job.dir + "/build"
    done = []
    for i, (opts, cuda) in walk:
        args = dargs(opts, i) + (["-DCMAKE_CUDA_COMPILER_VERSION=" + cuda] if cuda else ["-UCMAKE_CUDA_COMPILER_VERSION"])
        rc, out = job.cmake("-S", job.source, "-B", b, *args)
        done = (done + [args])[-3:]
        want = expect(opts, job.version, cuda)
        if want is None:
            if rc == 0:
                job.fail("accepted", "incompatible options are accepted when reconfiguring: %s" % done, how=done)
        elif rc != 0:
            job.fail("refused", "exit %s for valid options when reconfiguring: %s: %s" % (rc, done, out[-400:]), how=done)
        else:
            job.header_state(b, opts, want, out, dict(history=done))
        job.executions += 1
        job.states.add("edge" + str(done[-2:]))


def euler(n):
    """A closed walk over 0..n-1 that takes every ordered pair (also of a state with itself) exactly once."""
    nxt, stack, out = [0] * n, [0], []
    while stack:
        v = stack[-1]
        if nxt[v] < n:
            nxt[v] += 1
            stack.append((v + nxt[v] - 1) % n)
        else:
            out.append(stack.pop())
    return out[::-1]


# ---------------------------------------------------------------------------------------------------------- consumers
def headers():
    inc = os.path.join(REPO, "include")
    return sorted(os.path.relpath(os.path.join(p, f), inc) for p, _, fs in os.walk(inc) for f in fs if f.endswith((".hpp", ".h")))


def usable(h, device):
    return h.startswith("shiva/") and h != "shiva/namespaceDocumentation.hpp" and not (device and h.endswith("pmpl.hpp"))       # kernel launches need the device compiler


def main_cpp(all_headers, device):
    use = [h for h in all_headers if usable(h, device)]
    t = "".join("#include <%s>\n" % h for h in use) + "#include <shiva/ShivaConfig.hpp>\n#include <cstdio>\n#define STR_(...) #__VA_ARGS__\n#define STR(x) STR_(x)\n"
    t += "int main()\n{\n"
    for m in CONSUMER_MACROS:
        t += "#if defined( %s )\n  std::printf( \"%s=%%s\\n\", STR( %s ) );\n#endif\n" % (m, m, m)
    t += "  shiva::CArrayNd< double, 2, 3 > const a{ 1.0, 2.0, 3.0, 4.0, 5.0, 6.0 };\n  std::printf( \"VALUE=%g LANGUAGE=%ld\\n\", a( 1, 2 ), __cplusplus );\n}\n"
    return t


CONSUMER = """cmake_minimum_required( VERSION 3.23.1 )
project( Consumer VERSION 9.8.7 LANGUAGES CXX )
%(std)s
%(before)s
%(get)s
file( WRITE ${CMAKE_BINARY_DIR}/facts.txt "Shiva_INCLUDE_DIRS=${Shiva_INCLUDE_DIRS}\\nShiva_VERSION=${Shiva_VERSION}\\nPROJECT_VERSION=${PROJECT_VERSION}\\nPROJECT_NAME=${PROJECT_NAME}\\n" )
add_executable( app main.cpp )
target_include_directories( app PRIVATE %(emu)s )
target_link_libraries( app PRIVATE %(target)s )
%(after)s
"""


def consumer(job, name, opts, want, source, get, target, std, all_headers, origin, args=(), before="", after="", how=None, find=False):
    """Configures, builds and runs a consumer; origin: function(header) -> the file it must be equal to."""
    device = bool({"SHIVA_ENABLE_CUDA", "SHIVA_ENABLE_HIP"} & want[0])
    d, b = job.dir + "/consumer", job.dir + "/consumer-build"
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(b, ignore_errors=True)
    if "SHIVA_ENABLE_CUDA" in want[0]:
        after += "\ntarget_compile_options( app PRIVATE -include %s/emu/cuda_runtime.h )" % job.emu
    stdline = "set( CMAKE_CXX_STANDARD %s )\nset( CMAKE_CXX_EXTENSIONS OFF )" % std if std else ""
    text = CONSUMER % dict(std=stdline, before=before, get=get, target=target, emu=job.emu + " " + job.emu + "/emu", after=after)
    make(d, {"CMakeLists.txt": text, "main.cpp": main_cpp(all_headers, device), "inner/CMakeLists.txt": "add_subdirectory( \"%s\" shiva-in-here )\n" % source})
    kind = ("Debug", "Release", "", "MinSizeRel", "RelWithDebInfo")[(len(name) + len(std) + len(want[0])) % 5]
    how = dict(how or {}, route=name, options={k: v for k, v in opts.items() if v}, standard=std, get=get, before=before, build_type=kind)
    rc, out = job.cmake("-S", d, "-B", b, "-G", "Unix Makefiles", "-DCMAKE_BUILD_TYPE=" + kind, "-DCMAKE_CXX_FLAGS=-w", *args)
    job.executions += 1
    if rc != 0:
        return job.fail("consumer", "a consumer (%s) cannot be configured: %s" % (name, out[-500:]), how=how)
    rc, out = job.cmake("--build", b)
    if rc != 0:
        err = [l for l in out.splitlines() if "rror" in l] or [out[-500:]]
        return job.fail("consumer", "a consumer (%s) cannot be built: %s" % (name, " | ".join(err[:3])[:700]), how=how)
    rc, out = run_as_user([b + "/app"], b)
    if rc != 0:
        return job.fail("consumer", "the consumer (%s) ends with %s" % (name, rc), how=how)
    got = dict(l.split("=", 1) for l in out.splitlines() if "=" in l)
    m = compare({k: v for k, v in got.items() if k in CONSUMER_MACROS}, want, opts)
    if m:
        job.fail("consumer configuration", "in a consumer (%s) %s" % (name, m), how=how)
    value, lang = re.match(r"(\S+) LANGUAGE=(\d+)", got["VALUE"]).groups()
    if value != "6" or int(lang) < 201703:
        job.fail("consumer", "in a consumer (%s) the program prints %s" % (name, got["VALUE"]), how=how)
    # the headers it was compiled with
    dep = [os.path.join(p, f) for p, _, fs in os.walk(b) for f in fs if f == "main.cpp.o.d"]
    used = re.sub(r"\\\n", " ", open(dep[0]).read()).replace("\\ ", "\0").split() if dep else []
    seen = set()
    for f in used:
        f = os.path.realpath(os.path.join(b, f.replace("\0", " ")))
        k = f.rfind("/shiva/")
        if k < 0 or "/consumer" in f[k:] or not f.endswith((".hpp", ".h")):
            continue
        h = f[k + 1:]
        o = origin(h, f)
        seen.add(h)
        if o is None or not os.path.exists(o):
            job.fail("consumer headers", "a consumer (%s) uses %s, which is no header of the library" % (name, f), how=how)
        elif not filecmp.cmp(o, f, shallow=False):
            job.fail("consumer headers", "a consumer (%s) uses a %s that differs from %s" % (name, f, o), how=how)
    missing = {h for h in all_headers if usable(h, device)} - seen
    if missing or "shiva/ShivaConfig.hpp" not in seen:
        job.fail("consumer headers", "a consumer (%s) did not use the library's %s" % (name, sorted(missing)[:3] or "configuration header"), how=how)
    facts = dict(l.split("=", 1) for l in open(b + "/facts.txt").read().splitlines())
    if facts["PROJECT_VERSION"] != "9.8.7" or facts["PROJECT_NAME"] != "Consumer":
        job.fail("consumer", "the library changed the consumer's own project to %s %s" % (facts["PROJECT_NAME"], facts["PROJECT_VERSION"]), how=how)
    if facts["Shiva_VERSION"] and facts["Shiva_VERSION"] != job.version:
        job.fail("version", "a consumer (%s) sees version %s instead of %s" % (name, facts["Shiva_VERSION"], job.version), how=how)
    if find:
        inc = facts["Shiva_INCLUDE_DIRS"]
        if not any(os.path.exists(os.path.join(x, "shiva/ShivaConfig.hpp")) and os.path.realpath(x).startswith(os.path.realpath(find) + "/") for x in inc.split(";")):
            job.fail("consumer", "Shiva_INCLUDE_DIRS is %r, where no header of this installation is (%s)" % (inc, name), how=how)
    job.states.add("%s %s %s %s" % (name, sorted(want[0]), std, before))


def source_origin(job, build):
    def f(h, used):
        return build + "/include/" + h if h == "shiva/ShivaConfig.hpp" else os.path.join(REPO, "include", h)
    return f


def subdirectory(job, opts, want, all_headers, std, variant, i):
    """The library as a subdirectory of its consumer; the options given on the command line or set by the parent."""
    target = ("Shiva", "Shiva::shiva")[i % 2]
    args, before = [], ""
    if variant in ("command line", "excluded", "deeper", "beside"):
        args = dargs(opts, i)
    elif variant == "variables":
        before = "\n".join("set( %s %s )" % (k, "ON" if v else "OFF") for k, v in opts.items() if v is not None)
    elif variant == "cache":
        before = "\n".join("set( %s %s CACHE BOOL \"\" FORCE )" % (k, "ON" if v else "OFF") for k, v in opts.items() if v is not None)
    elif variant == "blt":
        args = dargs(opts, i) + ["-DSHIVA_ENABLE_BLT=ON"]
        before = BLT
    b = job.dir + "/consumer-build"
    where, get = b + "/sub", "add_subdirectory( \"%s\" sub )" % job.source
    after = ""
    if variant == "excluded":
        get = "add_subdirectory( \"%s\" sub EXCLUDE_FROM_ALL )" % job.source
    elif variant == "deeper":
        get, where = "add_subdirectory( inner )", b + "/inner/shiva-in-here"
    elif variant == "beside":
        after = "add_library( other OBJECT main.cpp )\ntarget_link_libraries( other PUBLIC Shiva )\ntarget_include_directories( other PRIVATE %s %s/emu )\n" % (job.emu, job.emu)
        if "SHIVA_ENABLE_CUDA" in want[0]:
            after += "target_compile_options( other PRIVATE -include %s/emu/cuda_runtime.h )\n" % job.emu
        after += "add_library( shared_interface INTERFACE )\ntarget_link_libraries( shared_interface INTERFACE Shiva::shiva )\ntarget_link_libraries( app PRIVATE shared_interface )\n"
    consumer(job, "subdirectory, " + variant, opts, want, job.source, get, target, std, all_headers, source_origin(job, where), args, before, after)


def installed(job, opts, want, all_headers, std, variant, i, cuda=None):
    """The library configured, installed and found as a package."""
    b, prefix, stage = job.dir + "/lib build", job.dir + "/prefix", None
    for x in (b, prefix, job.dir + "/stage", job.dir + "/moved"):
        shutil.rmtree(x, ignore_errors=True)
    args = dargs(opts, i) + (["-DCMAKE_CUDA_COMPILER_VERSION=" + cuda] if cuda else [])
    lib, inc = None, "include"
    if variant == "directories":
        lib, inc = ("lib64", "share")[i % 2], "inc/deep"        # lib64 is not searched here, but a package directory in it can be named
        args += ["-DCMAKE_INSTALL_LIBDIR=" + lib, "-DCMAKE_INSTALL_INCLUDEDIR=inc/deep"]
    elif variant == "absolute":
        args += ["-DCMAKE_INSTALL_LIBDIR=" + prefix + "/abs/lib", "-DCMAKE_INSTALL_INCLUDEDIR=" + prefix + "/abs/include"]
        lib, inc = "abs/lib", "abs/include"
    how = dict(variant=variant, arguments=args)
    gen = ("Unix Makefiles", "Ninja", "Ninja Multi-Config")[i % 3]
    rc, out = job.cmake("-S", job.source, "-B", b, "-G", gen, "-DCMAKE_INSTALL_PREFIX=" + (job.dir + "/unused" if variant == "prefix" else prefix), *args)
    if rc == 0:
        rc, out = job.cmake("--build", b)
    env = {}
    if rc == 0:
        if variant == "staged":
            stage = job.dir + "/stage"
            env = dict(DESTDIR=stage)
        rc, out = job.cmake("--install", b, *(["--prefix", prefix] if variant == "prefix" else []), env=env)
    if rc == 0 and variant == "twice":
        rc, out = job.cmake("--install", b)
    if rc != 0:
        return job.fail("install", "the library (%s) cannot be installed: %s" % (variant, out[-400:]), how=how)
    job.header_state(b, opts, want, out, how)
    root = stage + prefix if stage else prefix
    if variant == "prefix" and os.path.exists(job.dir + "/unused"):
        job.fail("install", "something was installed outside the prefix that was asked for", how=how)
    if variant in ("moved", "staged"):
        shutil.move(root, job.dir + "/moved")
        root = job.dir + "/moved"
    # what was installed
    for h in all_headers:
        p = os.path.join(root, inc, h)
        if not os.path.exists(p):
            job.fail("installed headers", "%s is not installed" % h, how=how)
        elif not filecmp.cmp(p, os.path.join(REPO, "include", h), shallow=False):
            job.fail("installed headers", "the installed %s is not the library's" % h, how=how)
    p = os.path.join(root, inc, "shiva/ShivaConfig.hpp")
    if not os.path.exists(p) or not filecmp.cmp(p, b + "/include/shiva/ShivaConfig.hpp", shallow=False):
        return job.fail("installed headers", "the configuration header is not installed as it was generated", how=how)
    if variant != "kept":
        shutil.rmtree(b)        # the installation does not depend on the build directory
    configs = [os.path.join(q, f) for q, _, fs in os.walk(root) for f in fs if f in ("ShivaConfig.cmake", "shiva-config.cmake")]
    if len(configs) != 1:
        return job.fail("install", "%d package files are installed" % len(configs), how=how)
    for f in (os.path.join(q, f) for q, _, fs in os.walk(root) for f in fs if f.endswith(".cmake")):
        t = open(f).read()
        if REPO + "/" in t or b in t or (variant in ("moved", "staged", "plain", "directories") and prefix + "/" in t):
            job.fail("relocatable", "%s names the source, build or original installation directory" % os.path.basename(f), how=how)
    origin = lambda h, used: used if h == "shiva/ShivaConfig.hpp" and used == os.path.realpath(p) else os.path.join(root, inc, h) if used.startswith(os.path.realpath(root)) else None
    args = [["-DCMAKE_PREFIX_PATH=" + root], ["-DShiva_DIR=" + os.path.dirname(configs[0])], ["-DShiva_ROOT=" + root]][1 if variant == "absolute" or lib == "lib64" else i % 3]
    mv = ".".join(job.version.split(".")[:2])
    get = "find_package( Shiva %s CONFIG REQUIRED )" % ("", mv, job.version)[i % 3]
    if i % 2:
        get += "\nfind_package( Shiva CONFIG REQUIRED )"
    consumer(job, "installed, " + variant, opts, want, root, get, "Shiva::Shiva", std, all_headers, origin, args, how=how, find=root)
    if variant == "plain":
        versions(job, args, how)


def versions(job, args, how):
    """Version requests: compatible ones are met, others are refused."""
    a, b, c = [int(x) for x in job.version.split(".")]
    for req, ok in (("%d.%d.%d" % (a, b, c), True), ("%d.%d" % (a, b), True), ("%d.0" % a, True), ("%d.%d.%d" % (a, b, c + 1), False), ("%d.%d" % (a, b + 1), False),
                    ("%d.0" % (a + 1), False), ("%d.%d.%d EXACT" % (a, b, c), True), ("%d.%d.%d EXACT" % (a, b, c + 1), False)):
        d, bd = job.dir + "/asks", job.dir + "/asks-build"
        shutil.rmtree(bd, ignore_errors=True)
        make(d, {"CMakeLists.txt": "cmake_minimum_required( VERSION 3.23.1 )\nproject( Asks LANGUAGES CXX )\nfind_package( Shiva %s CONFIG QUIET )\nfile( WRITE ${CMAKE_BINARY_DIR}/found \"${Shiva_FOUND}\" )\n" % req})
        rc, out = job.cmake("-S", d, "-B", bd, *args)
        job.executions += 1
        found = rc == 0 and open(bd + "/found").read().strip().upper() in ("1", "TRUE", "ON", "YES")
        if rc != 0 or found != ok:
            job.fail("version", "version %s, when %s is asked for, is %s" % (job.version, req, "accepted" if found else "refused"), how=how)
        job.states.add("version " + req)


def build_tree(job, opts, want, all_headers, std, i):
    """The library used in place: the source's and the build directory's include directories."""
    b = job.dir + "/lib build"
    shutil.rmtree(b, ignore_errors=True)
    rc, out = job.cmake("-S", job.source, "-B", b, *dargs(opts, i))
    if rc != 0:
        return job.fail("refused", "exit %s for valid options: %s" % (rc, out[-300:]), how=dict(options=opts))
    after = "target_include_directories( app PRIVATE \"%s/include\" \"%s/include\" )\ntarget_compile_features( app PRIVATE cxx_std_17 )" % (REPO, b)
    consumer(job, "build tree", opts, want, job.source, "", "m", std, all_headers, source_origin(job, b), (), "", after)


def with_blt(job, items):
    """A copy of the sources in which BLT and CAMP are present (as stand-ins): every option combination configures."""
    src = job.dir + "/complete"
    shutil.copytree(REPO, src, ignore=shutil.ignore_patterns(".git", "_build", "_install", "build-*"), symlinks=True)
    make(src, {"cmake/blt/SetupBLT.cmake": BLT, "tpl/camp/CMakeLists.txt": "add_library( camp INTERFACE )\ninstall( TARGETS camp EXPORT ShivaTargets )\n"})
    tests = {f for p, _, fs in os.walk(src + "/tests") for f in fs if f.endswith(".cpp")}
    b = job.dir + "/build"
    for i, opts in items:
        shutil.rmtree(b, ignore_errors=True)
        args = dargs(opts, i) + ["-DSHIVA_ENABLE_BLT=ON", "-DCMAKE_CUDA_COMPILER=/stand-in", "-DCMAKE_HIP_COMPILER=/stand-in"]
        rc, out = job.cmake("-S", src, "-B", b, *args)
        job.executions += 1
        want = expect(opts, job.version)
        how = dict(arguments=args, note="with stand-ins for BLT and CAMP")
        job.states.add("BLT" + str(sorted(opts.items(), key=str)))
        if want is None:
            if rc == 0:
                job.fail("accepted", "incompatible options are accepted: %s" % args, how=how)
            continue
        if rc != 0:
            job.fail("refused", "exit %s for the valid options %s: %s" % (rc, args, out[-400:]), how=how)
            continue
        job.header_state(b, opts, want, out, how)
        log = open(b + "/blt.txt").read().split("\n") if os.path.exists(b + "/blt.txt") else []
        exes = {w[1]: os.path.basename(w[2]) for w in (l.split() for l in log) if w and w[0] == "executable"}
        run = {w[1] for w in (l.split() for l in log) if w and w[0] == "test"}
        if on(opts, "SHIVA_ENABLE_UNIT_TESTS"):
            if set(exes.values()) != tests or run != set(exes):
                job.fail("unit tests", "unit tests are enabled but %s are not built and run" % (sorted(tests - {exes[k] for k in run if k in exes})[:3]), how=how)
        elif log:
            job.fail("unit tests", "unit tests are built although they are not enabled", how=how)


def refused_blt(job, items):
    """BLT requested where there is none: refused, and the build directory is usable afterwards."""
    b = job.dir + "/build"
    for i, opts in items:
        shutil.rmtree(b, ignore_errors=True)
        none = job.dir + "/no-blt-here"
        rc, out = job.cmake("-S", job.source, "-B", b, "-DSHIVA_ENABLE_BLT=ON", "-DBLT_SOURCE_DIR=" + none, *dargs(opts, i))
        how = dict(options=opts)
        if rc == 0:
            job.fail("accepted", "BLT is requested, absent, and the configuration succeeds", how=how)
        rc, out = job.cmake("-S", job.source, "-B", b, "-DSHIVA_ENABLE_BLT=OFF", *dargs(opts, i))
        job.executions += 2
        want = expect(opts, job.version)
        job.states.add("no BLT" + str(sorted(opts.items(), key=str)))
        if (rc == 0) != (want is not None):
            job.fail("refused", "exit %s after a configuration was refused: %s" % (rc, out[-300:]), how=how)
        elif want:
            job.header_state(b, opts, want, out, how)


def opts_of(device, camp, bounds, unset=False):
    o = {"SHIVA_ENABLE_CUDA": device == "SC", "SHIVA_ENABLE_HIP": device == "SH", "SHIVA_ENABLE_CAMP": camp, "SHIVA_ENABLE_BOUNDS_CHECK": bounds}
    if device in ("EC", "EH", "EE"):
        o.update({"ENABLE_CUDA": device != "EH", "ENABLE_HIP": device != "EC"})
    else:
        o.update({"ENABLE_CUDA": False, "ENABLE_HIP": False})
    if device == "SS":
        o.update({"SHIVA_ENABLE_CUDA": True, "SHIVA_ENABLE_HIP": True})
    return {k: (v if v or not unset else None) for k, v in o.items()}


def snapshot():
    r = {}
    for p, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if not (p == REPO and x in (".git", "_build"))]
        for f in fs:
            s = os.lstat(os.path.join(p, f))
            r[os.path.join(p, f)] = (s.st_size, s.st_mtime_ns)
    return r


def run(ctx):
    s = Scratch()
    try:
        emu = s.dir + "/emulation"
        shutil.copytree(os.path.join(VERIF, "harness/emu"), emu + "/emu")
        make(emu, {})
        # the project's version, as CMake reads it
        rc, out = run_as_user(["cmake", "--version"], s.dir)
        make(s.dir + "/canary", {"CMakeLists.txt": "cmake_minimum_required( VERSION 3.23.1 )\nproject( Canary )\nadd_library( canary INTERFACE )\n"})
        for gen in ("Unix Makefiles", "Ninja"):
            rc, out = run_as_user(["cmake", "-S", s.dir + "/canary", "-B", s.dir + "/canary-" + gen, "-G", gen], s.dir)
            if rc != 0:
                raise CheckError("CMake does not work here: " + out[-300:])
        m = re.search(r"^\s*project\s*\(\s*Shiva\b[^)]*?\bVERSION\s+([0-9.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read(), re.M | re.I)
        before = snapshot()
        hs = headers()
        jobs = []
        n = itertools.count()

        def add(f, *a, **k):
            jobs.append((f, a, k))

        # every combination of the options, given and left out
        items = []
        for k, bits in enumerate(itertools.product((False, True), repeat=len(OPTS))):
            o = dict(zip(OPTS, bits))
            if k % 2:
                o = {x: (v or None) for x, v in o.items()}
            cuda = (None, "11", "12.4", "12.4.131", "11.8")[k % 5]
            items.append((k, o, cuda, [[], ["-DCMAKE_BUILD_TYPE=Release"], ["-G", "Ninja"], ["-DCMAKE_CXX_STANDARD=20"]][k % 4]))
        for k, (dev, v) in enumerate(itertools.product(("none", "SC", "EC", "SH"), (None, "9", "10.2", "11", "11.0", "12.0.140", "12.4", "13.1.80"))):
            items.append((k, opts_of(dev, bool(k % 2), bool(k % 3)), v, []))
        if ctx.thorough:
            for k, (bits, v, g) in enumerate(itertools.product(itertools.product((False, True), repeat=len(OPTS)), (None, "12.4"), ([], ["-G", "Ninja"], ["-G", "Ninja Multi-Config"]))):
                items.append((k, dict(zip(OPTS, bits)), v, g))
        for k in range(0, len(items), 16):
            add(configurations, items[k:k + 16])
        # every ordered pair (thorough: triple) of option sets in one build directory
        sets = [(opts_of(d, c, b), v) for d, v in (("none", None), ("SC", None), ("SC", "12.4"), ("EC", None), ("SH", None), ("EH", None), ("SS", None), ("EE", None)) for c in (False, True) for b in (False, True)]
        if not ctx.thorough:
            sets = [(o, v) for o, v in sets if not (o["SHIVA_ENABLE_CAMP"] and not o["SHIVA_ENABLE_BOUNDS_CHECK"])]
        walk = euler(len(sets))
        size = 48
        for k in range(0, len(walk) - 1, size):
            add(histories, [(x, sets[x]) for x in walk[k:k + size + 1]])
        if ctx.thorough:
            few = [sets[k] for k in range(0, len(sets), 2)]
            for a in range(len(few)):
                for c in range(len(few)):
                    w = []
                    for d in range(len(few)):
                        w += [a, c, d]
                    add(histories, [(x, few[x]) for x in w])
        # BLT
        blt = [(k, dict(zip(OPTS, bits))) for k, bits in enumerate(itertools.product((False, True), repeat=len(OPTS))) if ctx.thorough or not (bits[0] and bits[6]) and not (bits[1] and bits[7]) and bits[4] == bits[5]]
        for k in range(0, len(blt), 12):
            add(with_blt, blt[k:k + 12])
        add(refused_blt, [(k, opts_of(d, c, b)) for k, (d, c, b) in enumerate(itertools.product(("none", "SC", "EH", "SS"), (False, True), (False, True)))])
        # consumers
        k = 0
        for dev in ("none", "SC", "SH", "EC", "EH"):
            for camp, bounds in itertools.product((False, True), repeat=2):
                o = opts_of(dev, camp, bounds, k % 2 == 1)
                stds = ("", "14", "17", "20") if ctx.thorough else (("", "14", "17", "20")[k % 4],)
                subs = ["command line", "variables", "cache", "excluded", "deeper", "beside"] + ([] if camp else ["blt"])
                inst = ["plain", "directories", "absolute", "moved", "staged", "prefix", "twice", "kept"]
                if not ctx.thorough:
                    subs = [subs[k % len(subs)], subs[(k + 3) % len(subs)]] if dev in ("none", "SC", "SH") else [subs[k % 3]]
                    inst = [inst[k % len(inst)], inst[(k + 4) % len(inst)]] if dev in ("none", "SC", "SH") else [inst[(k + 2) % len(inst)]]
                for std in stds:
                    for v in subs:
                        add(subdirectory, o, expect(o, "0"), hs, std, v, k)
                    for v in inst:
                        add(installed, o, expect(o, "0"), hs, std, v, k)
                    add(build_tree, o, expect(o, "0"), hs, std, k)
                k += 1

        # the version: what CMake itself says the project's is
        make(s.dir + "/v", {})
        rc, out = run_as_user(["cmake", "-S", REPO, "-B", s.dir + "/v/b"], s.dir)
        cache = s.dir + "/v/b/CMakeCache.txt"
        v = re.search(r"^CMAKE_PROJECT_VERSION:\w+=(.*)$", open(cache).read(), re.M) if os.path.exists(cache) else None
        version = v.group(1) if v else m.group(1) if m else None
        if rc != 0 or not version:
            ctx.add_violation("refused", "the library cannot be configured without options: " + out[-500:], dict(kind="cmake"))
            return

        def one(spec):
            f, a, kw = spec
            def attempt():
                j = Job(s.dir, next(n), version)
                j.source, j.emu = REPO, emu
                args = list(a)
                if f in (subdirectory, installed, build_tree):
                    args[1] = expect(args[0], version)
                try:
                    f(j, *args, **kw)
                finally:
                    j.remove()
                return j
            j = attempt()
            if j.bad:
                again = {k for k, _, _ in attempt().bad}      # only what happens again is reported
                j.bad = [x for x in j.bad if x[0] in again]
            return j

        states, seen = set(), set()
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for spec, j in zip(jobs, ex.map(one, jobs)):
                ctx.count(transitions=j.steps, traces=j.executions)
                states |= j.states
                for key, msg, how in j.bad:
                    if key not in seen:
                        seen.add(key)
                        ctx.add_violation(key, msg, dict(kind="cmake", how=how))
        ctx.count(states=len(states))
        after = snapshot()
        changed = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
        if changed:
            ctx.add_violation("source", "configuring, building or installing changed the source tree: %s" % changed[:3], dict(kind="cmake", changed=changed[:20]))
        for x in sorted(states)[::max(1, len(states) // 6)]:
            ctx.sample(x)
    finally:
        s.remove()
