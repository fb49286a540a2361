"""C23: scripts/aggregateOrSplit.py over every include graph of a few headers, in several layouts, and over the library's
own headers. The script runs as its command line would, as an unprivileged user inside a scratch directory."""
import concurrent.futures, itertools, locale, os, shutil, subprocess
from check import REPO, JOBS, sh, CheckError
from pychecks.scratch import Scratch, run_script, tree, unprivileged, enough, confirmed, NOBODY

SCRIPT = os.path.join(REPO, "scripts/aggregateOrSplit.py")
TEXT = None
FORMS = ['#include "%s"', '  #include "%s"', '#  include "%s"  // why', '#include"%s"', '#include "%s"  ', '#include\t"%s"\t// \u00e9 ']
PRAGMAS = ["#pragma once", "  #pragma once", "#  pragma   once", "#pragma once\t "]

UTF8 = locale.getpreferredencoding(False).lower().replace("-", "") == "utf8"   # what a Python script reads by default

# layouts: where header k lives, and how header i names header j
def flat(k): return "h%d.hpp" % k
def sub(k): return ["a/h0.hpp", "h1.hpp", "b/c/h2.hpp", "a/h3.hpp", "b/h4.hpp"][k]
LAYOUTS = {
    "flat": (flat, lambda i, j: flat(j)),
    "relative": (sub, lambda i, j: os.path.relpath(sub(j), os.path.dirname(sub(i)) or ".")),
    "paths": (sub, lambda i, j: sub(j)),                 # found through the include path only
    "links": (lambda k: "h%d.hpp" % k if k % 2 else "l/h%d.hpp" % k, lambda i, j: os.path.relpath("h%d.hpp" % j if j % 2 else "l/h%d.hpp" % j, "." if i % 2 else "l")),   # symbolic links into another directory
    "same names": (lambda k: "d%d/part.hpp" % k, lambda i, j: "part.hpp" if i == j else "../d%d/part.hpp" % j),
}


def header(i, targets, layout, opts):
    """Text of header i; every line is unique to it."""
    where, name = LAYOUTS[layout]
    L = ["// header %d" % i, PRAGMAS[(i + opts["form"]) % 4], "", "/* text of %d */" % i] if not opts["late"] else ["// header %d" % i, "/* text of %d */" % i]
    inc = []
    for j in targets:
        f = FORMS[(i + len(inc) + opts["form"]) % 6]
        if j == "missing":
            inc.append(f % ("nowhere%d.hpp" % i))
        elif j == "config":
            inc.append(f % "shiva/ShivaConfig.hpp")
        else:
            inc.append(f % name(i, j))
    if opts["reverse"]:
        inc.reverse()
    L += inc
    L += ["#include <cstddef> // for %d" % i, "#if 1 // %d" % i, "inline int f%d() { return %d%s; }" % (i, 10 ** i, "".join(" + f%d()" % j for j in targets if isinstance(j, int) and j != i)),
          "#endif // %d" % i, "\t// =====  not a marker %d  " % i, "\tint\tg%d = %d;\t\t// tabs" % (i, i), "/* page \f break \v, \x1c \x85 \u2028 \u00e9 \u00fc \U0001f642 %d */" % i + (" // gr\udcfcn" if opts["bytes"] else "") if UTF8 else "/* page \f break \v, \x1c %d */" % i, "char const * const s%d = \"#include \\\"h%d.hpp\\\"\";" % (i, (i + 1) % 4)]
    if opts["late"]:
        L += [PRAGMAS[i % 4], "// end %d" % i]
    return L


def eol(opts):
    return "\r\n" if opts["crlf"] else "\n"


def directive(line):
    w = line.replace(" ", "").replace("\t", "")
    return w.startswith('#include"') or w.startswith("#pragmaonce")


def analyse(graph, roots):
    """(reachable, problem)"""
    seen, order, problem = [], [], None
    def go(k):
        if k in seen:
            return
        seen.append(k)
        for j in graph[k]:
            if isinstance(j, int):
                go(j)
    for r in roots:
        go(r)
    for k in seen:
        if "missing" in graph[k]:
            problem = "missing"
    # cycle among the reachable?
    color = {}
    def dfs(k):
        color[k] = 1
        for j in graph[k]:
            if isinstance(j, int) and (color.get(j) == 1 or (color.get(j) is None and dfs(j))):
                return True
        color[k] = 2
        return False
    if not problem and any(dfs(k) for k in seen if k not in color):
        problem = "cycle"
    return seen, problem


def one_case(base, case):
    """Runs one case in a fresh directory below base; a list of (key, message)."""
    graph, roots, layout, opts, cwd = case
    bad = []
    d = os.path.join(base, "case")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "proj")); os.makedirs(os.path.join(d, "else"))
    where, name = LAYOUTS[layout]
    lines, paths = {}, {}
    for k in range(len(graph)):
        lines[k] = header(k, graph[k], layout, opts)
        paths[k] = os.path.join(d, "proj", where(k))
        os.makedirs(os.path.dirname(paths[k]), exist_ok=True)
        if layout == "links":
            os.makedirs(os.path.join(d, "store", "deep"), exist_ok=True)
            os.symlink(os.path.join(d, "store", "deep", "file%d.hpp" % k) if k != 1 else os.path.relpath(os.path.join(d, "store", "deep", "file1.hpp"), os.path.dirname(paths[k])), paths[k])
        with open(paths[k], "w", newline="", encoding="utf-8", errors="surrogateescape") as f:
            f.write(eol(opts).join(lines[k]) + ("" if opts["noeol"] else eol(opts)))
    # decoys that the resolution order must not prefer: same names on a later include path
    for k in range(len(graph)):
        for p in ({name(i, k) for i in range(len(graph))} if layout == "paths" else {where(k)}):
            q = os.path.join(d, "else", p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w").write("#error decoy of %d\n" % k)
    if layout == "links":
        for i in range(len(graph)):
            for k in range(len(graph)):
                q = os.path.normpath(os.path.join(d, "store", "deep", name(i, k)))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w").write("#error decoy of %d\n" % k)
    # nor one that an include path offers for a name that is resolved beside the including header
    if layout != "paths":
        for p in {name(i, k) for i in range(len(graph)) for k in range(len(graph))}:
            q = os.path.normpath(os.path.join(d, "else", p))
            if q.startswith(d + "/") and not q.startswith(os.path.join(d, "proj") + "/") and not os.path.exists(q):
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w").write("#error decoy %s\n" % p)
    before = tree(d)
    work = os.path.join(d, "proj") if cwd == "proj" else d
    arg = (lambda p: os.path.relpath(p, work)) if opts["rel"] else (lambda p: p)
    out = os.path.join(d, "agg.hpp")
    argv = ["aggregate"] + [arg(paths[r]) for r in roots] + [arg(out)]
    if cwd != "proj" or opts["rel"]:
        order = ["proj", "else"] if layout == "paths" or opts["late"] else ["else", "proj"]
        argv += ["--include-paths"] + [arg(os.path.join(d, p)) for p in order]
    rc, text = run_script(SCRIPT, TEXT, argv, work)
    seen, problem = analyse(graph, roots)
    if rc == "timeout":
        return [("termination", "does not end")]
    if problem:
        if rc == 0:
            bad.append(("refusal:" + problem, "exit 0 although an include %s" % ("cannot be resolved" if problem == "missing" else "is circular")))
        after = {k: v for k, v in tree(d).items() if k != "agg.hpp"}
        if after != before:
            bad.append(("elsewhere", "a refused aggregation changed other files"))
        return bad
    if rc != 0:
        return [("refusal", "exit %s: %s" % (rc, text[-200:]))]
    after = tree(d)
    agg = after.pop("agg.hpp", None)
    if agg is None:
        return [("output", "no output file")]
    if after != before:
        bad.append(("elsewhere", "aggregation changed other files"))
    got = [l[:-1] if opts["crlf"] and l.endswith("\r") else l for l in agg.decode(errors="surrogateescape").split("\n")]
    for l in got:
        if directive(l):
            bad.append(("neutralized", "the line %r stayed active" % l))
            break
    owner = {}
    for k in range(len(graph)):
        for n, l in enumerate(lines[k]):
            if l and not directive(l):
                owner[l] = (k, n)
    seq = [owner[l] for l in got if l in owner]
    blocks, cur = [], []
    for o in seq:
        if cur and cur[-1][0] != o[0]:
            blocks.append(cur); cur = []
        cur.append(o)
    if cur:
        blocks.append(cur)
    order = [b[0][0] for b in blocks]
    if sorted(order) != sorted(seen):
        bad.append(("once", "headers in the aggregate are %s, not each of %s once" % (order, sorted(seen))))
    else:
        for b in blocks:
            k = b[0][0]
            want = [n for n, l in enumerate(lines[k]) if l and not directive(l)]
            if [n for _, n in b] != want:
                bad.append(("text", "lines %s of header %d instead of %s" % ([n for _, n in b], k, want)))
        for n, k in enumerate(order):
            for j in graph[k]:
                if isinstance(j, int) and j not in order[:n]:
                    bad.append(("order", "header %d is emitted before header %d, which it includes: %s" % (k, j, order)))
        active = [l for l in got if l.strip() and not l.strip().startswith("//")]
        foreign = [l for l in active if l not in owner]
        if foreign:
            bad.append(("foreign", "the aggregate has other code: %r" % foreign[0]))
    if bad:
        return bad
    # split
    before = tree(d)
    sp = {"new": os.path.join(d, "out"), "deep": os.path.join(d, "x/y/z"), "used": os.path.join(d, "else")}[opts["out"]]
    rel = os.path.relpath(sp, d)
    rc, text = run_script(SCRIPT, TEXT, ["split", arg(out), arg(sp)], work)
    if rc != 0:
        return [("split", "split: exit %s: %s" % (rc, text[-200:]))]
    after = tree(d)
    changed = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and not (p + "/").startswith(rel + "/") and not rel.startswith(p.rstrip("/"))]
    if changed:
        bad.append(("split elsewhere", "split changed %s" % changed[:3]))
    files = {p: v for p, v in tree(sp).items() if not p.endswith("/") and (opts["out"] != "used" or before.get(os.path.join(rel, p)) != v)}
    rest = dict(files)
    for k in seen:
        want = eol(opts).join(lines[k]).encode(errors="surrogateescape")
        hit = [p for p, v in rest.items() if v.rstrip(b"\r\n") == want.rstrip(b"\r\n") and os.path.basename(p) == os.path.basename(paths[k])]
        if not hit:
            close = [v.decode(errors="surrogateescape") for p, v in rest.items() if os.path.basename(p) == os.path.basename(paths[k])]
            bad.append(("restored", "header %d is not restored: %r" % (k, close[:1])))
        else:
            del rest[hit[0]]
    if rest and not bad:
        bad.append(("split files", "split also wrote %s" % list(rest)[:3]))
    return bad


def cases(thorough):
    opts0 = dict(form=0, reverse=False, late=False, noeol=False, crlf=False, rel=False, out="new", bytes=False)
    def opt(i, **k):
        o = dict(opts0, form=i % 12, reverse=bool(i & 4), late=bool(i & 8), noeol=bool(i & 16), crlf=i % 7 == 3, bytes=i % 5 == 2, rel=bool(i & 1), out=("new", "deep", "used")[i % 3])
        o.update(k)
        return o
    subsets = lambda items: [c for r in range(len(items) + 1) for c in itertools.combinations(items, r)]
    i = 0
    # every graph of 1-3 headers with self-includes and unresolvable includes
    for n in (1, 2, 3):
        for g in itertools.product(subsets(list(range(n)) + ["missing"]), repeat=n):
            for lay in (tuple(LAYOUTS) if thorough or n < 3 else (tuple(LAYOUTS)[i % 5],)):
                for roots in (((0,), tuple(range(n)), tuple(range(n))[::-1]) if thorough or n < 3 else ((((0,), tuple(range(n)), tuple(range(n))[::-1])[(i // 4) % 3]),)):
                    yield (g, roots, lay, opt(i // 3), ("proj", "top")[(i // 5) % 2])
                    i += 1
            i += 1
    # every graph of 4 headers without self-includes
    for g in itertools.product(*[subsets([j for j in range(4) if j != k]) for k in range(4)]):
        for lay in LAYOUTS if thorough else (list(LAYOUTS)[i % 5],):
            yield (g, ((0,), (0, 1, 2, 3), (3, 1), (2,), (1, 2))[(i // 4) % 5], lay, opt(i // 3), ("proj", "top")[(i // 7) % 2])
            i += 1
        i += 1
    # every option on one diamond, all root orders
    g = ((1, 2), (3,), (3, "config"), ("config",))
    for roots in itertools.permutations(range(4)):
        for lay in LAYOUTS:
            for k in range(48):
                yield (g, roots, lay, opt(k, rel=bool(k & 2)), ("proj", "top")[k % 2])
    # every acyclic graph of 5 headers whose numbering is topological
    for bits in itertools.product(*[subsets(list(range(k + 1, 5))) for k in range(5)]):
        for lay in LAYOUTS if thorough else (list(LAYOUTS)[i % 5],):
            yield (bits, ((0,), (4, 2, 0), (3, 2, 1, 0, 4))[i % 3], lay, opt(i // 2), "top")
            i += 1
        i += 1


def worker(job):
    base, chunk = job
    unprivileged()
    d = os.path.join(base, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    found, n = [], 0
    for c in chunk:
        if enough(base):
            break
        bad = one_case(d, c)
        n += 1
        if bad:
            if one_case(d, c):
                found += [(k, m, c) for k, m in bad]
                confirmed(base)
        if len(found) > 20:
            break
    shutil.rmtree(d, ignore_errors=True)
    return found, n


def setup(text):
    global TEXT
    TEXT = text


def own_headers(ctx, s):
    """The library's own headers: the flattened library is the same library."""
    d = os.path.join(s.dir, "own")
    shutil.copytree(os.path.join(REPO, "include"), os.path.join(d, "include"))
    subprocess.run(["chown", "-R", "%d:%d" % (NOBODY, NOBODY), d], check=True)
    inc = os.path.join(d, "include")
    H = sorted(os.path.join(p, f) for p, _, fs in os.walk(inc) for f in fs if f.endswith(".hpp") and f != "namespaceDocumentation.hpp")
    before = tree(inc)
    out = os.path.join(d, "all.hpp")

    def as_nobody(argv, cwd):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                unprivileged()
                rc, text = run_script(SCRIPT, TEXT, argv, cwd, timeout=60)
                os.write(w, (str(rc) + "\n" + text[-1000:]).encode(errors="backslashreplace"))
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        return data.decode(errors="replace").split("\n", 1)
    use = """#include <cstdio>
int main() { namespace g = shiva::geometry; using B = shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >; using M = g::LinearTransform< double, g::InterpolatedShape< double, g::Cube< double >, B, B, B > >;
 M m; for ( int k = 0; k < 24; ++k ) m.getData().data()[k] = ( k * 7 ) % 11; double const x[3] = { 0.25, -0.5, 0.75 }; M::JacobianType J; double d; g::utilities::inverseJacobian( m, x, J, d ); shiva::CArrayNd< double, 2, 2 > f( 1.0, 2.0, 3.0, 5.0 ); double const p[2] = { 0.5, 0.25 };
 std::printf( "%.17g %.17g %.17g %d\\n", d, J( 1, 2 ), shiva::discretizations::finiteElementMethod::ParentElement< double, g::Square< double >, B, B >::value( p, f ), g::NSimplex< double, 4, 0, 1, 1 >::numEdges() ); }
"""
    src = os.path.join(ctx.dir, "normal.cpp")
    open(src, "w").write("".join('#include "%s"\n' % os.path.relpath(h, inc) for h in H) + use)
    exe = os.path.join(ctx.dir, "normal")
    rc, o = sh(["g++", "-std=c++17", "-O1", "-w"] + ctx.includes(False) + [src, "-o", exe], timeout=300)
    normal = sh([exe])[1] if rc == 0 else None
    n = 0
    for roots in (H, H[::-1], 
                  [h for h in H if any(x in os.path.basename(h) for x in ("ParentElement", "NSimplex", "NCube", "Shapes", "Lagrange", "Spacing", "InterpolatedShape", "Jacobian", "LinearTransform"))]):
        n += 1
        rc, text = as_nobody(["aggregate"] + roots + [out, "--include-paths", inc], d)
        if rc != "0" or not os.path.exists(out):
            ctx.add_violation("own headers", "aggregating the library's headers fails (%s): %s" % (rc, text[-300:]), dict(kind="script"))
            return n
        agg = open(out).read()
        src = os.path.join(ctx.dir, "agg.cpp")
        open(src, "w").write(agg + use)
        rc, o = sh(["g++", "-std=c++17", "-O1", "-w", src, "-o", exe + "2"], timeout=300)
        if rc != 0:
            if not ctx.canary():
                raise CheckError("the compiler does not work here")
            ctx.add_violation("own headers compile", "the flattened library does not compile: %s" % " | ".join(l for l in o.splitlines() if "error" in l)[:500], dict(kind="script"))
        else:
            got = sh([exe + "2"])[1]
            if normal is not None and got != normal:
                ctx.add_violation("own headers result", "the flattened library computes %s, not %s" % (got, normal), dict(kind="script"))
        sp = os.path.join(d, "split%d" % n)
        rc, text = as_nobody(["split", out, sp], d)
        if rc != "0":
            ctx.add_violation("own headers split", "splitting the flattened library fails (%s): %s" % (rc, text[-300:]), dict(kind="script"))
            continue
        if tree(inc) != before:
            ctx.add_violation("own headers changed", "splitting changed the original headers", dict(kind="script"))
            return n
        got = {os.path.basename(p): v for p, v in tree(sp).items() if not p.endswith("/")}
        for p, v in before.items():
            b = os.path.basename(p)
            if os.path.join(inc, p) in roots and got.get(b, b"").rstrip(b"\n") != v.rstrip(b"\n"):
                ctx.add_violation("own headers restored", "splitting does not restore %s" % p, dict(kind="script"))
    return n


def run(ctx):
    text = open(SCRIPT).read()
    setup(text)
    s = Scratch()
    try:
        cs = list(cases(ctx.thorough))
        chunks = [cs[k::JOBS * 6] for k in range(JOBS * 6)]
        import multiprocessing
        with concurrent.futures.ProcessPoolExecutor(JOBS, mp_context=multiprocessing.get_context("fork")) as ex:
            for found, n in ex.map(worker, [(s.dir, c) for c in chunks]):
                ctx.count(transitions=2 * n, traces=n)
                for k, m, c in found:
                    ctx.add_violation(k, "%s: graph %s, roots %s, layout %s, %s, cwd %s" % (m, dict(enumerate(c[0])), c[1], c[2], c[3], c[4]), dict(kind="script", case=repr(c)))
        ctx.count(states=len({(c[0], c[1], c[2]) for c in cs}))
        ctx.extra["graphs"] = len({c[0] for c in cs})
        ctx.extra["refusals_expected"] = sum(1 for c in cs if analyse(c[0], c[1])[1])
        for c in (cs[5], cs[len(cs) // 2], cs[-1]):
            ctx.sample("graph %s, roots %s, layout %s: reachable and problem %s" % (dict(enumerate(c[0])), c[1], c[2], analyse(c[0], c[1])))
        ctx.extra["own_header_runs"] = own_headers(ctx, s)
    finally:
        s.remove()
