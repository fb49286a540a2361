"""C04: every program of a small grammar of API uses is accepted or rejected as its rule says, by every compiler."""
import concurrent.futures, itertools, os
from check import sh, JOBS

PRE = """#include "shiva/common/CArray.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
"""
LB = "shiva::functions::LagrangeBasis< double, %d, shiva::GaussLobattoSpacing >"


def programs():
    """Yields (rule, body of a function, expected to compile)."""
    P = []
    add = lambda rule, body, ok: P.append((rule, body, ok))
    shapes = [(3,), (1,), (2, 3), (3, 2), (2, 3, 2), (1, 2, 3), (2, 1, 2, 3)]
    J = lambda xs: ", ".join(map(str, xs))
    flav = {"own": "shiva::CArrayNd< int, {D} > a{{}};", "constown": "shiva::CArrayNd< int, {D} > const a{{}};",
            "view": "int buf[{N}] = {{}}; shiva::CArrayViewNd< int, {D} > a( buf );",
            "cview": "int buf[{N}] = {{}}; shiva::CArrayViewNd< int const, {D} > a( buf );",
            "constview": "int buf[{N}] = {{}}; shiva::CArrayViewNd< int, {D} > const a( buf );",
            "constelem": "shiva::CArrayNd< int const, {D} > a{{}};"}

    def decl(f, s):
        n = 1
        for d in s:
            n *= d
        return flav[f].format(D=J(s), N=n)
    # number of indices, run time and compile time, on arrays, views and slices
    for f in ("own", "constown", "view", "cview"):
        for s in shapes:
            for n in range(0, len(s) + 2):
                if n:
                    add("run-time index count", decl(f, s) + " int i = 0; (void) a( %s );" % J(["i"] * n), n == len(s))
                if f in ("own", "constown") or len(s) == 2:
                    add("compile-time index count", decl(f, s) + " (void) a.template operator()< %s >();" % J([0] * n), n == len(s))
    for f in ("own", "view", "constown"):
        for s in ((2, 3), (2, 3, 2)):
            for n in range(1, len(s) + 1):
                add("slice index count", decl(f, s) + " int i = 0; auto b = a[i]; (void) b( %s );" % J(["i"] * n), n == len(s) - 1)
                add("slice compile-time index count", decl(f, s) + " auto b = a[0]; (void) b.template operator()< %s >();" % J([0] * n), n == len(s) - 1)
    # compile-time index values
    for s in shapes:
        for d in range(len(s)):
            for v in (-2, -1, 0, s[d] - 1, s[d], s[d] + 1):
                idx = [0] * len(s); idx[d] = v
                for f in ("own", "constown") if len(s) != 2 else ("own", "constown", "view", "cview"):
                    add("compile-time index value", decl(f, s) + " (void) a.template operator()< %s >();" % J(idx), 0 <= v < s[d])
    # extents and pack look-ups
    for s in shapes:
        for i in range(0, len(s) + 2):
            add("extent", "static_assert( shiva::CArrayNd< int, %s >::extent< %d >() > 0 );" % (J(s), i), i < len(s))
    for n in (1, 3):
        for i in range(0, n + 2):
            add("pack look-up", "static_assert( shiva::IntPackPeeler< %d, %s >::value() == %d );" % (i, J(range(n)), i), i < n)
    # writes
    for f in flav:
        ro = f in ("constown", "cview", "constview", "constelem")
        for s in ((3,), (2, 3), (2, 3, 2)):
            z = J([0] * len(s))
            add("write by ()", decl(f, s) + " a( %s ) = 1;" % z, not ro)
            add("write by <>", decl(f, s) + " a.template operator()< %s >() = 1;" % z, not ro)
            add("write by []", decl(f, s) + " a%s = 1;" % ("[0]" * len(s)), not ro)
            add("write by data()", decl(f, s) + " a.data()[0] = 1;", f in ("own", "view", "constview"))
            add("mutable reference by ()", decl(f, s) + " int & r = a( %s ); (void) r;" % z, not ro)
            add("mutable reference by []", decl(f, s) + " int & r = a%s; (void) r;" % ("[0]" * len(s)), not ro)
            add("read", decl(f, s) + " int const & r = a( %s ); int const & q = a%s; (void) r; (void) q;" % (z, "[0]" * len(s)), True)
            if len(s) > 1:
                add("write by slice", decl(f, s) + " auto b = a[0]; b( %s ) = 1;" % J([0] * (len(s) - 1)), not ro)
                add("write by slice<>", decl(f, s) + " auto b = a[0]; b.template operator()< %s >() = 1;" % J([0] * (len(s) - 1)), not ro)
                add("write by const slice", decl(f, s) + " auto const b = a[0]; b( %s ) = 1;" % J([0] * (len(s) - 1)), False)
                add("read by const slice", decl(f, s) + " auto const b = a[0]; int x = b( %s ); (void) x;" % J([0] * (len(s) - 1)), True)
    for el, fr, ok in (("int", "int const", False), ("int const", "int const", True), ("int const", "int", True), ("int", "int", True)):
        add("view of read-only data", "%s buf[6] = {}; shiva::CArrayViewNd< %s, 2, 3 > a( buf ); (void) a( 0, 0 );" % (fr, el), ok)
        add("view of read-only pointer", "%s buf[6] = {}; %s * p = buf; shiva::CArrayViewNd< %s, 2, 3 > a( p ); (void) a( 0, 0 );" % (fr, fr, el), ok)
    for n in range(0, 6):
        add("number of values", "shiva::CArrayNd< int, 2, 2 > a{ %s }; (void) a( 0, 0 );" % J(range(n)) if n else "shiva::CArrayNd< int, 2, 2 > a{}; (void) a( 0, 0 );", n <= 4)
    for n in range(4, 9):
        add("size of viewed array", "int buf[%d] = {}; shiva::CArrayViewNd< int, 2, 3 > a( (decltype(buf) &) buf ); (void) a( 0, 0 );" % n, None if n != 6 else True)
    # spacings and quadratures
    for n in range(-1, 12):
        for T in ("double", "float"):
            for sp, ok in (("GaussLegendreSpacing", 1 <= n <= 4), ("GaussLobattoSpacing", 2 <= n <= 9)):
                add(sp + " run time", "int i = 0; (void) shiva::%s< %s, %d >::coordinate( i );" % (sp, T, n), ok)
                add(sp + " compile time", "(void) shiva::%s< %s, %d >::template coordinate< 0 >();" % (sp, T, n), ok)
        for q, okr, okc in (("QuadratureGaussLegendre", 2 <= n <= 4, 2 <= n <= 4), ("QuadratureGaussLobatto", 2 <= n <= 5, 2 <= n <= 9)):
            add(q + " run-time weight", "int i = 0; (void) shiva::%s< double, %d >::weight( i );" % (q, n), okr)
            add(q + " compile-time weight", "(void) shiva::%s< double, %d >::template weight< 0 >();" % (q, n), okc)
    # numbers of basis indices and of bases
    for dims in (1, 2, 3):
        bs = J([LB % (1 + k % 3) for k in range(dims)])
        shp = "shiva::geometry::NCube< double, %d, -1, 1, 1 >" % dims
        for kind, t in (("BasisProduct", "shiva::functions::BasisProduct< double, %s >" % bs),
                        ("InterpolatedShape", "shiva::geometry::InterpolatedShape< double, %s, %s >" % (shp, bs)),
                        ("ParentElement", "shiva::discretizations::finiteElementMethod::ParentElement< double, %s, %s >" % (shp, bs))):
            for fn in ("value", "gradient"):
                for n in range(1, 5):
                    add(kind + " index count", "using E = %s; double x[%d] = {}; (void) E::template %s< %s >( x );" % (t, dims, fn, J([0] * n)), n == dims)
    for shp in ("NCube", "NSimplex"):
        for n in (1, 2, 3):
            for b in (1, 2, 3, 4):
                bs = J([LB % 1] * b)
                g = "shiva::geometry::%s< double, %d, %s >" % (shp, n, "-1, 1, 1" if shp == "NCube" else "0, 1, 1")
                add("InterpolatedShape bases", "using E = shiva::geometry::InterpolatedShape< double, %s, %s >; static_assert( E::numDims == %d );" % (g, bs, b), b == n)
                add("ParentElement bases", "using E = shiva::discretizations::finiteElementMethod::ParentElement< double, %s, %s >; static_assert( E::numDims == %d );" % (g, bs, b), b == n)
    # shapes and binomials
    for shp, num in (("NCube", "numMCubes"), ("NSimplex", "numMSimplexes")):
        for mn, mx, dv in itertools.product((-1, 0, 1), (-1, 0, 1, 2), (-1, 0, 1, 2)):
            add(shp + " bounds", "using S = shiva::geometry::%s< double, 2, %d, %d, %d >; static_assert( S::numDims() == 2 );" % (shp, mn, mx, dv), mn < mx and dv > 0)
        for n in (1, 2, 3):
            for m in range(-2, n + 3):
                if shp == "NSimplex" and m == -1:
                    continue            # the empty face
                add(shp + " faces", "using S = shiva::geometry::%s< double, %d, 0, 1, 1 >; static_assert( S::template %s< %d >() > 0 );" % (shp, n, num, m), 0 <= m <= n)
    for T in ("int", "long"):
        for n in range(0, 5):
            for k in range(-2, n + 3):
                add("binomial", "static_assert( shiva::mathUtilities::binomialCoefficient< %s, %d, %d >::value > 0 );" % (T, n, k), 0 <= k <= n)
    return [p for p in P if p[2] is not None]


CONFIGS = [("g++", "17"), ("clang++", "17"), ("g++", "20"), ("clang++", "20")]


def compile_one(ctx, cxx, std, name, text, bounds=True):
    f = os.path.join(ctx.dir, name + ".cpp")
    open(f, "w").write(text)
    cmd = [cxx, "-std=c++" + std, "-fsyntax-only", "-w"] + ctx.includes(bounds) + [f]
    rc, out = sh(cmd, timeout=120)
    return rc == 0, out, cmd


def batch_accept(ctx, cxx, std, progs, tag, bounds=True):
    """All of these must compile: try them in one file; name the culprits by halving when it does not compile."""
    text = PRE + "".join("void f%d() { %s }\n" % (i, p[1]) for i, p in progs)
    ok, out, cmd = compile_one(ctx, cxx, std, tag, text, bounds)
    if ok:
        return
    if len(progs) == 1:
        i, p = progs[0]
        ctx.add_violation("rejected:" + p[0], "%s -std=c++%s rejects a valid program (%s): %s  --  %s" % (cxx, std, p[0], p[1], " | ".join(l for l in out.splitlines() if "error" in l)[:400]),
                          dict(kind="program", cmd=" ".join(cmd), program=PRE + "void f() { %s }\n" % p[1]))
        return
    with ctx.lock:
        n = sum(1 for v in ctx.violations if v["key"].startswith("rejected:"))
    if n > 8:
        return
    h = len(progs) // 2
    batch_accept(ctx, cxx, std, progs[:h], tag + "a", bounds)
    batch_accept(ctx, cxx, std, progs[h:], tag + "b", bounds)


def run(ctx):
    progs = list(enumerate(programs()))
    good = [p for p in progs if p[1][2]]
    bad = [p for p in progs if not p[1][2]]
    ctx.includes(True)
    if not ctx.canary():
        from check import CheckError
        raise CheckError("the compiler does not work here")
    # The quick tier compiles each rejected program once per compiler, the standards taken in turn, g++ with and clang++
    # without bounds checking; the thorough tier compiles it with all four pairs.
    jobs = []
    for cx, std in CONFIGS:
        for k in range(0, len(good), 60):
            jobs.append(("ok", cx, std, good[k:k + 60]))
    ctx.config_dir(False)
    for n, p in enumerate(bad):
        for j, (cx, std) in enumerate(CONFIGS):
            if ctx.thorough or j // 2 == (n // (1 + j % 2)) % 2:
                jobs.append(("no", cx, std, p))

    def one(j):
        if j[0] == "ok":
            tag = "ok_%s%s_%d" % (j[1], j[2], j[3][0][0])
            batch_accept(ctx, j[1], j[2], j[3], tag)
            return
        i, p = j[3]
        text = PRE + "void f() { %s }\n" % p[1]
        ok, out, cmd = compile_one(ctx, j[1], j[2], "no_%s%s_%d" % (j[1], j[2], i), text, bounds=(j[1] == "g++"))
        if ok:
            ctx.add_violation("accepted:" + p[0], "%s -std=c++%s accepts a program that breaks the rule (%s): %s" % (j[1], j[2], p[0], p[1]),
                              dict(kind="program", cmd=" ".join(cmd), program=text))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    ctx.count(states=len(progs), transitions=len(bad) * (4 if ctx.thorough else 2) + len(good) * 4, traces=len(jobs))
    ctx.extra["programs"] = dict(accepted=len(good), rejected=len(bad), rules=len({p[1][0] for p in progs}))
    for k in (0, len(bad) // 2, len(bad) - 1):
        ctx.sample("must be rejected (%s): %s" % (bad[k][1][0], bad[k][1][1]))
    ctx.sample("must be accepted (%s): %s" % (good[0][1][0], good[0][1][1]))
