"""C08: what a program that asks a spacing for an unsupported number of points gets. Every family, number of points
around and beyond the supported ones, form and type: the program is either rejected, or it gets the exact points."""
import concurrent.futures, math
from check import sh, JOBS

FAMILIES = {"EqualSpacing": lambda n: n >= 2, "GaussLegendreSpacing": lambda n: 1 <= n <= 4, "GaussLobattoSpacing": lambda n: 2 <= n <= 9}
TYPES = ("double", "float")
ASK = {"run time": "volatile int k = {k}; r = S::coordinate( k );", "compile time": "r = S::template coordinate< {k} >();",
       "constant": "constexpr T c = S::template coordinate< {k} >(); r = c;"}


def legendre(n, x):
    """P_n and its derivative."""
    p, q = 1.0, x
    if n == 0:
        return 1.0, 0.0
    for k in range(2, n + 1):
        p, q = q, ((2 * k - 1) * x * q - (k - 1) * p) / k
    return q, (n * (p - x * q) / (1 - x * x) if abs(x) < 1 else 0.5 * n * (n + 1) * x ** (n + 1))


def roots(f, n):
    """The n roots of f inside (-1,1), by bisection on a fine grid."""
    out, m = [], 4000
    for i in range(m):
        a, b = -1 + 2 * (i + 0.31) / (m + 1), -1 + 2 * (i + 1.31) / (m + 1)
        if f(a) * f(b) < 0:
            for _ in range(80):
                c = (a + b) / 2
                if f(a) * f(c) <= 0:
                    b = c
                else:
                    a = c
            out.append((a + b) / 2)
    assert len(out) == n, (n, out)
    return out


def points(family, n):
    """The exact points, or None when the family has none of that number."""
    if family == "EqualSpacing":
        return [-1 + 2 * i / (n - 1) for i in range(n)] if n >= 2 else None
    if family == "GaussLegendreSpacing":
        return roots(lambda x: legendre(n, x)[0], n) if n >= 1 else None
    return [-1.0] + roots(lambda x: legendre(n - 1, x)[1], n - 2) + [1.0] if n >= 2 else None


def run(ctx):
    top = 20 if ctx.thorough else 13
    jobs = []
    for family, ok in FAMILIES.items():
        for n in list(range(-2, top)) + [33, 64]:
            if ok(n):
                continue
            for form in ASK:
                for k in sorted({0, max(n - 1, 0), max(n // 2, 0)}) if ctx.thorough else [max(n // 2, 0)]:
                    jobs.append((family, n, form, k, TYPES[(n + k) % 2]))

    def one(j):
        family, n, form, k, t = j
        text = '#include "shiva/functions/spacing/Spacing.hpp"\n#include <cstdio>\nusing T = %s; using S = shiva::%s< T, %d >;\nint main() { T r; %s std::printf( "%%.17g", static_cast< double >( r ) ); }\n' % (t, family, n, ASK[form].format(k=k))
        tag = "%s/unsupported_%s_%d_%s_%d" % (ctx.dir, family, n, form.replace(" ", ""), k)
        open(tag + ".cpp", "w").write(text)
        cmds = []
        for cxx, std in (("g++", "17"), ("clang++", "20")) if ctx.thorough else ((("g++", "17"), ("clang++", "20"))[(n + k) % 2],):
            cmd = [cxx, "-std=c++" + std, "-w", "-O1"] + ctx.includes(True) + [tag + ".cpp", "-o", tag + "." + cxx]
            rc, out = sh(cmd, timeout=300)
            if rc != 0:
                continue
            rc, out = sh([tag + "." + cxx], timeout=30)
            want = points(family, n)
            try:
                got = float(out)
            except ValueError:
                got = math.nan
            if rc != 0 or want is None or k >= len(want) or not abs(got - want[k]) <= (1e-12 if t == "double" else 1e-6):
                ctx.add_violation("made up:" + family, "%s: %s< %s, %d > answers %s for point %d (%s)%s" % (
                    cxx, family, t, n, out or "status %s" % rc, k, form, ", which is %.17g" % want[k] if want and k < len(want) else ", but there is no such spacing"),
                    dict(kind="program", cmd=" ".join(cmd), program=text))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    # the programs differ from accepted ones in nothing but the number of points
    text = '#include "shiva/functions/spacing/Spacing.hpp"\n#include <cstdio>\n'
    body = ""
    for i, (family, n) in enumerate((f, n) for f, ok in FAMILIES.items() for n in (2, 3, 4)):
        for t in TYPES:
            for m, form in enumerate(ASK):
                text += "namespace a%d_%s%d { using T = %s; using S = shiva::%s< T, %d >; inline T f() { T r; %s return r; } }\n" % (i, t, m, t, family, n, ASK[form].format(k=1))
    open(ctx.dir + "/supported.cpp", "w").write(text + "int main() {}\n")
    for cxx, std in (("g++", "17"), ("clang++", "20")):
        cmd = [cxx, "-std=c++" + std, "-w", "-fsyntax-only"] + ctx.includes(True) + [ctx.dir + "/supported.cpp"]
        rc, out = sh(cmd, timeout=300)
        if rc != 0:
            ctx.add_violation("supported rejected", "%s rejects supported spacings: %s" % (cxx, " | ".join(l for l in out.splitlines() if "error" in l)[:600]), dict(kind="program", cmd=" ".join(cmd), program=text))
    ctx.count(states=len(jobs), transitions=len(jobs), traces=len(jobs))
    ctx.extra["unsupported_requests"] = len(jobs)
    ctx.sample("rejected or exact: %s< %s, %d >, point %d, %s form" % (jobs[0][0], jobs[0][4], jobs[0][1], jobs[0][3], jobs[0][2]))
