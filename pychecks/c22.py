"""C22: every public header alone, twice, in every ordered pair (and triple, thorough), with a probe of what it declares;
translation units of all headers in different orders linked together; nothing emitted by inclusion."""
import re, concurrent.futures, itertools, os, subprocess
from check import REPO, JOBS, sh, CheckError

ROOT = os.path.join(REPO, "include")
# what each header offers; the probes hold whatever else has been included
PROBES = {
    "common/CArray.hpp": "constexpr int f@() { shiva::CArrayNd< int, 2, 3 > a{}; a( 1, 2 ) = 5; return a( 1, 2 ) + a[0][1]; } static_assert( f@() == 5 && shiva::CArrayNd< int, 2, 3 >::size() == 6 ); inline int v@() { int b[6] = {}; shiva::CArrayViewNd< int, 2, 3 > w( b ); w[1][0] = 4; return b[3]; }",
    "common/CArrayHelper.hpp": "",
    "common/IndexTypes.hpp": "constexpr int f@() { shiva::MultiIndexRange< int, 2, 3 > m{}; m.data[0] = 1; m.data[1] = 1; return shiva::linearIndex( m ); } static_assert( f@() == 4 ); constexpr int g@() { int n = 0; shiva::MultiIndexRangeI< 2, 3 > m{}; shiva::forRange( m, [&]( auto const & ) constexpr { ++n; } ); return n; } static_assert( g@() == 6 );",
    "common/LinearIndex.hpp": "static_assert( std::is_same_v< shiva::LinearIndex< long >, long > || sizeof( shiva::LinearIndex< long > ) == sizeof( long ) );",
    "common/MathUtilities.hpp": "static_assert( shiva::mathUtilities::pow< int, 3 >( 2 ) == 8 && shiva::mathUtilities::factorial< int, 5 >::value == 120 && shiva::mathUtilities::binomialCoefficient< int, 5, 2 >::value == 10 ); inline double f@() { double m[3][3] = { { 2, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, d; shiva::mathUtilities::inverse( m, d ); return d; }",
    "common/MultiIndex.hpp": "static_assert( shiva::MultiIndexRange< int, 4, 5 >::range( 1 ) == 5 && sizeof( shiva::MultiIndex< int, 3 > ) == 3 * sizeof( int ) ); static_assert( shiva::MultiIndexRangeI< 7 >::NUM_INDICES == 1 );",
    "common/NestedSequenceUtilities.hpp": "constexpr int f@() { int n = 0; shiva::forNestedSequence< 2, 3 >( [&]( auto const i, auto const j ) constexpr { n = n * 10 + decltype( i )::value * 3 + decltype( j )::value; } ); return n; } static_assert( f@() == 12345 );",
    "common/SequenceUtilities.hpp": "constexpr int f@() { int n = 0; shiva::forSequence< 4 >( [&]( auto const i ) constexpr { n = n * 10 + decltype( i )::value; } ); return n; } static_assert( f@() == 123 && shiva::executeSequence< 3 >( []( auto const... i ) constexpr { return ( decltype( i )::value + ... ); } ) == 3 );",
    "common/ShivaErrorHandling.hpp": "inline void f@( int i ) { SHIVA_ASSERT_MSG( i > 0, \"i is %d\", i ); if ( i < 0 ) shivaAssertionFailed( __FILE__, __LINE__, false, \"x\" ); }",
    "common/ShivaMacros.hpp": "SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE int f@( int i ) { SHIVA_UNUSED_VAR( i ); return 1; } static_assert( f@( 0 ) == 1 );",
    "common/pmpl.hpp": "inline double f@() { double d[2] = { 1, 2 }; shiva::pmpl::genericKernelWrapper( 2, d, []( double * p ) { p[0] = p[1]; } ); return d[0]; }",
    "common/types.hpp": "constexpr auto t@ = shiva::make_tuple( 1, 2.5 ); static_assert( shiva::make_int_sequence< 4 >::size() == 4 && std::is_same_v< shiva::int_sequence< 1 >, std::integer_sequence< int, 1 > > );",
    "functions/bases/BasisProduct.hpp": 'constexpr double f@() { double const x[2] = { 1, -1 }; return shiva::functions::BasisProduct< double, shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >, shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing > >::value< 1, 0 >( x ); } static_assert( f@() == 1 );',
    "functions/bases/LagrangeBasis.hpp": 'static_assert( shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >::value< 0 >( -1.0 ) == 1 && shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >::gradient< 1 >( 0.25 ) == 0.5 );',
    "functions/quadrature/Quadrature.hpp": "static_assert( shiva::QuadratureGaussLegendre< double, 2 >::weight( 0 ) == 1 && shiva::QuadratureGaussLobatto< double, 2 >::weight< 1 >() == 1 );",
    "functions/spacing/Spacing.hpp": "static_assert( shiva::EqualSpacing< double, 3 >::coordinate( 1 ) == 0 && shiva::GaussLobattoSpacing< double, 3 >::coordinate< 2 >() == 1 && shiva::GaussLegendreSpacing< double, 3 >::coordinate( 1 ) == 0 );",
    "geometry/shapes/NCube.hpp": "static_assert( shiva::geometry::Cube< double >::numVertices() == 8 && shiva::geometry::Square< float >::volume() == 4 && shiva::geometry::NCube< double, 4, 0, 1, 1 >::numFaces() == 24 );",
    "geometry/shapes/NSimplex.hpp": "static_assert( shiva::geometry::Tetrahedron< double >::numEdges() == 6 && shiva::geometry::NSimplex< double, 4, 0, 1, 1 >::numVertices() == 5 );",
    "geometry/shapes/InterpolatedShape.hpp": 'constexpr double f@() { double const x[2] = { 1, -1 }; return shiva::geometry::InterpolatedShape< double, shiva::geometry::Square< double >, shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >, shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing > >::value< 1, 0 >( x ); } static_assert( f@() == 1 );',
    "geometry/mapping/Scaling.hpp": "inline double f@() { shiva::geometry::Scaling< double > s; double const h[3] = { 2, 3, 4 }; s.setData( h ); typename shiva::geometry::Scaling< double >::JacobianType J; double d; shiva::geometry::utilities::inverseJacobian( s, J, d ); return d; }",
    "geometry/mapping/UniformScaling.hpp": "inline double f@() { shiva::geometry::UniformScaling< double > s; s.setData( 2.0 ); typename shiva::geometry::UniformScaling< double >::JacobianType J; double d; shiva::geometry::utilities::inverseJacobian( s, J, d ); return d; }",
    "geometry/mapping/LinearTransform.hpp": 'inline double f@() { namespace g = shiva::geometry; using B = shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >; using M = g::LinearTransform< double, g::InterpolatedShape< double, g::Cube< double >, B, B, B > >; M m; for ( int k = 0; k < 24; ++k ) m.getData().data()[k] = k; double const x[3] = { 0, 0, 0 }; M::JacobianType J; double d; g::utilities::jacobian( m, x, J ); g::utilities::inverseJacobian( m, x, J, d ); return d + J( 0, 1 ); }',
    "geometry/mapping/JacobianTransforms.hpp": 'inline double f@() { shiva::geometry::Scaling< double > s; double const h[3] = { 2, 3, 4 }; s.setData( h ); return shiva::geometry::utilities::jacobian( s )( 0 ); }',
    "discretizations/finiteElementMethod/parentElements/ParentElement.hpp": 'constexpr double f@() { double const x[2] = { 1, -1 }; return shiva::discretizations::finiteElementMethod::ParentElement< double, shiva::geometry::Square< double >, shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >, shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing > >::value< 1, 0 >( x ); } static_assert( f@() == 1 );',
    "Shiva.hpp": """inline double f@() { namespace g = shiva::geometry; double s = 0, d; double const h[3] = { 2, 3, 4 };
 { g::Scaling< double > m; m.setData( h ); g::Scaling< double >::JacobianType J; g::utilities::jacobian( m, J ); s += J( 0 ); g::utilities::inverseJacobian( m, J, d ); s += d; auto const K = g::utilities::jacobian( m ); s += K( 1 ); auto const t = g::utilities::inverseJacobian( m ); (void) t; }
 { g::UniformScaling< double > m; m.setData( 2.0 ); g::UniformScaling< double >::JacobianType J; g::utilities::jacobian( m, J ); s += J( 0 ); g::utilities::inverseJacobian( m, J, d ); s += d; auto const K = g::utilities::jacobian( m ); s += K( 0 ); auto const t = g::utilities::inverseJacobian( m ); (void) t; }
 return s; }""",
}
# other public headers that the probe itself needs; they are included after the headers under test
SP, LA, CU = "functions/spacing/Spacing.hpp", "functions/bases/LagrangeBasis.hpp", "geometry/shapes/NCube.hpp"
NEEDS = {"functions/bases/BasisProduct.hpp": [SP, LA], LA: [SP], "geometry/shapes/InterpolatedShape.hpp": [SP, LA, CU],
         "geometry/mapping/LinearTransform.hpp": [SP, LA, CU, "geometry/shapes/InterpolatedShape.hpp"], "geometry/mapping/JacobianTransforms.hpp": ["geometry/mapping/Scaling.hpp"],
         "discretizations/finiteElementMethod/parentElements/ParentElement.hpp": [SP, LA, CU]}
FULL = """#include <cstdio>
namespace { namespace g = shiva::geometry; using Basis = shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >; using Map = g::LinearTransform< double, g::InterpolatedShape< double, g::Cube< double >, Basis, Basis, Basis > >;
double full() { Map m; for ( int k = 0; k < 24; ++k ) m.getData().data()[k] = ( k * 7 ) % 11; double const x[3] = { 0.25, -0.5, 0.75 }; Map::JacobianType J; double d; g::utilities::inverseJacobian( m, x, J, d ); double const p[2] = { 0.5, 0.25 };
 shiva::CArrayNd< double, 2, 2 > f( 1.0, 2.0, 3.0, 5.0 );
 return d + J( 1, 2 ) + shiva::discretizations::finiteElementMethod::ParentElement< double, g::Square< double >, Basis, Basis >::value( p, f ) + shiva::QuadratureGaussLegendre< double, 3 >::weight( 1 ) + *shiva::MultiIndexRange< int, 2, 3 >::ranges + Basis::numSupportPoints; } }
"""

# code of the user, after the includes: it means what it means without them
NEUTRAL_DECL = """
struct vector { int v; }; struct array { int v; }; struct string { int v; }; struct pair { int v; }; struct CArray { int v; }; struct CArrayNd { int v; }; struct MultiIndex { int v; }; struct NCube { int v; }; struct Scaling { int v; };
struct tuple { int v; }; struct LagrangeBasis { int v; }; struct Square { int v; }; struct Cube { int v; }; struct Tetrahedron { int v; }; struct Quadrature { int v; }; struct ParentElement { int v; }; struct Spacing { int v; };
int forSequence( int a ) { return a + 1; } int forRange( int a ) { return a + 2; } int executeSequence( int a ) { return a + 3; } int inverse( int a ) { return a + 4; } int determinant( int a ) { return a + 5; } int linearIndex( int a ) { return a + 6; }
int jacobian( int a ) { return a + 7; } int value( int a ) { return a + 8; } int factorial( int a ) { return a + 9; } int move( int a ) { return a + 10; } int swap( int a ) { return a + 11; } int forward( int a ) { return a + 12; } int check( int a ) { return a + 13; }
namespace user { enum { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z }; int min( int a, int b ) { return a < b ? a : b; } int max( int a, int b ) { return a < b ? b : a; }
struct Names { int index, data, size, dim, rank, real, host, device, shared, global, inl, value, gradient, error, abort_, unused, check, assertion, type, real_type, index_type, DIM, RANK, SIZE, DATA, INDEX, HOST, DEVICE, GLOBAL, ORDER, BASIS, ERROR, ASSERT, CHECK, UNUSED, FORCE_INLINE, CONSTEXPR, VALUE, COUNT; }; }
struct Packed { char c; double d; short s; }; struct alignas( 4 ) Small { char c; int i; }; union Both { float f; int i; }; enum Plain { one, two }; struct Bits { int a : 3; unsigned b : 5; };
struct Base { virtual ~Base() {} virtual int f() { return 1; } }; struct Derived : Base { int f() override { return 2; } };
static int quiet( int parameter, unsigned count ) { int unused = 3; int hidden = 1; { int hidden = 2; (void) hidden; } long wide = 1L << 40; int narrow = wide; if( narrow = 0 ) ; switch( count ) { case 1: hidden = 2; case 2: break; } float single = 1.0 / 3; char letter = parameter; for ( int k = 0; k < count; ++k ) { letter += k; } ;; return hidden + (int) single == letter; }
template< typename A, typename B > struct IsSame { static constexpr bool v = false; }; template< typename A > struct IsSame< A, A > { static constexpr bool v = true; };
"""
NEUTRAL_MAIN = """
#include <cassert>
#include <cfenv>
#include <cfloat>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
static double volatile zero = 0, three = 3, tiny = 1e-308, big = 1e16, nan_ = std::nan( "" );
static float volatile f3 = 3, small = 1e-40f;
double kahan( double const * x, int n ) { double s = 0, c = 0; for ( int k = 0; k < n; ++k ) { double const y = x[k] - c, t = s + y; c = ( t - s ) - y; s = t; } return s; }
double product( double a, double b, double c ) { return a / b * c; }
bool isnan_( double x ) { return x != x; }
int main()
{
  { std::printf( "%d %d %d %zu %zu %zu %zu %zu\\n", isnan_( nan_ ), nan_ == nan_, std::isnan( nan_ ), sizeof( Packed ), sizeof( Small ), sizeof( Plain ), alignof( Packed ), sizeof( Bits ) ); }
  std::printf( "%a %a %a %a\\n", -zero, zero * -1, 1 / -zero, zero - zero );
  std::printf( "%d %d %d\\n", std::isinf( 1 / zero ), ( 1 / zero ) - ( 1 / zero ) == 0, std::signbit( -zero ) != 0 );
  double x[64]; for ( int k = 0; k < 64; ++k ) x[k] = k % 3 ? 1e-17 * k : 1 / three; x[0] = 1e3;
  std::printf( "%a %a %a %a\\n", kahan( x, 64 ), product( three, 7, 7 ), ( big + 1 ) - big, ( three / 7 ) * 7 - three );
  std::printf( "%a %a %a\\n", tiny / 1024, static_cast< double >( small / 2 ), std::sqrt( -three ) == 0 ? 1. : 0. );
  std::printf( "%d %d %d %d\\n", std::fegetround(), FLT_EVAL_METHOD, std::fetestexcept( FE_INVALID ) != 0, std::numeric_limits< double >::is_iec559 );
  std::printf( "%a %a\\n", static_cast< double >( f3 / 7 ), static_cast< double >( 1 / f3 ) );
  double s = 0; for ( int k = 0; k < 64; ++k ) s += x[k] * x[63 - k]; std::printf( "%a\\n", s );
  Derived d; Base & b = d; std::printf( "%d %d\\n", b.f(), dynamic_cast< Derived * >( &b ) == &d );
  bool asserted = false; assert( asserted = true ); std::printf( "%d\\n", asserted );
  vector a{ 1 }; array c{ 2 }; string e{ 3 }; pair f{ 4 }; CArray g{ 5 }; MultiIndex h{ 6 }; NCube i{ 7 }; Scaling j{ 8 }; tuple k{ 9 }; Square l{ 10 }; Cube m{ 11 }; LagrangeBasis n{ 12 }; Spacing o{ 13 }; CArrayNd p{ 14 }; ParentElement q{ 15 }; Tetrahedron r{ 16 }; Quadrature t{ 17 };
  std::printf( "%d\\n", a.v + c.v + e.v + f.v + g.v + h.v + i.v + j.v + k.v + l.v + m.v + n.v + o.v + p.v + q.v + r.v + t.v );
  std::printf( "%d\\n", forSequence( 1 ) + forRange( 1 ) + executeSequence( 1 ) + inverse( 1 ) + determinant( 1 ) + linearIndex( 1 ) + jacobian( 1 ) + value( 1 ) + factorial( 1 ) + move( 1 ) + swap( 1 ) + forward( 1 ) + check( 1 ) );
  std::printf( "%d %d %d %zu %ld\\n", user::Z, user::min( 2, 3 ), user::max( 2, 3 ), sizeof( user::Names ), static_cast< long >( __cplusplus ) );
  std::printf( "%d %d\\n", IsSame< decltype( 1.0 * 1.0f ), double >::v, static_cast< char >( -1 ) < 0 );
  try { throw 5; } catch ( int v ) { std::printf( "%d\\n", v ); }
}
""".replace("\\\\n", "\\n")


def headers():
    out = []
    for d, _, fs in os.walk(os.path.join(ROOT, "shiva")):
        for f in fs:
            if f.endswith((".hpp", ".h")) and f != "namespaceDocumentation.hpp":
                out.append(os.path.relpath(os.path.join(d, f), os.path.join(ROOT, "shiva")))
    return sorted(out)


def run(ctx):
    inc = ctx.includes(True)
    if not ctx.canary():
        raise CheckError("the compiler does not work here")
    H = headers()
    n = [0]

    def text(seq):
        """Includes in this order, then the probe of each header."""
        t = ""
        bare = seq[0] == "bare"
        seq = seq[bare:]
        for h in seq + sum([NEEDS.get(h, []) for h in seq if not bare], []):
            t += '#include "shiva/%s"\n' % h
        if bare:
            return t + "int main() {}\n"
        for k, h in enumerate(seq):
            t += PROBES.get(h, "").replace("@", "%d" % k) + "\n"
        return t + "int main() {}\n"

    def one(job):
        cxx, std, seq, i = job
        f = os.path.join(ctx.dir, "t%d.cpp" % i)
        open(f, "w").write(text(seq))
        cmd = [cxx, "-std=c++" + std, "-fsyntax-only", "-w"] + inc + [f]
        rc, out = sh(cmd, timeout=200)
        if rc != 0:
            rc, out = sh(cmd, timeout=200)
        if rc != 0:
            what = "alone" if len(seq) == 1 or seq[0] == "bare" else "twice" if len(seq) == 2 and seq[0] == seq[1] else "after " + ", ".join(seq[:-1])
            ctx.add_violation("include:" + seq[-1], "%s -std=c++%s: %s included %s does not compile or lost its meaning: %s" % (cxx, std, seq[-1], what, " | ".join(l for l in out.splitlines() if "error" in l)[:500]),
                              dict(kind="program", cmd=" ".join(cmd), program=text(seq)))
        os.remove(f)

    def probe_alone(h):
        return PROBES.get(h, "")

    jobs, seqs = [], [[h] for h in H] + [["bare", h] for h in H] + [[h, h] for h in H]
    for s in seqs:
        for cxx, std in (("g++", "17"), ("g++", "20"), ("clang++", "17"), ("clang++", "20")):
            jobs.append((cxx, std, s))
    pairs = [[a, b] for a in H for b in H if a != b]
    for k, s in enumerate(pairs):
        jobs.append(("g++", "17", s))
        jobs.append(("clang++", "20", s))
        if ctx.thorough:
            for cxx, std in (("g++", "20"), ("clang++", "17")):
                jobs.append((cxx, std, s))
    if ctx.thorough:
        for s in itertools.permutations(H, 3):
            jobs.append(("g++", "17", list(s)))
    jobs = [j + (i,) for i, j in enumerate(jobs)]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))

    # macros: what a header defines does not depend on what came before it
    macros = {}
    def defined(seq):
        if seq in macros:
            return
        f = os.path.join(ctx.dir, "m_%s.cpp" % "_".join(seq).replace("/", "."))
        open(f, "w").write("".join('#include "shiva/%s"\n' % h for h in seq))
        for attempt in range(2):
            rc, out = sh(["g++", "-std=c++17", "-E", "-dM", "-w"] + inc + [f], timeout=200)
            if rc == 0:
                break
        macros[seq] = None if rc else set(l for l in out.splitlines() if l.startswith("#define") and not l.startswith("#define __INCLUDE_LEVEL__"))
        os.remove(f)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(defined, [(h,) for h in H]))
        # a header that defines nothing its own includes do not define is the same in every place; the others, in all pairs
        list(ex.map(defined, [(a, b) for a in H for b in H if a != b]))
    for a in H:
        for b in H:
            if a != b and macros[(a,)] is not None and macros[(b,)] is not None and macros[(a, b)] is not None and macros[(a, b)] != macros[(a,)] | macros[(b,)]:
                d = macros[(a, b)] ^ (macros[(a,)] | macros[(b,)])
                ctx.add_violation("macros:" + b, "%s included after %s does not define what it defines alone: %s" % (b, a, "; ".join(sorted(d))[:400]), dict(kind="program", program='#include "shiva/%s"\n#include "shiva/%s"\n' % (a, b)))

    # no name of the user's is taken: macros that the headers leave defined are named after the library (include guards aside)
    taken = {}
    def names(h):
        f = os.path.join(ctx.dir, "d_%s.cpp" % h.replace("/", "."))
        open(f, "w").write('#include "shiva/%s"\n' % h)
        for cxx in ("g++", "clang++"):
            for attempt in range(2):
                rc, out = sh([cxx, "-std=c++17", "-E", "-dD", "-w"] + inc + [f], timeout=200)
                if rc == 0:
                    break
            if rc:
                continue
            where, live = "", {}
            for l in out.splitlines():
                m = re.match(r'#\s*(?:line )?\d+ "([^"]*)"', l)
                if m:
                    where = m[1]
                    continue
                m = re.match(r"#\s*(define|undef)\s+(\w+)(.*)", l)
                if m and m[1] == "undef":
                    live.pop(m[2], None)
                elif m:
                    live[m[2]] = (where, m[3])
            for name, (w, body) in live.items():
                if os.path.realpath(w).startswith(os.path.realpath(ROOT) + "/") and "shiva" not in name.lower() and not re.match(r"_[_A-Z]", name) and not (not body.strip() and re.search(r"(_H|_HPP|_HH|_INCLUDED|_GUARD|_ONCE)_*$", name, re.I)):
                    taken[name] = h
        os.remove(f)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(names, H))
    for name, h in sorted(taken.items()):
        prog = "struct %s { int v; };\nint main() { %s x{ 1 }; return x.v - 1; }\n" % (name, name)
        f = os.path.join(ctx.dir, "taken.cpp")
        open(f, "w").write(prog)
        if sh(["g++", "-std=c++17", "-w", "-fsyntax-only", f])[0] != 0:
            continue
        prog = '#include "shiva/%s"\n' % h + prog
        ctx.add_violation("name:" + name, "%s leaves a macro %s behind, which changes the code that follows wherever it has a name like it" % (h, name), dict(kind="program", program=prog))

    # linking: every header order below in a translation unit of its own, g++ and clang++ objects mixed
    orders = [H, H[::-1], H[len(H) // 2:] + H[:len(H) // 2], sorted(H, key=lambda h: (os.path.basename(h), h))]
    links = 0
    for std, opt in (("17", "-O0"), ("20", "-O0"), ("17", "-O2")):
        objs = []
        for k, o in enumerate(orders):
            cxx = ("g++", "clang++")[k % 2]
            f = os.path.join(ctx.dir, "l%d.cpp" % k)
            open(f, "w").write("".join('#include "shiva/%s"\n' % h for h in o) + FULL + "double unit%d() { return full(); }\n" % k)
            cmd = [cxx, "-std=c++" + std, opt, "-w", "-c"] + inc + [f, "-o", f + ".o"]
            rc, out = sh(cmd, timeout=300)
            if rc != 0:
                ctx.add_violation("all headers", "%s -std=c++%s: all headers together do not compile: %s" % (cxx, std, " | ".join(l for l in out.splitlines() if "error" in l)[:500]), dict(kind="program", cmd=" ".join(cmd)))
                continue
            objs.append(f + ".o")
        f = os.path.join(ctx.dir, "lmain.cpp")
        open(f, "w").write("#include <cstdio>\n" + "".join("double unit%d();\n" % k for k in range(len(orders))) + "int main() { double const a = unit0(); return " + " || ".join("unit%d() != a" % k for k in range(1, len(orders))) + " ? 1 : 0; }\n")
        exe = f + ".exe"
        if len(objs) == len(orders):
            rc, out = sh(["g++", "-std=c++" + std, f] + objs + ["-o", exe], timeout=300)
            links += 1
            if rc != 0:
                ctx.add_violation("link", "translation units that include all headers do not link together (C++%s %s): %s" % (std, opt, " | ".join(l for l in out.splitlines() if "multiple" in l or "undefined" in l)[:600] or out[-500:]), dict(kind="program"))
            else:
                rc, out = sh([exe], timeout=60)
                if rc != 0 and opt == "-O0":
                    ctx.add_violation("order", "the order of inclusion changes a result (C++%s)" % std, dict(kind="program"))

    # the code that follows keeps its meaning
    want, neutral = {}, []
    def follow(job):
        cxx, flags, seq = job
        tag = os.path.join(ctx.dir, "n_%d_%s" % (abs(hash(job)), cxx))
        t = "".join('#include "shiva/%s"\n' % h for h in seq) + NEUTRAL_DECL + NEUTRAL_MAIN
        open(tag + ".cpp", "w").write(t)
        cmd = [cxx] + list(flags) + inc + [tag + ".cpp", "-o", tag]
        for attempt in range(2):
            rc, out = sh(cmd, timeout=300)
            if rc == 0:
                break
        if rc == 0:
            rc, out = sh([tag], timeout=60)
            os.remove(tag)
        os.remove(tag + ".cpp")
        if not seq:
            want[(cxx, flags)] = (rc, out)
        elif (rc, out) != want[(cxx, flags)]:
            w = want[(cxx, flags)]
            diff = [(a, b) for a, b in zip(out.splitlines(), w[1].splitlines()) if a != b]
            ctx.add_violation("code after:" + seq[-1], "%s %s: code that follows %s %s" % (cxx, " ".join(flags), " and ".join(seq), "does not compile: " + " | ".join(l for l in out.splitlines() if "error" in l)[:500] if rc == 1 and not diff or "error" in out else "prints '%s' instead of '%s'" % (diff[0] if diff else (out[-200:], w[1][-200:]))),
                              dict(kind="program", cmd=" ".join(cmd), program=t))
    settings = [("g++", ("-std=c++17", "-O2")), ("clang++", ("-std=c++20", "-O2"))] + ([("g++", ("-std=c++20", "-O0")), ("clang++", ("-std=c++17", "-O3")), ("g++", ("-std=c++17", "-O3", "-march=native"))] if ctx.thorough else [])
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(follow, [s + ((),) for s in settings]))
        for s in settings:
            if want[s][0] != 0:
                raise CheckError("the probe does not work without the headers: " + want[s][1][-500:])
        neutral = [s + (q,) for s in settings for q in [(h,) for h in H] + [tuple(o) for o in orders]]
        list(ex.map(follow, neutral))

    # a translation unit that only includes defines nothing that another could collide with
    def emits(job):
        cxx, h = job
        f = os.path.join(ctx.dir, "e_%s_%s.cpp" % (cxx, h.replace("/", "_")))
        open(f, "w").write('#include "shiva/%s"\n' % h)
        rc, out = sh([cxx, "-std=c++17", "-O0", "-w", "-c"] + inc + [f, "-o", f + ".o"], timeout=200)
        if rc == 0:
            rc, out = sh(["nm", "-C", "--defined-only", "-g", f + ".o"], timeout=60)
            strong = [l for l in out.splitlines() if len(l.split()) >= 3 and l.split()[1] in "TDBRC"]
            if strong:
                ctx.add_violation("emits:" + h, "including %s alone defines %s in every translation unit" % (h, "; ".join(strong)[:400]), dict(kind="program"))
        os.remove(f)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(emits, [(c, h) for c in ("g++", "clang++") for h in H]))
    ctx.count(states=len(seqs) + len(pairs) + len(orders), transitions=len(jobs) + len(macros) + links + len(neutral) + 2 * len(H), traces=len(jobs) + links + len(neutral))
    ctx.extra["headers"] = len(H)
    ctx.extra["headers_with_probe"] = sum(1 for h in H if probe_alone(h))
    for s in (pairs[0], pairs[len(pairs) // 2], pairs[-1]):
        ctx.sample("g++ -std=c++17: " + " then ".join(s) + " with their probes")
