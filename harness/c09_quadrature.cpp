// C09: all monomials up to the promised degree, all rules, all forms, 1-3 directions.
#include "mc/mc.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include <cmath>
#include <limits>
#include <utility>
using LD = long double;

struct Rule { std::string name; int n, degree; LD tol; bool hasRt; std::vector< LD > pr, pc, wr, wc, wk, pk; };
static volatile int zero = 0;

template< typename R, typename T, bool RT, size_t... I > static Rule make( char const * fam, int degree, bool tab, std::index_sequence< I... > )
{
  Rule r;
  r.n = sizeof...( I );
  r.name = std::string( fam ) + "<" + mc::typeName< T >() + "," + std::to_string( r.n ) + ">";
  r.degree = degree;
  r.tol = std::max( 8 * static_cast< LD >( std::max< LD >( std::numeric_limits< T >::epsilon(), 2.2e-16L ) ), tab ? 1.0e-12L : 0.0L );
  r.hasRt = RT;
  static constexpr T wc[] = { R::template weight< static_cast< int >( I ) >()... };
  static constexpr T pc[] = { R::template coordinate< static_cast< int >( I ) >()... };
  T const wk[] = { R::template weight< static_cast< int >( I ) >()... };
  T const pk[] = { R::template coordinate< static_cast< int >( I ) >()... };
  for ( int i = 0; i < r.n; ++i )
  {
    r.wc.push_back( wc[i] ); r.pc.push_back( pc[i] ); r.wk.push_back( wk[i] ); r.pk.push_back( pk[i] );
    r.pr.push_back( R::coordinate( i + zero ) );
    if constexpr ( RT ) r.wr.push_back( R::weight( i + zero ) );
  }
  if constexpr ( RT )
  {
    static constexpr T wconst[] = { R::weight( static_cast< int >( I ) )... };
    for ( int i = 0; i < r.n; ++i ) if ( std::fabs( wconst[i] - r.wr[static_cast< size_t >( i )] ) > r.tol ) mc::violation( "constant weight", r.name + ": weight(i) as a constant differs at " + std::to_string( i ) );
  }
  return r;
}
template< typename T > static void rulesOf( std::vector< Rule > & v )
{
  v.push_back( make< shiva::QuadratureGaussLegendre< T, 2 >, T, true >( "Legendre", 3, false, std::make_index_sequence< 2 >{} ) );
  v.push_back( make< shiva::QuadratureGaussLegendre< T, 3 >, T, true >( "Legendre", 5, false, std::make_index_sequence< 3 >{} ) );
  v.push_back( make< shiva::QuadratureGaussLegendre< T, 4 >, T, true >( "Legendre", 7, false, std::make_index_sequence< 4 >{} ) );
  v.push_back( make< shiva::QuadratureGaussLobatto< T, 2 >, T, true >( "Lobatto", 1, false, std::make_index_sequence< 2 >{} ) );
  v.push_back( make< shiva::QuadratureGaussLobatto< T, 3 >, T, true >( "Lobatto", 3, false, std::make_index_sequence< 3 >{} ) );
  v.push_back( make< shiva::QuadratureGaussLobatto< T, 4 >, T, true >( "Lobatto", 5, false, std::make_index_sequence< 4 >{} ) );
  v.push_back( make< shiva::QuadratureGaussLobatto< T, 5 >, T, true >( "Lobatto", 7, false, std::make_index_sequence< 5 >{} ) );
  v.push_back( make< shiva::QuadratureGaussLobatto< T, 6 >, T, false >( "Lobatto", 9, true, std::make_index_sequence< 6 >{} ) );
  v.push_back( make< shiva::QuadratureGaussLobatto< T, 7 >, T, false >( "Lobatto", 11, true, std::make_index_sequence< 7 >{} ) );
  v.push_back( make< shiva::QuadratureGaussLobatto< T, 8 >, T, false >( "Lobatto", 13, true, std::make_index_sequence< 8 >{} ) );
  v.push_back( make< shiva::QuadratureGaussLobatto< T, 9 >, T, false >( "Lobatto", 15, true, std::make_index_sequence< 9 >{} ) );
}
static LD exact( int d ) { return d % 2 ? 0 : 2.0L / ( d + 1 ); }
static LD ipow( LD x, int d ) { LD r = 1; while ( d-- > 0 ) r *= x; return r; }

static void body()
{
  static std::vector< Rule > const rules[3] = { []{ std::vector< Rule > v; rulesOf< double >( v ); return v; }(), []{ std::vector< Rule > v; rulesOf< float >( v ); return v; }(), []{ std::vector< Rule > v; rulesOf< long double >( v ); return v; }() };
  auto const & set = rules[mc::choose( 3, "type" )];
  int const dims = 1 + mc::choose( 3, "directions" );
  Rule const * r[3]; std::vector< LD > const * p[3]; std::vector< LD > const * w[3]; int deg[3];
  // form: 0 all compile time (constant), 1 all run time, 2 run-time points with compile-time weights, 3 compile-time form at run time
  int const form = dims == 3 ? mc::choose( 2, "form" ) * 3 : mc::choose( 4, "form" );
  std::string name; LD want = 1, tol = 0;
  for ( int d = 0; d < dims; ++d )
  {
    std::vector< Rule const * > ok;
    for ( auto const & x : set ) if ( ( form != 1 || x.hasRt ) && ( dims < 3 || x.n <= ( mc::thorough() ? 9 : 4 ) ) ) ok.push_back( &x );
    r[d] = ok[static_cast< size_t >( mc::choose( static_cast< int >( ok.size() ), "rule" ) )];
    w[d] = form == 0 || form == 2 ? &r[d]->wc : form == 1 ? &r[d]->wr : &r[d]->wk;
    p[d] = form == 0 ? &r[d]->pc : form == 3 ? &r[d]->pk : &r[d]->pr;
    deg[d] = mc::choose( r[d]->degree + 1, "degree" );
    want *= exact( deg[d] ); tol += r[d]->tol * 4;
    name += ( d ? " x " : "" ) + r[d]->name + " x^" + std::to_string( deg[d] );
  }
  LD got = 0;
  for ( int i = 0; i < r[0]->n; ++i )
    for ( int j = 0; j < ( dims > 1 ? r[1]->n : 1 ); ++j )
      for ( int k = 0; k < ( dims > 2 ? r[2]->n : 1 ); ++k )
      {
        int const q[3] = { i, j, k }; LD t = 1;
        for ( int d = 0; d < dims; ++d ) t *= ( *w[d] )[static_cast< size_t >( q[d] )] * ipow( ( *p[d] )[static_cast< size_t >( q[d] )], deg[d] );
        got += t;
      }
  mc::step();
  mc::state( mc::mix( mc::hashString( name ), static_cast< uint64_t >( form ) ) );
  mc::observe( static_cast< double >( got ) );
  if ( mc::tracing() ) mc::note( name + " = " + std::to_string( static_cast< double >( got ) ) );
  mc::check( std::fabs( got - want ) <= tol, "integral", [&]{ return std::string( mc::Str() << name << " form " << form << " integrates to " << static_cast< double >( got ) << ", not " << static_cast< double >( want ) ); } );
  if ( dims == 1 && deg[0] == 0 )
  {
    Rule const & x = *r[0];
    for ( int i = 0; i < x.n; ++i )
    {
      size_t const a = static_cast< size_t >( i ), b = static_cast< size_t >( x.n - 1 - i );
      mc::check( ( *w[0] )[a] > 0, "positive", [&]{ return x.name + ": weight " + std::to_string( i ) + " is not positive"; } );
      mc::check( std::fabs( ( *w[0] )[a] - ( *w[0] )[b] ) <= x.tol, "symmetric", [&]{ return x.name + ": weight " + std::to_string( i ) + " is not symmetric"; } );
      mc::check( std::fabs( x.wc[a] - ( *w[0] )[a] ) <= x.tol && std::fabs( x.pc[a] - ( *p[0] )[a] ) <= x.tol, "forms differ", [&]{ return x.name + ": the forms differ at index " + std::to_string( i ); } );
    }
  }
}
MC_MAIN( body )
