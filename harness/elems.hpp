// Bases with their independently computed nodes.
#pragma once
#include "harness/ref1d.hpp"
#include "harness/shapes.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <limits>
#include <string>
#include <vector>

template< typename T, int O > using L = shiva::functions::LagrangeBasis< T, O, shiva::GaussLobattoSpacing >;
template< typename T, int O > using EQ = shiva::functions::LagrangeBasis< T, O, shiva::EqualSpacing >;
template< typename T, int O > using G = shiva::functions::LagrangeBasis< T, O, shiva::GaussLegendreSpacing >;

template< typename B > struct Info;
template< typename T, int O > struct Info< L< T, O > > { static std::string name() { return "Lobatto" + std::to_string( O ); } static std::vector< ref::Q > nodes() { return ref::gaussLobatto( O + 1 ); } };
template< typename T, int O > struct Info< EQ< T, O > > { static std::string name() { return "Equal" + std::to_string( O ); } static std::vector< ref::Q > nodes() { return ref::equal( O + 1 ); } };
template< typename T, int O > struct Info< G< T, O > > { static std::string name() { return "Legendre" + std::to_string( O ); } static std::vector< ref::Q > nodes() { return ref::gaussLegendre( O + 1 ); } };

// Values, derivatives and their rounding scales of a tensor product of 1D reference bases.
struct RefTensor
{
  std::vector< std::vector< ref::Q > > nodes;
  int numNodes() const { int n = 1; for ( auto const & x : nodes ) n *= static_cast< int >( x.size() ); return n; }
  int dims() const { return static_cast< int >( nodes.size() ); }
  std::vector< int > index( int l ) const
  {
    std::vector< int > r( nodes.size() );
    for ( size_t d = nodes.size(); d-- > 0; ) { r[d] = l % static_cast< int >( nodes[d].size() ); l /= static_cast< int >( nodes[d].size() ); }
    return r;
  }
  // v[l], g[l][q] and the sums of absolute terms, with every factor at least about pad
  void eval( std::vector< ref::Q > const & x, std::vector< ref::Q > & v, std::vector< std::vector< ref::Q > > & g, std::vector< ref::Q > & va, std::vector< std::vector< ref::Q > > & ga, ref::Q pad ) const
  {
    using ref::Q;
    int const D = dims(), N = numNodes();
    std::vector< std::vector< Q > > p( nodes.size() ), dp( p ), pa( p ), dpa( p );
    for ( size_t d = 0; d < nodes.size(); ++d )
      for ( size_t i = 0; i < nodes[d].size(); ++i )
      {
        p[d].push_back( ref::lagrange( nodes[d], i, x[d] ) ); dp[d].push_back( ref::lagrangeD( nodes[d], i, x[d] ) );
        pa[d].push_back( ref::lagrangeAbs( nodes[d], i, x[d], pad ) ); dpa[d].push_back( ref::lagrangeDAbs( nodes[d], i, x[d], pad ) );
      }
    v.assign( static_cast< size_t >( N ), 1 ); va = v; g.assign( static_cast< size_t >( N ), std::vector< Q >( static_cast< size_t >( D ), 1 ) ); ga = g;
    for ( int l = 0; l < N; ++l )
    {
      auto const idx = index( l );
      size_t const L_ = static_cast< size_t >( l );
      for ( size_t d = 0; d < nodes.size(); ++d )
      {
        size_t const i = static_cast< size_t >( idx[d] );
        v[L_] *= p[d][i]; va[L_] *= pa[d][i];
        for ( size_t q = 0; q < nodes.size(); ++q ) { g[L_][q] *= q == d ? dp[d][i] : p[d][i]; ga[L_][q] *= q == d ? dpa[d][i] : pa[d][i]; }
      }
    }
  }
};
inline std::string qs( ref::Q x ) { char b[40]; std::snprintf( b, 40, "%.17g", static_cast< double >( x ) ); return b; }

// Tolerance factor: rounding of the type plus the precision of tabulated points
template< typename T, typename... B > constexpr ref::Q relTol()
{
  constexpr int most = [] { int m = 0; ( ( m = B::numSupportPoints > m ? B::numSupportPoints : m ), ... ); return m; }();
  ref::Q const e = std::numeric_limits< T >::epsilon() < std::numeric_limits< double >::epsilon() ? std::numeric_limits< double >::epsilon() : std::numeric_limits< T >::epsilon();
  return 64 * e + ( most > 5 ? ref::Q( 4e-12 ) : ref::Q( 0 ) );
}
