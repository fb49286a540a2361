// Reference points, weights and polynomials, computed from their definitions in extended precision.
#pragma once
#include <cmath>
#include <map>
#include <string>
#include <vector>

namespace ref
{
using Q = __float128;
inline Q absq( Q x ) { return x < 0 ? -x : x; }

// Legendre polynomial and its derivatives at x
inline void legendre( int n, Q x, Q & p, Q & dp, Q & ddp )
{
  Q p0 = 1, p1 = x;
  if ( n == 0 ) { p = 1; dp = 0; ddp = 0; return; }
  for ( int k = 2; k <= n; ++k ) { Q const p2 = ( ( 2 * k - 1 ) * x * p1 - ( k - 1 ) * p0 ) / k; p0 = p1; p1 = p2; }
  p = p1;
  // derivative by recurrence that holds at the end points too
  Q d0 = 0, d1 = 1, q0 = 1, q1 = x, e0 = 0, e1 = 0;
  for ( int k = 2; k <= n; ++k )
  {
    Q const q2 = ( ( 2 * k - 1 ) * x * q1 - ( k - 1 ) * q0 ) / k;
    Q const d2 = d0 + ( 2 * k - 1 ) * q1;
    Q const e2 = e0 + ( 2 * k - 1 ) * d1;
    q0 = q1; q1 = q2; d0 = d1; d1 = d2; e0 = e1; e1 = e2;
  }
  dp = d1; ddp = e1;
}

inline std::vector< Q > computeRoots( int n, bool derivative, int count )
{
  // roots of P_n (or P_n') in (-1,1): scan and bisect
  auto f = [&]( Q x ) { Q p, d, e; legendre( n, x, p, d, e ); return derivative ? d : p; };
  std::vector< Q > r;
  int const M = 4001;
  Q const lo = -0.99999, hi = 0.99999;
  Q a = lo, fa = f( a );
  for ( int i = 1; i <= M; ++i )
  {
    Q const b = lo + ( hi - lo ) * i / M, fb = f( b );
    if ( ( fa < 0 ) != ( fb < 0 ) )
    {
      Q l = a, h = b, fl = fa;
      for ( int k = 0; k < 110; ++k ) { Q const m = ( l + h ) / 2, fm = f( m ); if ( ( fm < 0 ) == ( fl < 0 ) ) { l = m; fl = fm; } else h = m; }
      r.push_back( ( l + h ) / 2 );
    }
    a = b; fa = fb;
  }
  if ( static_cast< int >( r.size() ) != count ) r.clear();
  return r;
}
inline std::vector< Q > bisectRoots( int n, bool derivative, int count )
{
  static std::map< int, std::vector< Q > > cache;
  auto & r = cache[n * 2 + derivative];
  if ( r.empty() ) r = computeRoots( n, derivative, count );
  return r;
}
inline std::vector< Q > equal( int n ) { std::vector< Q > r; for ( int i = 0; i < n; ++i ) r.push_back( Q( -1 ) + Q( 2 ) * i / ( n - 1 ) ); return r; }
inline std::vector< Q > gaussLegendre( int n ) { return bisectRoots( n, false, n ); }
inline std::vector< Q > gaussLobatto( int n )
{
  std::vector< Q > r{ -1 };
  if ( n > 2 ) for ( Q x : bisectRoots( n - 1, true, n - 2 ) ) r.push_back( x );
  r.push_back( 1 );
  return r;
}

// Lagrange polynomial i on nodes x, its derivative, at t
inline Q lagrange( std::vector< Q > const & x, size_t i, Q t )
{
  Q v = 1;
  for ( size_t j = 0; j < x.size(); ++j ) if ( j != i ) v *= ( t - x[j] ) / ( x[i] - x[j] );
  return v;
}
inline Q lagrangeD( std::vector< Q > const & x, size_t i, Q t )
{
  Q s = 0;
  for ( size_t k = 0; k < x.size(); ++k )
    if ( k != i )
    {
      Q v = 1 / ( x[i] - x[k] );
      for ( size_t j = 0; j < x.size(); ++j ) if ( j != i && j != k ) v *= ( t - x[j] ) / ( x[i] - x[j] );
      s += v;
    }
  return s;
}
// sums of the absolute values of the terms, which bound the rounding error of any evaluation of the products
inline Q lagrangeAbs( std::vector< Q > const & x, size_t i, Q t, Q e = 0 )
{
  Q v = 1;
  for ( size_t j = 0; j < x.size(); ++j ) if ( j != i ) v *= ( absq( t - x[j] ) + e * ( absq( t ) + 1 ) ) / absq( x[i] - x[j] );
  return v;
}
inline Q lagrangeDAbs( std::vector< Q > const & x, size_t i, Q t, Q e = 0 )
{
  Q s = 0;
  for ( size_t k = 0; k < x.size(); ++k )
    if ( k != i )
    {
      Q v = 1 / absq( x[i] - x[k] );
      for ( size_t j = 0; j < x.size(); ++j ) if ( j != i && j != k ) v *= ( absq( t - x[j] ) + e * ( absq( t ) + 1 ) ) / absq( x[i] - x[j] );
      s += v;
    }
  return s;
}
}
