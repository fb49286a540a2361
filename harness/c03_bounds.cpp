// C03: every index tuple in and around the box, through every access form: stopped if and only if out of range.
#include "mc/mc.hpp"
#include "harness/shapes.hpp"
#include "shiva/common/CArray.hpp"
#include <limits>
#include <string>
#include <type_traits>

#ifndef PART
#define PART 0
#endif
#if defined( SHIVA_ENABLE_BOUNDS_CHECK )
static constexpr bool checked = true;
#else
static constexpr bool checked = false;
#endif

template< int... D > static std::string shapeName( Sh< D... > ) { std::string s; ( ( s += ( s.empty() ? "" : "x" ) + std::to_string( D ) ), ... ); return s; }

// candidate values of type IT for a dimension of extent d
template< typename IT > static std::vector< IT > candidates( int const d )
{
  std::vector< __int128 > v;
  for ( int i = -3; i <= d + 3; ++i ) v.push_back( i );
  v.push_back( std::numeric_limits< IT >::min() ); v.push_back( std::numeric_limits< IT >::max() );
  if ( sizeof( IT ) > 4 )
    for ( int k : { 0, 1, -1, d - 1 } ) { v.push_back( ( static_cast< __int128 >( 1 ) << 32 ) + k ); v.push_back( -( static_cast< __int128 >( 1 ) << 32 ) + k ); v.push_back( ( static_cast< __int128 >( 1 ) << 31 ) + k ); }
  else if ( sizeof( IT ) == 4 )
    for ( int k : { 127, 128, 256, 65536, -256, -65536 } ) { v.push_back( k ); v.push_back( k + 1 ); }
  std::vector< IT > r;
  for ( auto x : v )
    if ( x >= static_cast< __int128 >( std::numeric_limits< IT >::min() ) && x <= static_cast< __int128 >( std::numeric_limits< IT >::max() ) )
    {
      bool dup = false;
      for ( IT y : r ) dup |= y == static_cast< IT >( x );
      if ( !dup ) r.push_back( static_cast< IT >( x ) );
    }
  return r;
}

enum Op { READ, WRITE };
static double sink;

template< typename IT, typename A, size_t... K >
static void access( A & a, IT const * i, Op op, std::index_sequence< K... > )
{
  if constexpr ( std::is_assignable_v< decltype( a( i[K]... ) ), double > ) { if ( op == WRITE ) { a( i[K]... ) = 999; return; } }
  sink = a( i[K]... );
}
template< typename IT, typename A, int R, bool CONSTH >
static void through( A & a, IT const * i, int k, Op op )
{
  if ( k == 0 ) { access< IT >( a, i, op, std::make_index_sequence< R >{} ); return; }
  if constexpr ( R == 1 )
  {
    if constexpr ( std::is_assignable_v< decltype( a[i[0]] ), double > ) { if ( op == WRITE ) { a[i[0]] = 999; return; } }
    sink = a[i[0]];
  }
  else if constexpr ( CONSTH ) { auto const s = a[i[0]]; through< IT, decltype( s ), R - 1, CONSTH >( s, i + 1, k - 1, op ); }
  else { auto s = a[i[0]]; through< IT, decltype( s ), R - 1, CONSTH >( s, i + 1, k - 1, op ); }
}

static std::vector< __int128 > numbersIn( std::string const & t )
{
  std::vector< __int128 > r;
  for ( size_t i = 0; i < t.size(); )
  {
    if ( isdigit( static_cast< unsigned char >( t[i] ) ) )
    {
      bool const neg = i > 0 && t[i - 1] == '-';
      __int128 v = 0; int n = 0;
      while ( i < t.size() && isdigit( static_cast< unsigned char >( t[i] ) ) && ++n < 36 ) v = v * 10 + ( t[i++] - '0' );
      r.push_back( neg ? -v : v );
    }
    else ++i;
  }
  return r;
}

template< typename T, int... D > struct Store
{
  static constexpr int N = ( D * ... );
  T pre[64]; shiva::CArrayNd< T, D... > a; T post[64];
  T vpre[64]; T v[N]; T vpost[64];
  void reset() { for ( int i = 0; i < 64; ++i ) { pre[i] = post[i] = vpre[i] = vpost[i] = T( 7 ); } for ( int i = 0; i < N; ++i ) { a.data()[i] = T( 7 ); v[i] = T( 7 ); } }
  int changed() const
  {
    int c = 0;
    for ( int i = 0; i < 64; ++i ) c += ( pre[i] != T( 7 ) ) + ( post[i] != T( 7 ) ) + ( vpre[i] != T( 7 ) ) + ( vpost[i] != T( 7 ) );
    for ( int i = 0; i < N; ++i ) c += ( a.data()[i] != T( 7 ) ) + ( v[i] != T( 7 ) );
    return c;
  }
};

template< typename IT, typename T, int... D >
static void explore( Sh< D... > s, Store< T, D... > & st, int const flav, bool const all, bool const high = false )
{
  constexpr int R = sizeof...( D );
  int const dims[] = { D... };
  int const k = mc::choose( R + 1, "slices" );
  bool const constHandle = k > 0 && k < R ? mc::flip( "constSlice" ) : false;
  Op const op = mc::flip( "write" ) ? WRITE : READ;
  std::vector< std::vector< IT > > cand;
  for ( int d : dims )
    if ( high ) { cand.push_back( { 0 } ); for ( int x : { -1, d - 1, d, d + 5 } ) if ( x != 0 ) cand.back().push_back( static_cast< IT >( x ) ); }
    else cand.push_back( candidates< IT >( d ) );
  // all tuples (all == true) or all tuples with at most two coordinates away from the first and the last element
  std::vector< size_t > pos( R, 0 );
  static std::string text;
  for (;; )
  {
    IT idx[R]; int bad = 0, odd = 0;
    for ( int i = 0; i < R; ++i )
    {
      idx[i] = cand[static_cast< size_t >( i )][pos[static_cast< size_t >( i )]];
      auto const w = static_cast< __int128 >( idx[i] );
      if ( w < 0 || w >= dims[i] ) bad++;
      if ( w != 0 && w != dims[i] - 1 ) odd++;
    }
    if ( ( all || odd <= 2 ) && ( checked || bad == 0 ) )
    {
      auto run = [&] {
        switch ( flav )
        {
          case 0: if ( constHandle ) through< IT, decltype( st.a ), R, true >( st.a, idx, k, op ); else through< IT, decltype( st.a ), R, false >( st.a, idx, k, op ); break;
          case 1: { auto const & ca = st.a; through< IT, decltype( ca ), R, true >( ca, idx, k, op ); } break;
          case 2: { shiva::CArrayViewNd< T, D... > v( st.v ); if ( constHandle ) through< IT, decltype( v ), R, true >( v, idx, k, op ); else through< IT, decltype( v ), R, false >( v, idx, k, op ); } break;
          case 3: { shiva::CArrayViewNd< T, D... > const v( st.v ); through< IT, decltype( v ), R, true >( v, idx, k, op ); } break;
          default: { shiva::CArrayViewNd< T const, D... > v( st.v ); through< IT, decltype( v ), R, false >( v, idx, k, op ); } break;
        }
      };
      bool const died = mc::aborts( run, text );
      mc::step();
      auto where = [&]{
        mc::Str m; m << shapeName( s ) << " flavour " << flav << " type " << mc::typeName< IT >() << " k=" << k << ( op == WRITE ? " write (" : " read (" );
        for ( int i = 0; i < R; ++i ) m << ( i ? "," : "" ) << static_cast< long >( idx[i] );
        m << ")"; return std::string( m ); };
      if ( mc::tracing() && bad ) mc::note( where() + ( died ? " stopped" : " passed" ) );
      if ( bad )
      {
        mc::check( died, "not-stopped", [&]{ return where() + " is out of range and was not stopped"; } );
        if ( died )
        {
          auto const nums = numbersIn( text );
          bool named = false;
          for ( int i = 0; i < R; ++i )
          {
            auto const w = static_cast< __int128 >( idx[i] );
            if ( w >= 0 && w < dims[i] ) continue;
            bool hasI = false, hasD = false;
            for ( auto n : nums ) { if ( !hasI && ( n == w || n == static_cast< __int128 >( static_cast< intmax_t >( idx[i] ) ) ) ) hasI = true; else if ( n == dims[i] ) hasD = true; }
            named |= hasI && hasD;
          }
          mc::check( named, "diagnostic", [&]{ return where() + ": the diagnostic does not name the index and its extent: " + text; } );
        }
        if ( int const c = st.changed() )
        {
          mc::violation( "touched", where() + ": changed " + std::to_string( c ) + " element(s) although out of range" );
          st.reset();
        }
      }
      else
      {
        mc::check( !died, "stopped-in-range", [&]{ return where() + " is in range but was stopped: " + text; } );
        if ( op == WRITE ) st.reset();
      }
      mc::state( [&]{ uint64_t h = mc::hashString( shapeName( s ) ) + static_cast< uint64_t >( flav * 100 + k * 10 + op * 2 + constHandle ); for ( IT x : idx ) h = mc::mix( h, static_cast< uint64_t >( x ) ); return h; }() );
    }
    size_t i = R;
    while ( i > 0 && ++pos[i - 1] == cand[i - 1].size() ) pos[--i] = 0;
    if ( i == 0 ) break;
  }
}

// many dimensions: every dimension before, in and behind its range while the others stay in range, two of them in pairs
template< typename T, int... D >
static void caseHigh( Sh< D... > s )
{
  static Store< T, D... > st;
  st.reset();
  int const flav = mc::choose( 5, "flavour" );
  if ( mc::choose( 2, "indexType" ) ) explore< long, T, D... >( s, st, flav, false, true ); else explore< int, T, D... >( s, st, flav, false, true );
}

template< typename T, int... D >
static void caseShape( Sh< D... > s, bool all )
{
  static Store< T, D... > st;
  st.reset();
  int const flav = mc::choose( 5, "flavour" );
  switch ( mc::choose( 9, "indexType" ) )
  {
    case 0: explore< int >( s, st, flav, all ); break;
    case 1: explore< long >( s, st, flav, all ); break;
    case 2: explore< unsigned >( s, st, flav, all ); break;
    case 3: explore< unsigned long >( s, st, flav, all ); break;
    case 4: explore< short >( s, st, flav, all ); break;
    case 5: explore< unsigned char >( s, st, flav, all ); break;
    case 6: explore< signed char >( s, st, flav, all ); break;
    case 7: explore< unsigned short >( s, st, flav, all ); break;
    default: explore< long long >( s, st, flav, all ); break;
  }
}

// ---- constant evaluation --------------------------------------------------------------------------------------
// An access is a constant expression if and only if its indices are in range; asked with SFINAE for every tuple.
template< int... D > struct K
{
  template< int... V > static constexpr auto make( std::integer_sequence< int, V... > ) { return shiva::CArrayNd< int const, D... >{ V... }; }
  static constexpr int N = ( D * ... );
  static constexpr auto arr = make( std::make_integer_sequence< int, N >{} );
  static constexpr int R = sizeof...( D );
  template< typename IT, IT... I > static constexpr int get( std::integral_constant< int, 0 > ) { return arr( I... ); }
  template< typename IT, IT... I > static constexpr int get( std::integral_constant< int, 1 > )
  {
    constexpr IT i[] = { I... };
    if constexpr ( R == 1 ) return arr[i[0]];
    else if constexpr ( R == 2 ) return arr[i[0]][i[1]];
    else return arr[i[0]][i[1]][i[2]];
  }
  template< typename IT, IT... I > static constexpr int get( std::integral_constant< int, 2 > )
  {
    constexpr IT i[] = { I... };
    if constexpr ( R == 1 ) return arr( i[0] );
    else if constexpr ( R == 2 ) return arr[i[0]]( i[1] );
    else return arr[i[0]]( i[1], i[2] );
  }
  // writes to a mutable array inside a constant expression
  template< typename IT, IT... I > static constexpr int get( std::integral_constant< int, 3 > )
  {
    shiva::CArrayNd< int, D... > a{};
    a( I... ) = 5;
    return a( I... );
  }
  template< typename IT, int FORM, IT... I > static auto test( int ) -> std::integral_constant< int, ( get< IT, I... >( std::integral_constant< int, FORM >{} ), 1 ) >;
  template< typename IT, int FORM, IT... I > static std::integral_constant< int, 0 > test( long );
  template< typename IT, int FORM, IT... I > static constexpr bool accepted() { return decltype( test< IT, FORM, I... >( 0 ) )::value == 1; }

  static constexpr int M = R == 3 ? 1 : 2;     // how far below and above the box
  static constexpr int wid( int d ) { int const dd[] = { D... }; return dd[d] + 2 * M; }
  static constexpr int total() { return ( ( D + 2 * M ) * ... ); }
  static constexpr int coord( int l, int d ) { for ( int q = R - 1; q > d; --q ) l /= wid( q ); return l % wid( d ) - M; }
  static constexpr bool inside( int l ) { int const dd[] = { D... }; for ( int d = 0; d < R; ++d ) if ( coord( l, d ) < 0 || coord( l, d ) >= dd[d] ) return false; return true; }
  template< typename IT, int FORM, int L, size_t... Q > static constexpr bool one( std::index_sequence< Q... > )
  {
    if constexpr ( !checked && !inside( L ) ) return false;
    else return accepted< IT, FORM, static_cast< IT >( coord( L, Q ) )... >();
  }
  template< typename IT, int FORM, int... L > static void form( std::integer_sequence< int, L... > )
  {
    static constexpr bool ok[] = { one< IT, FORM, L >( std::make_index_sequence< R >{} )... };
    for ( int l = 0; l < total(); ++l )
    {
      mc::step();
      mc::state( mc::mix( mc::hashString( shapeName( Sh< D... >{} ) + mc::typeName< IT >() ), static_cast< uint64_t >( l * 10 + FORM ) ) );
      auto where = [&]{ mc::Str m; m << "constant evaluation of " << shapeName( Sh< D... >{} ) << " form " << FORM << " type " << mc::typeName< IT >() << " at"; for ( int d = 0; d < R; ++d ) m << " " << coord( l, d ); return std::string( m ); };
      if ( inside( l ) ) mc::check( ok[l], "const-rejected", [&]{ return where() + " is in range but not a constant expression"; } );
      else if ( checked ) mc::check( !ok[l], "const-accepted", [&]{ return where() + " is out of range but accepted as a constant expression"; } );
    }
  }
  static void all()
  {
    using Seq = std::make_integer_sequence< int, total() >;
    form< int, 0 >( Seq{} ); form< int, 1 >( Seq{} ); form< int, 2 >( Seq{} ); form< int, 3 >( Seq{} );
    form< long, 0 >( Seq{} ); form< short, 1 >( Seq{} );
  }
};

template< typename T, typename... S > static void add( mc::Cases & c, bool all, List< S... > ) { ( c.emplace_back( shapeName( S{} ), [=]{ caseShape< T >( S{}, all ); } ), ... ); }

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
#if PART == 0
    add< double >( c, true, List< Sh< 1 >, Sh< 3 >, Sh< 2, 3 >, Sh< 3, 2 > >{} );
#elif PART == 1
    add< float >( c, false, List< Sh< 2, 3, 4 >, Sh< 1, 2, 3 > >{} );
#elif PART == 2
    add< int >( c, false, List< Sh< 3, 1, 2 >, Sh< 4, 2, 2 > >{} );
    add< int >( c, true, List< Sh< 1, 4 >, Sh< 200 > >{} );
#elif PART == 3
    auto const high = [&]( auto sh ) { c.emplace_back( shapeName( sh ), [=]{ caseHigh< double >( sh ); } ); };
    high( Sh< 2, 3, 1, 2 >{} ); high( Sh< 2, 1, 3, 2, 2 >{} ); high( Sh< 2, 2, 1, 3, 2, 2 >{} ); high( Sh< 1, 2, 2, 1, 2, 1, 3 >{} ); high( Sh< 2, 1, 2, 1, 1, 2, 2, 2 >{} );
    if ( mc::thorough() ) add< double >( c, false, List< Sh< 2, 3, 1, 2 > >{} );
    c.emplace_back( "constexpr 4", []{ K< 4 >::all(); } );
    c.emplace_back( "constexpr 2x3", []{ K< 2, 3 >::all(); } );
    c.emplace_back( "constexpr 3x2", []{ K< 3, 2 >::all(); } );
    c.emplace_back( "constexpr 2x3x2", []{ K< 2, 3, 2 >::all(); } );
    c.emplace_back( "constexpr 3x1x2", []{ K< 3, 1, 2 >::all(); } );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
