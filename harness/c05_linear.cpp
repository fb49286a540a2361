// C05: linearIndex is the row-major bijection of the index box, for every base type, at run time and compile time.
#include "mc/mc.hpp"
#include <limits>
#include "harness/shapes.hpp"
#include "shiva/common/IndexTypes.hpp"
#include <string>
#include <vector>
#ifndef PART
#define PART 0
#endif

template< typename B, B... R > static std::string name() { std::string s = std::string( mc::typeName< B >() ) + " ranges"; ( ( s += " " + std::to_string( static_cast< long >( R ) ) ), ... ); return s; }


// digits of l, row-major
template< typename B, B... R > struct Box
{
  using MI = shiva::MultiIndexRange< B, R... >;
  static constexpr int K = sizeof...( R );
  static constexpr long N = ( static_cast< long >( R ) * ... );
  static constexpr MI at( long l )
  {
    constexpr B r[] = { R... };
    MI m{};
    for ( int i = K - 1; i >= 0; --i ) { m.data[i] = static_cast< B >( l % static_cast< long >( r[i] ) ); l /= static_cast< long >( r[i] ); }
    return m;
  }
  template< size_t... L > static void ct( std::index_sequence< L... > )
  {
    static constexpr B got[] = { shiva::linearIndex( at( static_cast< long >( L ) ) )... };
    for ( long l = 0; l < N; ++l )
    {
      mc::step();
      mc::check( static_cast< long >( got[l] ) == l, "constexpr", [&]{ return std::string( mc::Str() << name< B, R... >() << ": constant evaluation gives " << static_cast< long >( got[l] ) << " for element " << l ); } );
    }
  }
  static void rt()
  {
    std::vector< char > seen( static_cast< size_t >( N ), 0 );
    mc::check( MI::NUM_INDICES == K, "rank", [&]{ return name< B, R... >(); } );
    constexpr B r[] = { R... };
    for ( int i = 0; i < K; ++i ) mc::check( MI::range( i ) == r[i] && MI::ranges[i] == r[i], "range", [&]{ return name< B, R... >(); } );
    MI m{};
    for ( int i = 0; i < K; ++i ) mc::check( m.data[i] == 0, "zero", [&]{ return name< B, R... >() + ": a fresh index is not zero"; } );
    static volatile long opaque = 0;
    for ( long l = 0; l < N; ++l )
    {
      MI mi = at( l + opaque );
      MI const before = mi;
      auto const got = shiva::linearIndex( mi );
      mc::step();
      auto where = [&]{ mc::Str s; s << name< B, R... >() << " index"; for ( int i = 0; i < K; ++i ) s << " " << static_cast< long >( before.data[i] ); return std::string( s ); };
      mc::check( static_cast< long >( got ) == l, "row-major", [&]{ return where() + " has linear index " + std::to_string( static_cast< long >( got ) ) + ", not " + std::to_string( l ); } );
      if ( static_cast< long >( got ) >= 0 && static_cast< long >( got ) < N ) seen[static_cast< size_t >( got )]++;
      for ( int i = 0; i < K; ++i ) mc::check( mi.data[i] == before.data[i], "modified", where );
      if ( mc::tracing() ) mc::note( where() + " -> " + std::to_string( static_cast< long >( got ) ) );
      mc::state( mc::mix( mc::hashString( name< B, R... >() ), static_cast< uint64_t >( l ) ) );
    }
    for ( long l = 0; l < N; ++l ) mc::check( seen[static_cast< size_t >( l )] == 1, "bijection", [&]{ return name< B, R... >() + ": element " + std::to_string( l ) + " is not reached exactly once"; } );
  }
};
template< typename B, int... D > static void addOne( mc::Cases & c, Sh< D... > )
{
  c.emplace_back( name< B, static_cast< B >( D )... >(), []{
    Box< B, static_cast< B >( D )... >::rt();
    if constexpr ( ( D * ... ) <= 300 ) Box< B, static_cast< B >( D )... >::ct( std::make_index_sequence< ( D * ... ) >{} );
  } );
}
template< typename B, typename... S > static void add( mc::Cases & c, List< S... > ) { ( addOne< B >( c, S{} ), ... ); }

// huge boxes: corners, their neighbours and a grid of interior indices
template< typename B, B... R > static void big()
{
  using MI = shiva::MultiIndexRange< B, R... >;
  constexpr int K = sizeof...( R );
  constexpr B r[] = { R... };
  MI m{};
  for ( int i = 0; i < K; ++i )
  {
    B const c[] = { 0, 1, static_cast< B >( r[i] / 2 ), static_cast< B >( r[i] - 2 ), static_cast< B >( r[i] - 1 ), 7 % r[i] };
    m.data[i] = c[mc::choose( 6, "coordinate" )];
  }
  __int128 w = 0;
  for ( int i = 0; i < K; ++i ) w = w * r[i] + m.data[i];
  auto const got = shiva::linearIndex( m );
  mc::step();
  mc::state( mc::mix( mc::hashString( name< B, R... >() ), static_cast< uint64_t >( w ) ) );
  mc::check( static_cast< __int128 >( got ) == w, "large", [&]{ mc::Str s; s << name< B, R... >() << " index"; for ( int i = 0; i < K; ++i ) s << " " << static_cast< long >( m.data[i] ); s << " has linear index " << static_cast< long >( got ) << ", not " << static_cast< long >( w ); return std::string( s ); } );
}
template< typename B, B... R > static void addBig( mc::Cases & c ) { c.emplace_back( "big " + name< B, R... >(), big< B, R... > ); }

template< typename T > static void plain()
{
  T const v[] = { 0, 1, 2, 17, std::numeric_limits< T >::max(), std::numeric_limits< T >::min(), static_cast< T >( -3 ) };
  T const x = v[mc::choose( 7, "value" )];
  mc::step();
  mc::check( shiva::linearIndex( x ) == x && sizeof( shiva::linearIndex( x ) ) == sizeof( T ), "plain", [&]{ return std::string( mc::Str() << "linearIndex of the plain " << mc::typeName< T >() << " " << x ); } );
  static_assert( shiva::linearIndex( T( 5 ) ) == T( 5 ) );
  mc::state( mc::mix( mc::hashString( mc::typeName< T >() ), static_cast< uint64_t >( x ) ) );
}

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
#if PART == 0
    add< int >( c, AllShapes< 5, 1 >::type{} ); add< int >( c, AllShapes< 5, 2 >::type{} ); add< int >( c, AllShapes< 4, 3 >::type{} );
    add< int >( c, List< Sh< 200 >, Sh< 13, 17 >, Sh< 50, 3, 40 >, Sh< 3, 40, 50 > >{} );
    c.emplace_back( "plain", plain< int > ); c.emplace_back( "plain", plain< long > ); c.emplace_back( "plain", plain< unsigned > ); c.emplace_back( "plain", plain< unsigned long > );
    c.emplace_back( "plain", plain< long long > ); c.emplace_back( "plain", plain< short > );
#elif PART == 1
    add< int >( c, AllShapes< 3, 4 >::type{} );
    add< int >( c, List< Sh< 2, 3, 4, 5, 6 >, Sh< 6, 5, 4, 3, 2 >, Sh< 1, 2, 1, 3, 1 >, Sh< 3, 1, 2, 1, 2 >, Sh< 2, 2, 2, 2, 2 >, Sh< 2, 1, 3, 1, 2, 2 >, Sh< 3, 2, 2, 1, 2, 3 >, Sh< 1, 2, 3, 4, 3, 2 > >{} );
    add< int >( c, List< Sh< 2, 3, 1, 2, 2, 3, 2 >, Sh< 3, 2, 2, 3, 1, 2, 4 >, Sh< 2, 2, 3, 1, 2, 2, 1, 3 >, Sh< 2, 1, 2, 3, 2, 2, 3, 2 >, Sh< 2, 1, 2, 1, 3, 1, 2, 1, 2 >, Sh< 1, 2, 1, 2, 1, 2, 1, 2, 1, 3 > >{} );
    addBig< int, 20, 20, 20, 20, 20, 20 >( c ); addBig< int, 10, 11, 12, 13, 14, 15, 5 >( c );
    addBig< int, 46340, 46340 >( c ); addBig< int, 1000, 1000, 2000 >( c ); addBig< int, 2, 1073741823 >( c ); addBig< int, 1073741823, 2 >( c ); addBig< int, 200, 200, 200, 200 >( c );
#elif PART == 2
    add< long >( c, AllShapes< 4, 2 >::type{} ); add< long >( c, AllShapes< 3, 3 >::type{} );
    add< unsigned long >( c, AllShapes< 4, 2 >::type{} ); add< unsigned long >( c, AllShapes< 3, 3 >::type{} );
    add< unsigned >( c, AllShapes< 3, 3 >::type{} );
    addBig< long, 100000, 100000 >( c ); addBig< long, 3, 1000000000, 1000000000 >( c ); addBig< long, 1000000000, 3, 1000000000 >( c ); addBig< long, 4294967296L, 1000, 5 >( c );
    addBig< long, 5, 4294967297L >( c ); addBig< unsigned long, 4000000000UL, 4000000000UL >( c ); addBig< unsigned long, 7, 100000, 10000000000UL >( c ); addBig< unsigned, 60000u, 60000u >( c );
    addBig< unsigned, 3, 1000000000u >( c ); addBig< long long, 1000, 1000, 1000, 1000, 1000 >( c );
#else
    add< short >( c, AllShapes< 4, 2 >::type{} ); add< short >( c, AllShapes< 3, 3 >::type{} ); add< unsigned short >( c, AllShapes< 3, 3 >::type{} );
    add< unsigned char >( c, AllShapes< 4, 2 >::type{} ); add< unsigned char >( c, AllShapes< 3, 3 >::type{} ); add< signed char >( c, AllShapes< 4, 2 >::type{} );
    add< unsigned char >( c, List< Sh< 15, 17 >, Sh< 3, 5, 17 >, Sh< 255 > >{} ); add< signed char >( c, List< Sh< 127 >, Sh< 9, 14 > >{} ); add< short >( c, List< Sh< 180, 182 >, Sh< 4, 8191 >, Sh< 8191, 4 > >{} );
    add< unsigned short >( c, List< Sh< 255, 257 >, Sh< 3, 5, 4369 > >{} );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
