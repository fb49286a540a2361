// Lists of array shapes as types, split by PART so that they compile in parallel.
#pragma once
#include <utility>

template< int... D > using Sh = std::integer_sequence< int, D... >;
template< typename... S > struct List { static constexpr int size = sizeof...( S ); };

template< typename... > struct Cat;
template< typename... A > struct Cat< List< A... > > { using type = List< A... >; };
template< typename... A, typename... B, typename... R > struct Cat< List< A... >, List< B... >, R... > { using type = typename Cat< List< A..., B... >, R... >::type; };

// All shapes of rank R with extents 1..M
template< int M, int R, int... D > struct AllShapes
{
  template< int... E > static auto make( std::integer_sequence< int, E... > ) -> typename Cat< List<>, typename AllShapes< M, R - 1, D..., E + 1 >::type... >::type;
  using type = decltype( make( std::make_integer_sequence< int, M >{} ) );
};
template< int M, int... D > struct AllShapes< M, 0, D... > { using type = List< Sh< D... > >; };

template< int... D > constexpr int prod( Sh< D... > ) { return ( D * ... * 1 ); }
template< int... D > constexpr int rankOf( Sh< D... > ) { return sizeof...( D ); }
template< int... D > constexpr int dimAt( Sh< D... >, int i ) { int const d[] = { D... }; return d[i]; }
// row-major digits of l
template< int... D > constexpr int digitOf( Sh< D... >, int l, int i )
{
  int const d[] = { D... };
  for ( int k = static_cast< int >( sizeof...( D ) ) - 1; k > i; --k ) l /= d[k];
  return l % d[i];
}
