#pragma once
#include <tuple>
#include <utility>
namespace camp
{
template< typename... T > using tuple = std::tuple< T... >;
template< typename... T > constexpr auto make_tuple( T && ... t ) { return std::make_tuple( std::forward< T >( t )... ); }
using std::get;
}
