/* Minimal stand-in for the part of camp that LvArray uses. */
#pragma once
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>

namespace camp
{
using idx_t = std::ptrdiff_t;

template< typename T, T... VALS >
struct int_seq
{
  using type = int_seq;
  static constexpr idx_t size = sizeof...( VALS );
};

template< idx_t... I >
using idx_seq = int_seq< idx_t, I... >;

template< idx_t I >
struct num { static constexpr idx_t value = I; };

namespace detail
{
template< idx_t N, idx_t... I >
struct make_seq : make_seq< N - 1, N - 1, I... > {};
template< idx_t... I >
struct make_seq< 0, I... > { using type = idx_seq< I... >; };

template< idx_t N, typename SEQ >
struct seq_at_impl;
template< idx_t N, idx_t F, idx_t... R >
struct seq_at_impl< N, idx_seq< F, R... > > : seq_at_impl< N - 1, idx_seq< R... > > {};
template< idx_t F, idx_t... R >
struct seq_at_impl< 0, idx_seq< F, R... > > { static constexpr idx_t value = F; };
}

template< idx_t N >
using make_idx_seq_t = typename detail::make_seq< N >::type;
template< idx_t N >
struct make_idx_seq { using type = make_idx_seq_t< N >; };

template< idx_t N, typename SEQ >
using seq_at = detail::seq_at_impl< N, SEQ >;

namespace concepts
{
namespace metalib
{
template< bool... > struct bool_list {};
template< bool... B >
using all_of = std::is_same< bool_list< true, B... >, bool_list< B..., true > >;
template< typename... T >
using all_of_t = all_of< T::value... >;
}
}

template< typename... T >
using tuple = std::tuple< T... >;

template< typename... T >
constexpr std::tuple< std::decay_t< T >... > make_tuple( T && ... t )
{ return std::tuple< std::decay_t< T >... >( std::forward< T >( t )... ); }

template< std::size_t I, typename TUPLE >
constexpr decltype( auto ) get( TUPLE && t )
{ return std::get< I >( std::forward< TUPLE >( t ) ); }

template< typename... T >
struct list {};
} // namespace camp
