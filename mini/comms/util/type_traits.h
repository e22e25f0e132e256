#pragma once
#include <cstdint>
#include <cstddef>
#include <type_traits>
namespace comms { namespace util {
template <std::size_t TSize, bool TSigned = false> struct SizeToType;
template <bool S> struct SizeToType<1, S> { using Type = std::conditional_t<S, std::int8_t, std::uint8_t>; };
template <bool S> struct SizeToType<2, S> { using Type = std::conditional_t<S, std::int16_t, std::uint16_t>; };
template <bool S> struct SizeToType<4, S> { using Type = std::conditional_t<S, std::int32_t, std::uint32_t>; };
template <bool S> struct SizeToType<8, S> { using Type = std::conditional_t<S, std::int64_t, std::uint64_t>; };
} }
