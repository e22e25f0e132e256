// Shared machinery of the miniature COMMS library used to execute generated code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cassert>
#include <cmath>
#include <cstring>
#include <algorithm>
#include <array>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "comms/ErrorStatus.h"
#include "comms/Assert.h"
#include "comms/CompileControl.h"

namespace comms
{

namespace vf
{

template <typename T> struct identity { using type = T; };

inline std::vector<std::string> splitNames(const char* s)
{
    std::vector<std::string> r;
    std::string cur;
    for (; *s; ++s) {
        if (*s == ',') { r.push_back(cur); cur.clear(); }
        else if ((*s != ' ') && (*s != '\n')) { cur += *s; }
    }
    if (!cur.empty()) { r.push_back(cur); }
    return r;
}

// ---- lists of options
template <typename... T> struct List {};
template <typename A, typename B> struct Cat;
template <typename... A, typename... B> struct Cat<List<A...>, List<B...>> { using type = List<A..., B...>; };
template <typename... T> struct Flat { using type = List<>; };
template <typename T, typename... R> struct Flat<T, R...> { using type = typename Cat<List<T>, typename Flat<R...>::type>::type; };
template <typename... T, typename... R> struct Flat<std::tuple<T...>, R...> { using type = typename Cat<typename Flat<T...>::type, typename Flat<R...>::type>::type; };

template <template <typename> class Pred, typename L> struct First { using type = void; };
template <template <typename> class Pred, typename T, typename... R>
struct First<Pred, List<T, R...>> { using type = std::conditional_t<Pred<T>::value, T, typename First<Pred, List<R...>>::type>; };

template <typename Tag, typename L> struct Find { using type = void; };
template <typename T, typename = void> struct TagOf { using type = void; };
template <typename T> struct TagOf<T, std::void_t<typename T::VfTag>> { using type = typename T::VfTag; };
template <typename Tag, typename T, typename... R>
struct Find<Tag, List<T, R...>>
{
    using type = typename std::conditional_t<std::is_same<typename TagOf<T>::type, Tag>::value, identity<T>, Find<Tag, List<R...>>>::type;
};
template <typename Tag, typename L> using find_t = typename Find<Tag, L>::type;
template <typename Tag, typename L> constexpr bool has_v = !std::is_void<find_t<Tag, L>>::value;
template <typename T> struct isList : std::false_type {};
template <typename... T> struct isList<std::tuple<T...>> : std::true_type {};

// every option has to be known
template <typename L> struct AllKnown;
template <typename... T> struct AllKnown<List<T...>> { static constexpr bool value = (true && ... && !std::is_void<typename TagOf<T>::type>::value); };

// calls f.operator()<Option>() for all options of the tag
template <typename Tag, typename F, typename... T>
void eachOpt(List<T...>, F&& f)
{
    auto one = [&f](auto* p) {
        using O = std::remove_pointer_t<decltype(p)>;
        if constexpr (std::is_same<typename TagOf<O>::type, Tag>::value) { f(p); }
    };
    (one(static_cast<T*>(nullptr)), ...);
    (void)one;
}

template <std::size_t N> struct UIntOf { using type = std::uint64_t; };
template <> struct UIntOf<1> { using type = std::uint8_t; };
template <> struct UIntOf<2> { using type = std::uint16_t; };
template <> struct UIntOf<3> { using type = std::uint32_t; };
template <> struct UIntOf<4> { using type = std::uint32_t; };

constexpr std::uint64_t maskBits(std::size_t n) { return n >= 64U ? ~std::uint64_t(0) : ((std::uint64_t(1) << n) - 1U); }

template <typename TIter>
void putBytes(std::uint64_t v, std::size_t len, bool big, TIter& iter)
{
    for (std::size_t i = 0; i < len; ++i) {
        auto sh = 8U * (big ? (len - 1U - i) : i);
        *iter = static_cast<std::uint8_t>(v >> sh);
        ++iter;
    }
}

template <typename TIter>
std::uint64_t getBytes(std::size_t len, bool big, TIter& iter)
{
    std::uint64_t v = 0;
    for (std::size_t i = 0; i < len; ++i) {
        auto b = static_cast<std::uint8_t>(*iter);
        ++iter;
        if (big) { v = (v << 8U) | b; }
        else { v |= static_cast<std::uint64_t>(b) << (8U * i); }
    }
    return v;
}

inline std::uint64_t signExtend(std::uint64_t v, std::size_t bits)
{
    if (bits >= 64U) { return v; }
    v &= maskBits(bits);
    return ((v >> (bits - 1U)) & 1U) ? (v | ~maskBits(bits)) : v;
}

constexpr std::size_t MaxLen = std::numeric_limits<std::size_t>::max();
constexpr std::size_t addLen(std::size_t a, std::size_t b) { return (a == MaxLen || b == MaxLen || (MaxLen - a) <= b) ? MaxLen : a + b; }
constexpr std::size_t mulLen(std::size_t a, std::size_t b) { return (a == 0 || b == 0) ? 0 : ((a == MaxLen || b == MaxLen || (MaxLen / a) <= b) ? MaxLen : a * b); }

} // namespace vf

namespace util { template <typename T, typename U> T cast(U v) { return static_cast<T>(v); } }

} // namespace comms
#include "comms/impl/names.h"
