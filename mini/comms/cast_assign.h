#pragma once
#include <type_traits>
#include <utility>
namespace comms
{
namespace vf
{
template <typename T> struct CastAssign
{
    T& m_v;
    template <typename U> CastAssign& operator=(U&& u)
    {
        if constexpr (std::is_arithmetic<T>::value || std::is_enum<T>::value) { m_v = static_cast<T>(u); }
        else if constexpr (std::is_assignable<T&, U>::value) { m_v = std::forward<U>(u); }
        else { m_v = T(u.begin(), u.end()); }
        return *this;
    }
};
}
template <typename T> vf::CastAssign<T> cast_assign(T& v) { return vf::CastAssign<T>{v}; }
}
