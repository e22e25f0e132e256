#pragma once
#include "comms/util/StringView.h"
namespace comms { namespace util {
template <typename T, typename TIter>
void assign(T& obj, TIter from, TIter to)
{
    if constexpr (std::is_pointer<TIter>::value && std::is_base_of<ArrayView<typename T::value_type>, T>::value) {
        obj = T(reinterpret_cast<const typename T::value_type*>(from), static_cast<std::size_t>(to - from));
    }
    else if constexpr (std::is_base_of<ArrayView<typename T::value_type>, T>::value) { obj = T(&*from, static_cast<std::size_t>(to - from)); }
    else { obj.assign(from, to); COMMS_ASSERT(obj.size() <= obj.max_size()); }
}
} }
