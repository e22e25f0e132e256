#pragma once
#include "comms/impl/sequence.h"
namespace comms { namespace field {
template <typename TFieldBase, typename... TOpts>
class String : public vf::Sequence<TFieldBase, char, true, TOpts...>
{
    using CB = vf::Sequence<TFieldBase, char, true, TOpts...>;
public:
    using VfKind = vf::KindString;
    String() = default;
};
} }
