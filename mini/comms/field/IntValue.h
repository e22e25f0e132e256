#pragma once
#include "comms/impl/fieldbase.h"
namespace comms { namespace field {
template <typename TFieldBase, typename T, typename... TOpts>
class IntValue : public vf::Number<TFieldBase, T, TOpts...>
{
    using CB = vf::Number<TFieldBase, T, TOpts...>;
public:
    using VfKind = vf::KindInt;
    using CB::CB;
    IntValue() = default;
};
} }
