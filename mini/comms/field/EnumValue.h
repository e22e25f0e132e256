#pragma once
#include "comms/impl/fieldbase.h"
namespace comms { namespace field {
template <typename TFieldBase, typename T, typename... TOpts>
class EnumValue : public vf::Number<TFieldBase, T, TOpts...>
{
    using CB = vf::Number<TFieldBase, T, TOpts...>;
public:
    using VfKind = vf::KindEnum;
    using CB::CB;
    EnumValue() = default;
};
} }
