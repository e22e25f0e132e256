#pragma once
#include "comms/impl/sequence.h"
namespace comms { namespace field {
template <typename TFieldBase, typename TElem, typename... TOpts>
class ArrayList : public vf::Sequence<TFieldBase, TElem, false, TOpts...>
{
    using CB = vf::Sequence<TFieldBase, TElem, false, TOpts...>;
public:
    using VfKind = vf::KindList;
    ArrayList() = default;
};
} }
