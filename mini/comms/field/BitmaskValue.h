#pragma once
#include "comms/impl/fieldbase.h"
namespace comms { namespace field {
namespace vfset
{
template <typename L> constexpr std::size_t len()
{
    namespace t = option::vftag;
    if constexpr (vf::has_v<t::FixedBitLength, L>) { return (vf::find_t<t::FixedBitLength, L>::value + 7U) / 8U; }
    else if constexpr (vf::has_v<t::FixedLength, L>) { return vf::find_t<t::FixedLength, L>::value; }
    else { return sizeof(unsigned); }
}
}
template <typename TFieldBase, typename... TOpts>
class BitmaskValue : public vf::Number<TFieldBase, typename vf::UIntOf<vfset::len<typename vf::Flat<TOpts...>::type>()>::type, TOpts...>
{
    using CB = vf::Number<TFieldBase, typename vf::UIntOf<vfset::len<typename vf::Flat<TOpts...>::type>()>::type, TOpts...>;
public:
    using VfKind = vf::KindSet;
    using ValueType = typename CB::ValueType;
    using CB::CB;
    BitmaskValue() = default;
    bool getBitValue(unsigned idx) const { return ((CB::value() >> idx) & 1U) != 0U; }
    void setBitValue(unsigned idx, bool v)
    {
        auto m = static_cast<ValueType>(static_cast<ValueType>(1U) << idx);
        CB::setValue(static_cast<ValueType>(v ? (CB::value() | m) : (CB::value() & static_cast<ValueType>(~m))));
    }
    bool hasAllBitsSet(ValueType m) const { return (CB::value() & m) == m; }
    bool checkAllBits(ValueType m) const { return hasAllBitsSet(m); }
    bool hasAnyBitsSet(ValueType m) const { return (CB::value() & m) != 0; }
    void setBits(ValueType m) { CB::setValue(static_cast<ValueType>(CB::value() | m)); }
    void clearBits(ValueType m) { CB::setValue(static_cast<ValueType>(CB::value() & static_cast<ValueType>(~m))); }
    bool valid() const
    {
        using R = vf::find_t<option::vftag::ReservedBits, typename CB::VfOpts>;
        if (!CB::valid()) { return false; }
        if constexpr (!std::is_void<R>::value) { return (static_cast<std::uintmax_t>(CB::value()) & R::mask) == R::bits; }
        return true;
    }
    template <typename TIter>
    ErrorStatus read(TIter& iter, std::size_t len)
    {
        auto es = CB::read(iter, len);
        return CB::vfChecked(*this, es);
    }
};
} }
