#pragma once
#include "comms/impl/fieldbase.h"
namespace comms { namespace field {
template <typename TFieldBase, typename TMembers, typename... TOpts>
class Bitfield : public vf::Common<TFieldBase, TOpts...>
{
    using CB = vf::Common<TFieldBase, TOpts...>;
    static constexpr std::size_t N = std::tuple_size<TMembers>::value;
    template <std::size_t... I> static constexpr std::size_t total(std::index_sequence<I...>) { return (std::size_t(0) + ... + std::tuple_element_t<I, TMembers>::vfBitLen()); }
public:
    using VfKind = vf::KindBitfield;
    using ValueType = TMembers;
    using Members = TMembers;
    using VfOpts = typename CB::VfOpts;
    static constexpr std::size_t VfBits = total(std::make_index_sequence<N>());
    static_assert(VfBits % 8U == 0U, "bits of a bitfield");
    ValueType& value() { return m_value; }
    const ValueType& value() const { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <typename U> void setValue(U&& v) { vf::copyMembers(m_value, std::forward<U>(v)); }
    static constexpr std::size_t minLength() { return VfBits / 8U; }
    static constexpr std::size_t maxLength() { return VfBits / 8U; }
    static constexpr std::size_t length() { return VfBits / 8U; }
    template <std::size_t TIdx> static constexpr std::size_t memberBitLength() { return std::tuple_element_t<TIdx, TMembers>::vfBitLen(); }
    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        if (len < length()) { return ErrorStatus::NotEnoughData; }
        auto v = vf::getBytes(length(), CB::vfBigEndian(), iter);
        auto es = ErrorStatus::Success;
        std::size_t pos = 0;
        vf::forAll(m_value, [&](auto& f, auto) {
            using F = std::decay_t<decltype(f)>;
            auto bits = (v >> pos) & vf::maskBits(F::vfBitLen());
            pos += F::vfBitLen();
            if (es != ErrorStatus::Success) { return; }
            std::uint8_t buf[8];
            auto* w = &buf[0];
            vf::putBytes(bits, F::maxLength(), F::vfBigEndian(), w);
            const std::uint8_t* r = &buf[0];
            es = f.read(r, F::maxLength());
        });
        return CB::vfChecked(*this, es);
    }
    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if (len < length()) { return ErrorStatus::BufferOverflow; }
        std::uint64_t v = 0;
        auto es = ErrorStatus::Success;
        std::size_t pos = 0;
        vf::forAll(m_value, [&](auto& f, auto) {
            using F = std::decay_t<decltype(f)>;
            std::uint8_t buf[8];
            auto* w = &buf[0];
            auto e = f.write(w, F::maxLength());
            if (e != ErrorStatus::Success) { es = e; return; }
            const std::uint8_t* r = &buf[0];
            v |= (vf::getBytes(F::maxLength(), F::vfBigEndian(), r) & vf::maskBits(F::vfBitLen())) << pos;
            pos += F::vfBitLen();
        });
        if (es == ErrorStatus::Success) { vf::putBytes(v, length(), CB::vfBigEndian(), iter); }
        return es;
    }
    bool valid() const { bool r = true; vf::forAll(m_value, [&r](auto& f, auto) { r = f.valid() && r; }); return r; }
    bool refresh() { bool r = false; vf::forAll(m_value, [&r](auto& f, auto) { r = f.refresh() || r; }); return r; }
    bool canWrite() const { return true; }
    static constexpr bool isVersionDependent()
    {
        if constexpr (vf::has_v<option::vftag::VerDep, VfOpts>) { return CB::isVersionDependent(); }
        else { return vf::AnyVerDep<TMembers>::value; }
    }
    static constexpr bool vfRealVersionDependent() { return vf::AnyVerDep<TMembers>::value; }
    bool setVersion(unsigned v)
    {
        bool r = CB::setVersion(v);
        vf::forAll(m_value, [&r, v](auto& f, auto) { r = f.setVersion(v) || r; });
        return r;
    }
private:
    TMembers m_value;
};
} }
