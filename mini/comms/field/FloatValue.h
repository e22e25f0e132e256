#pragma once
#include "comms/impl/fieldbase.h"
namespace comms { namespace field {
template <typename TFieldBase, typename T, typename... TOpts>
class FloatValue : public vf::Common<TFieldBase, TOpts...>
{
    using CB = vf::Common<TFieldBase, TOpts...>;
    static constexpr bool VfFixed = vf::has_v<option::vftag::FixedValue, typename CB::VfOpts>;
public:
    using VfKind = vf::KindFloat;
    using ValueType = T;
    using VfOpts = typename CB::VfOpts;
    FloatValue() { if constexpr (vf::has_v<option::vftag::DefNum, VfOpts>) { m_value = vf::find_t<option::vftag::DefNum, VfOpts>::template get<T>(); } }
    explicit FloatValue(T v) : m_value(v) {}
    template <typename U = T, typename = std::enable_if_t<!VfFixed && std::is_same<U, T>::value>>
    U& value() { return m_value; }
    const T& value() const { return m_value; }
    const T& getValue() const { return m_value; }
    template <typename U> void setValue(const U& v) { if constexpr (!VfFixed) { m_value = static_cast<T>(v); } }
    static constexpr std::size_t minLength() { return vf::has_v<option::vftag::EmptySer, VfOpts> || vf::has_v<option::vftag::AvailLimit, VfOpts> ? 0U : sizeof(T); }
    static constexpr std::size_t maxLength() { return vf::has_v<option::vftag::EmptySer, VfOpts> ? 0U : sizeof(T); }
    static constexpr std::size_t length() { return maxLength(); }
    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        if (maxLength() == 0U) { return CB::vfChecked(*this, ErrorStatus::Success); }
        if (len < sizeof(T)) { return ErrorStatus::NotEnoughData; }
        auto v = static_cast<U>(vf::getBytes(sizeof(T), CB::vfBigEndian(), iter));
        std::memcpy(&m_value, &v, sizeof(T));
        return CB::vfChecked(*this, ErrorStatus::Success);
    }
    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if (maxLength() == 0U) { return ErrorStatus::Success; }
        if (len < sizeof(T)) { return ErrorStatus::BufferOverflow; }
        U v; std::memcpy(&v, &m_value, sizeof(T));
        vf::putBytes(v, sizeof(T), CB::vfBigEndian(), iter);
        return ErrorStatus::Success;
    }
    bool valid() const { return !vf::has_v<option::vftag::InvalidByDefault, VfOpts>; }
    bool refresh() { return false; }
    static constexpr bool canWrite() { return true; }
private:
    using U = std::conditional_t<sizeof(T) == 4U, std::uint32_t, std::uint64_t>;
    T m_value = static_cast<T>(0);
};
} }
