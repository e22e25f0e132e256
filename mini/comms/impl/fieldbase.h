#pragma once
#include "comms/Field.h"
#include "comms/cast_assign.h"
namespace comms
{
namespace vf
{
namespace t = option::vftag;

struct KindInt {}; struct KindEnum {}; struct KindSet {}; struct KindFloat {}; struct KindBitfield {}; struct KindBundle {};
struct KindString {}; struct KindList {}; struct KindOptional {}; struct KindVariant {};

struct FieldTag {};
// Behaviour common to all the fields except Optional.
template <typename TFieldBase, typename... TOpts>
class Common : public TFieldBase, public FieldTag
{
public:
    using FieldBase = TFieldBase;
    using VfOpts = typename Flat<TOpts...>::type;
    static_assert(AllKnown<VfOpts>::value, "unknown field option");
    using VersionType = unsigned;

    static constexpr bool vfBigEndian()
    {
        if constexpr (has_v<t::Endian, VfOpts>) { return find_t<t::Endian, VfOpts>::big; }
        else { return TFieldBase::vfBig(); }
    }

    static constexpr bool VfVerStored = has_v<t::VersionStorage, VfOpts> || has_v<t::VerDep, VfOpts>;
    VersionType getVersion() const { static_assert(VfVerStored, "version is not stored"); return m_version; }
    bool setVersion(VersionType v)
    {
        if constexpr (VfVerStored) { bool r = (m_version != v); m_version = v; return r; }
        else { (void)v; return false; }
    }
    static constexpr bool isVersionDependent()
    {
        if constexpr (has_v<t::VerDep, VfOpts>) { return find_t<t::VerDep, VfOpts>::value; }
        else { return has_v<t::CustomVersionUpdate, VfOpts> || has_v<t::VersionStorage, VfOpts>; }
    }
    static constexpr bool vfStoresVersion() { return has_v<t::VersionStorage, VfOpts>; }
    static constexpr bool hasFixedValue() { return has_v<t::FixedValue, VfOpts>; }
    static constexpr bool vfHas(const char*) { return false; }

    template <typename TSelf>
    static bool vfValid(const TSelf& self)
    {
        using F = find_t<t::FieldType, VfOpts>;
        if constexpr (std::is_void<F>::value) { return self.valid(); }
        else { return static_cast<const typename F::Type&>(self).valid(); }
    }

    template <typename TSelf>
    static ErrorStatus vfChecked(TSelf& self, ErrorStatus es)
    {
        using F = find_t<t::FailOnInvalid, VfOpts>;
        if constexpr (!std::is_void<F>::value) {
            if ((es == ErrorStatus::Success) && (!vfValid(self))) { return F::status; }
        }
        return es;
    }

private:
    struct Stored { VersionType v = 0U; };
    VersionType m_version = 0U;
};

// Numbers: int, enum
template <typename TFieldBase, typename T, typename... TOpts>
class Number : public Common<TFieldBase, TOpts...>
{
    using CB = Common<TFieldBase, TOpts...>;
public:
    using ValueType = T;
    using VfOpts = typename CB::VfOpts;
    using VfInt = typename std::conditional_t<std::is_enum<T>::value, std::underlying_type<T>, identity<T>>::type;
    static constexpr bool VfSigned = std::is_signed<VfInt>::value;
    static constexpr bool VfVar = has_v<t::VarLength, VfOpts>;
    static constexpr bool VfAvail = has_v<t::AvailLimit, VfOpts>;
    static constexpr bool VfEmpty = has_v<t::EmptySer, VfOpts>;
    static constexpr bool VfFixed = has_v<t::FixedValue, VfOpts>;

    static constexpr std::size_t vfBitLen()
    {
        if constexpr (has_v<t::FixedBitLength, VfOpts>) { return find_t<t::FixedBitLength, VfOpts>::value; }
        else { return maxLength() * 8U; }
    }
    static constexpr bool vfSignExt()
    {
        if constexpr (has_v<t::FixedBitLength, VfOpts>) { return find_t<t::FixedBitLength, VfOpts>::signExt; }
        else if constexpr (has_v<t::FixedLength, VfOpts>) { return find_t<t::FixedLength, VfOpts>::signExt; }
        else { return true; }
    }
    static constexpr std::size_t minLength()
    {
        if constexpr (VfEmpty) { return 0U; }
        else if constexpr (has_v<t::AvailLimit, VfOpts>) { return 1U; }
        else if constexpr (VfVar) { return find_t<t::VarLength, VfOpts>::min; }
        else { return vfLen(); }
    }
    static constexpr std::size_t maxLength()
    {
        if constexpr (VfEmpty) { return 0U; }
        else if constexpr (VfVar) { return find_t<t::VarLength, VfOpts>::max; }
        else { return vfLen(); }
    }

    Number() { m_value = vfDefault(); }
    explicit Number(const T& v) : m_value(v) {}

    const T& value() const { return m_value; }
    template <typename U = T, typename = std::enable_if_t<!VfFixed && std::is_same<U, T>::value>>
    U& value() { return m_value; }
    const T& getValue() const { return m_value; }
    template <typename U> void setValue(const U& v) { if constexpr (!VfFixed) { m_value = static_cast<T>(v); } }
    void vfForce(T v) { m_value = v; }

    static T vfDefault()
    {
        if constexpr (has_v<t::DefNum, VfOpts>) { return static_cast<T>(find_t<t::DefNum, VfOpts>::template get<VfInt>()); }
        else { return static_cast<T>(0); }
    }

    std::uint64_t vfSer() const
    {
        auto u = static_cast<std::uint64_t>(static_cast<VfInt>(m_value));
        return u + vfOffset();
    }
    void vfSetSer(std::uint64_t v) { m_value = static_cast<T>(static_cast<VfInt>(v - vfOffset())); }
    static constexpr std::uint64_t vfOffset()
    {
        if constexpr (has_v<t::SerOffset, VfOpts>) { return static_cast<std::uint64_t>(find_t<t::SerOffset, VfOpts>::value); }
        else { return 0U; }
    }

    std::size_t length() const
    {
        if constexpr (VfEmpty) { return 0U; }
        else if constexpr (VfVar) { std::uint8_t b[16]; return vfEncode(b); }
        else if constexpr (VfAvail) { return m_forced.v; }
        else { return maxLength(); }
    }
    void setForcedLength(std::size_t l) { if constexpr (VfAvail) { m_forced.v = std::min(l, maxLength()); } else { (void)l; } }

    template <typename TIter>
    ErrorStatus read(TIter& iter, std::size_t len)
    {
        if constexpr (VfEmpty) { return CB::vfChecked(*this, ErrorStatus::Success); }
        else if constexpr (VfVar) {
            std::uint64_t v = 0;
            std::size_t n = 0;
            std::uint8_t b = 0;
            auto p = iter;
            do {
                if (len <= n) { return ErrorStatus::NotEnoughData; }
                if (maxLength() <= n) { return ErrorStatus::ProtocolError; }
                b = static_cast<std::uint8_t>(*p);
                ++p;
                if (CB::vfBigEndian()) { v = (v << 7U) | (b & 0x7fU); }
                else { v |= (7U * n < 64U) ? (static_cast<std::uint64_t>(b & 0x7fU) << (7U * n)) : 0U; }
                ++n;
            } while ((b & 0x80U) != 0U);
            if (n < minLength()) { return ErrorStatus::ProtocolError; }
            if (VfSigned) { v = signExtend(v, 7U * n); }
            vfSetSer(v);
            iter = p;
        }
        else {
            auto l = vfLen();
            if constexpr (has_v<t::AvailLimit, VfOpts>) { l = std::min(l, std::max<std::size_t>(len, 1U)); }
            if (len < l) { return ErrorStatus::NotEnoughData; }
            vfFrom(getBytes(l, CB::vfBigEndian(), iter), l);
            if constexpr (VfAvail) { m_forced.v = l; }
        }
        return CB::vfChecked(*this, ErrorStatus::Success);
    }
    template <typename TIter> void readNoStatus(TIter& iter) { read(iter, MaxLen); }
    template <typename TIter> void writeNoStatus(TIter& iter) const { write(iter, MaxLen); }

    template <typename TIter>
    ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if constexpr (VfEmpty) { return ErrorStatus::Success; }
        else if constexpr (VfVar) {
            std::uint8_t b[16];
            auto n = vfEncode(b);
            if (len < n) { return ErrorStatus::BufferOverflow; }
            for (std::size_t i = 0; i < n; ++i) { *iter = b[i]; ++iter; }
        }
        else {
            auto l = length();
            if (len < l) { return ErrorStatus::BufferOverflow; }
            auto bits = (l == vfLen()) ? vfBitLenRaw() : l * 8U;
            putBytes(vfSer() & maskBits(std::min<std::size_t>(64U, bits)), l, CB::vfBigEndian(), iter);
        }
        return ErrorStatus::Success;
    }

    bool valid() const
    {
        bool any = false, ok = false;
        eachOpt<t::ValidNum>(VfOpts(), [&](auto* p) { any = true; ok = ok || std::remove_pointer_t<decltype(p)>::template in<VfInt>(static_cast<VfInt>(m_value)); });
        if (has_v<t::InvalidByDefault, VfOpts>) { return ok; }
        return !any || ok;
    }
    bool refresh() { return false; }
    static constexpr bool canWrite() { return true; }

    template <typename TRet> TRet getScaled() const { return static_cast<TRet>(static_cast<TRet>(static_cast<VfInt>(m_value)) * static_cast<TRet>(vfNum()) / static_cast<TRet>(vfDen())); }
    template <typename TRet> TRet scaleAs() const { return getScaled<TRet>(); }
    template <typename TV> void setScaled(TV v) { m_value = static_cast<T>(std::llround(static_cast<double>(v) * vfDen() / vfNum())); }
    static constexpr std::intmax_t vfNum() { if constexpr (has_v<t::Scaling, VfOpts>) { return find_t<t::Scaling, VfOpts>::num; } else { return 1; } }
    static constexpr std::intmax_t vfDen() { if constexpr (has_v<t::Scaling, VfOpts>) { return find_t<t::Scaling, VfOpts>::den; } else { return 1; } }
    const T& getDisplayValue_() const { return m_value; }
    static constexpr std::intmax_t displayOffset() { if constexpr (has_v<t::DispOffset, VfOpts>) { return find_t<t::DispOffset, VfOpts>::value; } else { return 0; } }
    T getDisplayValue() const { return static_cast<T>(static_cast<VfInt>(m_value) + static_cast<VfInt>(displayOffset())); }
    void setDisplayValue(T v) { setValue(static_cast<T>(static_cast<VfInt>(v) - static_cast<VfInt>(displayOffset()))); }

    void vfFrom(std::uint64_t v, std::size_t l)
    {
        auto bits = (l == vfLen()) ? vfBitLenRaw() : l * 8U;
        if (VfSigned && vfSignExt()) { v = signExtend(v, bits); }
        else { v &= maskBits(bits); }
        vfSetSer(v);
    }

private:
    static constexpr std::size_t vfLen()
    {
        if constexpr (has_v<t::FixedBitLength, VfOpts>) { return (find_t<t::FixedBitLength, VfOpts>::value + 7U) / 8U; }
        else if constexpr (has_v<t::FixedLength, VfOpts>) { return find_t<t::FixedLength, VfOpts>::value; }
        else { return sizeof(T); }
    }
    static constexpr std::size_t vfBitLenRaw()
    {
        if constexpr (has_v<t::FixedBitLength, VfOpts>) { return find_t<t::FixedBitLength, VfOpts>::value; }
        else { return vfLen() * 8U; }
    }

    std::size_t vfEncode(std::uint8_t* b) const
    {
        auto v = vfSer();
        std::size_t n = 0;
        constexpr std::size_t mn = find_t<t::VarLength, VfOpts>::min, mx = find_t<t::VarLength, VfOpts>::max;
        while (n < mx) {
            std::uint8_t x = v & 0x7fU;
            b[n++] = x;
            bool last = false;
            if (VfSigned) {
                v = static_cast<std::uint64_t>(static_cast<std::int64_t>(v) >> 7);
                last = ((v == 0U) && !(x & 0x40U)) || ((v == ~std::uint64_t(0)) && (x & 0x40U));
            }
            else {
                v >>= 7U;
                last = (v == 0U);
            }
            if (last && (mn <= n)) { break; }
        }
        if (CB::vfBigEndian()) { std::reverse(b, b + n); }
        for (std::size_t i = 0; i + 1U < n; ++i) { b[i] |= 0x80U; }
        return n;
    }

    struct Forced { std::size_t v = vfLen(); };
    struct NoForced {};
    T m_value;
    std::conditional_t<VfAvail, Forced, NoForced> m_forced;
};

// tuple helpers
template <std::size_t I, std::size_t E, typename TTuple, typename F>
void forRange(TTuple& tup, F&& f)
{
    if constexpr (I < E) { f(std::get<I>(tup), std::integral_constant<std::size_t, I>()); forRange<I + 1U, E>(tup, std::forward<F>(f)); }
}
template <typename TTuple, typename F>
void forAll(TTuple& tup, F&& f) { forRange<0, std::tuple_size<std::remove_const_t<TTuple>>::value>(tup, std::forward<F>(f)); }

template <std::size_t I, std::size_t E, typename TTuple, typename TIter>
ErrorStatus readRange(TTuple& tup, TIter& iter, std::size_t& len)
{
    if constexpr (I < E) {
        auto from = iter;
        auto es = std::get<I>(tup).read(iter, len);
        if (es != ErrorStatus::Success) { return es; }
        len -= static_cast<std::size_t>(std::distance(from, iter));
        return readRange<I + 1U, E>(tup, iter, len);
    }
    else { return ErrorStatus::Success; }
}
template <std::size_t I, std::size_t E, typename TTuple, typename TIter>
ErrorStatus writeRange(const TTuple& tup, TIter& iter, std::size_t& len)
{
    if constexpr (I < E) {
        auto l = std::get<I>(tup).length();
        auto es = std::get<I>(tup).write(iter, len);
        if (es != ErrorStatus::Success) { return es; }
        len -= l;
        return writeRange<I + 1U, E>(tup, iter, len);
    }
    else { return ErrorStatus::Success; }
}
template <std::size_t I, std::size_t E, typename TTuple>
constexpr std::size_t minRange() { if constexpr (I < E) { return addLen(std::tuple_element_t<I, TTuple>::minLength(), minRange<I + 1U, E, TTuple>()); } else { return 0U; } }
template <std::size_t I, std::size_t E, typename TTuple>
constexpr std::size_t maxRange() { if constexpr (I < E) { return addLen(std::tuple_element_t<I, TTuple>::maxLength(), maxRange<I + 1U, E, TTuple>()); } else { return 0U; } }
template <std::size_t I, std::size_t E, typename TTuple>
std::size_t lenRange(const TTuple& tup) { if constexpr (I < E) { return std::get<I>(tup).length() + lenRange<I + 1U, E>(tup); } else { return 0U; } }
template <typename TTuple> struct AnyVerDep;
template <typename... T> struct AnyVerDep<std::tuple<T...>> { static constexpr bool value = (false || ... || T::isVersionDependent()); };

template <std::size_t I, typename A, typename B> void copyTuple(A& a, const B& b)
{
    if constexpr (I < std::tuple_size<A>::value) { std::get<I>(a).setValue(std::get<I>(b).getValue()); copyTuple<I + 1U>(a, b); }
}
template <typename A, typename B> void copyMembers(A& a, B&& b)
{
    if constexpr (std::is_assignable<A&, B>::value) { a = std::forward<B>(b); } else { copyTuple<0>(a, b); }
}
template <typename F> auto wireImage(const F& f)
{
    std::vector<std::uint8_t> v;
    auto it = std::back_inserter(v);
    f.write(it, v.max_size());
    return v;
}
template <typename A, typename B> constexpr bool bothF = std::is_base_of<FieldTag, A>::value && std::is_base_of<FieldTag, B>::value;
} // namespace vf
template <typename A, typename B, typename = std::enable_if_t<vf::bothF<A, B>>>
bool operator==(const A& a, const B& b)
{
#ifdef VF_EMB // wrappers hide functions of the field with those that give pointers
    return vf::wireImage(a) == vf::wireImage(b);
#else
    if constexpr (std::is_same<typename A::VfKind, vf::KindOptional>::value) { return (a.getMode() == b.getMode()) && (!a.doesExist() || (a.field() == b.field())); }
    else if constexpr (std::is_same<typename A::VfKind, vf::KindVariant>::value) { return (a.currentField() == b.currentField()) && (vf::wireImage(a) == vf::wireImage(b)); }
    else { return a.getValue() == b.getValue(); }
#endif
}
template <typename A, typename B, typename = std::enable_if_t<vf::bothF<A, B>>> bool operator!=(const A& a, const B& b) { return !(a == b); }
template <typename A, typename B, typename = std::enable_if_t<vf::bothF<A, B>>> 
bool operator<(const A& a, const B& b)
{
#ifdef VF_EMB
    return vf::wireImage(a) < vf::wireImage(b);
#else
    if constexpr (std::is_same<typename A::VfKind, vf::KindOptional>::value || std::is_same<typename A::VfKind, vf::KindVariant>::value) { return vf::wireImage(a) < vf::wireImage(b); }
    else { return a.getValue() < b.getValue(); }
#endif
}
template <typename A, typename B> A field_cast(const B& b) { A a; a.setValue(b.getValue()); return a; }
} // namespace comms
