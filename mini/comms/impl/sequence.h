#pragma once
#include "comms/impl/fieldbase.h"
#include "comms/util/assign.h"
#include "comms/util/StringView.h"
namespace comms { namespace vf {

template <typename F> std::size_t prefixNum(const F& f);
template <typename F> void setPrefix(F& f, std::size_t v);

// int like prefixes (may be wrapped in an optional)
template <typename F> std::size_t prefixNum(const F& f)
{
    if constexpr (std::is_same<typename F::VfKind, KindOptional>::value) { return f.doesExist() ? prefixNum(f.field()) : 0U; }
    else { return static_cast<std::size_t>(f.getValue()); }
}
template <typename F> void setPrefix(F& f, std::size_t v)
{
    if constexpr (std::is_same<typename F::VfKind, KindOptional>::value) { setPrefix(f.field(), v); }
    else { f.setValue(v); }
}

template <typename TFieldBase, typename TElem, bool TString, typename... TOpts>
class Sequence : public Common<TFieldBase, TOpts...>
{
    using CB = Common<TFieldBase, TOpts...>;
public:
    using VfOpts = typename CB::VfOpts;
    static constexpr bool VfRaw = std::is_integral<TElem>::value;
    static constexpr bool VfHasSize = has_v<t::SizePrefix, VfOpts>;
    static constexpr bool VfHasSerLen = has_v<t::SerLenPrefix, VfOpts>;
    static constexpr bool VfHasElemLen = has_v<t::ElemSerLenPrefix, VfOpts>;
    static constexpr bool VfHasElemFixedLen = has_v<t::ElemFixedSerLenPrefix, VfOpts>;
    static constexpr bool VfHasTerm = has_v<t::TermSuffix, VfOpts>;
    static constexpr bool VfHasFixed = has_v<t::FixedSize, VfOpts>;
    static constexpr std::size_t vfFixed() { if constexpr (VfHasFixed) { return find_t<t::FixedSize, VfOpts>::value; } else { return 0U; } }
    static constexpr std::size_t vfLimit()
    {
        if constexpr (has_v<t::FixedStorage, VfOpts>) { return find_t<t::FixedStorage, VfOpts>::value; }
        else if constexpr (VfHasFixed && has_v<t::FixedUseFixed, VfOpts>) { return vfFixed(); }
        else { return 0U; }
    }
    static constexpr bool VfView = has_v<t::OrigView, VfOpts> && VfRaw;
    using Dynamic = std::conditional_t<TString, std::string, std::vector<TElem>>;
    using ValueType = std::conditional_t<VfView, std::conditional_t<TString, util::StringView, util::ArrayView<TElem>>,
        std::conditional_t<vfLimit() != 0U, util::Bounded<Dynamic, vfLimit() == 0U ? 1U : vfLimit()>, Dynamic>>;
    using ElementType = TElem;

    static ValueType vfInit()
    {
        ValueType v;
        if constexpr (VfHasFixed && !VfRaw) { v.resize(vfFixed()); }
        return v;
    }
    ValueType& value() { return m_value; }
    const ValueType& value() const { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <typename U> void setValue(U&& v)
    {
        if constexpr (std::is_assignable<ValueType&, U>::value) { m_value = std::forward<U>(v); }
        else if constexpr (std::is_constructible<ValueType, decltype(v.data()), std::size_t>::value) { m_value = ValueType(v.data(), v.size()); }
        else { m_value = ValueType(v.begin(), v.end()); }
    }

    static constexpr std::size_t minElemLength() { if constexpr (VfRaw) { return 1U; } else { return TElem::minLength(); } }
    static constexpr std::size_t maxElemLength() { if constexpr (VfRaw) { return 1U; } else { return TElem::maxLength(); } }

    static constexpr std::size_t minLength()
    {
        std::size_t l = 0;
        if constexpr (VfHasFixed) {
            l = mulLen(minElemLength(), vfFixed());
            if constexpr (VfHasElemLen) { l += find_t<t::ElemSerLenPrefix, VfOpts>::Type::minLength() * vfFixed(); }
            if constexpr (VfHasElemFixedLen) { l += find_t<t::ElemFixedSerLenPrefix, VfOpts>::Type::minLength(); }
        }
        if constexpr (VfHasSize) { l += find_t<t::SizePrefix, VfOpts>::Type::minLength(); }
        if constexpr (VfHasSerLen) { l += find_t<t::SerLenPrefix, VfOpts>::Type::minLength(); }
        if constexpr (VfHasTerm) { l += find_t<t::TermSuffix, VfOpts>::Type::minLength(); }
        return l;
    }
    static constexpr std::size_t maxLength()
    {
        if constexpr (VfHasFixed && !VfHasSize && !VfHasSerLen && !VfHasTerm) {
            std::size_t l = mulLen(maxElemLength(), vfFixed());
            if constexpr (VfHasElemLen) { l = addLen(l, mulLen(find_t<t::ElemSerLenPrefix, VfOpts>::Type::maxLength(), vfFixed())); }
            if constexpr (VfHasElemFixedLen) { l = addLen(l, find_t<t::ElemFixedSerLenPrefix, VfOpts>::Type::maxLength()); }
            return l;
        }
        else { return MaxLen; }
    }
    std::size_t vfElemsLength() const
    {
        std::size_t l = 0;
        if constexpr (VfRaw) { l = m_value.size(); }
        else {
            for (auto& e : m_value) {
                auto el = e.length();
                if constexpr (VfHasElemLen) { el += vfPrefix<t::ElemSerLenPrefix>(el).length(); }
                l += el;
            }
            if constexpr (VfHasFixed) {
                for (auto i = m_value.size(); i < vfFixed(); ++i) {
                    TElem e;
                    auto el = e.length();
                    if constexpr (VfHasElemLen) { el += vfPrefix<t::ElemSerLenPrefix>(el).length(); }
                    l += el;
                }
            }
            if constexpr (VfHasElemFixedLen) { if (!m_value.empty() || VfHasFixed) { l += vfPrefix<t::ElemFixedSerLenPrefix>(m_value.empty() ? TElem().length() : m_value.begin()->length()).length(); } }
        }
        return l;
    }
    std::size_t length() const
    {
        if constexpr (VfHasFixed && VfRaw) { if (m_value.size() < vfFixed()) { return vfFixed() + vfExtra(); } return std::min(vfElemsLength(), vfFixed()) + vfExtra(); }
        return vfElemsLength() + vfExtra();
    }

    void forceReadElemCount(std::size_t n) { static_assert(has_v<t::SizeForce, VfOpts>, "size forcing"); m_forceCount = n; }
    void clearReadElemCount() { m_forceCount = MaxLen; }
    void forceReadLength(std::size_t n) { static_assert(has_v<t::LenForce, VfOpts>, "length forcing"); m_forceLen = n; }
    void clearReadLengthForcing() { m_forceLen = MaxLen; }
    void forceReadElemLength(std::size_t n) { static_assert(has_v<t::ElemLenForce, VfOpts>, "elem length forcing"); m_forceElem = n; }
    void clearReadElemLengthForcing() { m_forceElem = MaxLen; }

    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len) { return CB::vfChecked(*this, vfRead(iter, len)); }

    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        auto es = ErrorStatus::Success;
        if constexpr (VfHasSize) { es = vfWriteField(vfPrefix<t::SizePrefix>(m_value.size()), iter, len); }
        if constexpr (VfHasSerLen) { es = vfWriteField(vfPrefix<t::SerLenPrefix>(vfElemsLength()), iter, len); }
        if (es != ErrorStatus::Success) { return es; }
        if constexpr (VfRaw) {
            auto n = m_value.size();
            if (VfHasFixed) { n = std::min(n, vfFixed()); }
            auto total = VfHasFixed ? vfFixed() : n;
            if (len < total) { return ErrorStatus::BufferOverflow; }
            std::size_t i = 0;
            for (; i < n; ++i) { *iter = static_cast<std::uint8_t>(m_value[i]); ++iter; }
            for (; i < total; ++i) { *iter = 0; ++iter; }
            len -= total;
        }
        else {
            bool first = true;
            std::size_t left = VfHasFixed ? vfFixed() : MaxLen;
            for (auto& e : m_value) {
                if (left == 0U) { break; }
                --left;
                if constexpr (VfHasElemFixedLen) { if (first) { es = vfWriteField(vfPrefix<t::ElemFixedSerLenPrefix>(e.length()), iter, len); if (es != ErrorStatus::Success) { return es; } } }
                if constexpr (VfHasElemLen) { es = vfWriteField(vfPrefix<t::ElemSerLenPrefix>(e.length()), iter, len); if (es != ErrorStatus::Success) { return es; } }
                first = false;
                es = vfWriteField(e, iter, len);
                if (es != ErrorStatus::Success) { return es; }
            }
            if (VfHasFixed) {
                while (left != 0U) {
                    --left;
                    TElem e;
                    if constexpr (VfHasElemFixedLen) { if (first) { es = vfWriteField(vfPrefix<t::ElemFixedSerLenPrefix>(e.length()), iter, len); if (es != ErrorStatus::Success) { return es; } } }
                    if constexpr (VfHasElemLen) { es = vfWriteField(vfPrefix<t::ElemSerLenPrefix>(e.length()), iter, len); if (es != ErrorStatus::Success) { return es; } }
                    first = false;
                    es = vfWriteField(e, iter, len);
                    if (es != ErrorStatus::Success) { return es; }
                }
            }
        }
        if constexpr (VfHasTerm) { typename find_t<t::TermSuffix, VfOpts>::Type f; es = vfWriteField(f, iter, len); }
        return es;
    }
    bool valid() const
    {
        if (has_v<t::InvalidByDefault, VfOpts>) { return false; }
        if constexpr (!VfRaw) { for (auto& e : m_value) { if (!e.valid()) { return false; } } }
        if constexpr (VfHasSize) { if (!vfPrefix<t::SizePrefix>(m_value.size()).valid()) { return false; } }
        if constexpr (VfHasSerLen) { if (!vfPrefix<t::SerLenPrefix>(vfElemsLength()).valid()) { return false; } }
        return true;
    }
    bool refresh()
    {
        bool r = false;
        if constexpr (!VfRaw) {
            for (auto& e : m_value) { r = e.refresh() || r; }
            if (VfHasFixed && (m_value.size() != vfFixed())) { m_value.resize(vfFixed()); r = true; }
        }
        return r;
    }
    bool canWrite() const { return true; }
    static constexpr bool isVersionDependent()
    {
        if constexpr (VfRaw) { return false; }
        else if constexpr (has_v<t::VerDep, VfOpts>) { return CB::isVersionDependent(); }
        else { return TElem::isVersionDependent(); }
    }
    static constexpr bool vfRealVersionDependent() { if constexpr (VfRaw) { return false; } else { return TElem::isVersionDependent(); } }
    bool setVersion(unsigned v)
    {
        bool r = CB::setVersion(v);
        m_version = v;
        if constexpr (!VfRaw) { for (auto& e : m_value) { r = e.setVersion(v) || r; } }
        return r;
    }

    template <typename Tag> typename find_t<Tag, VfOpts>::Type vfPrefix(std::size_t v) const { typename find_t<Tag, VfOpts>::Type f; setPrefix(f, v); return f; }
    std::size_t vfForcedCount() const { return m_forceCount; }
    std::size_t vfForcedLen() const { return m_forceLen; }

protected:
    ValueType m_value = vfInit();

private:
    std::size_t vfExtra() const
    {
        std::size_t l = 0;
        if constexpr (VfHasSize) { l += vfPrefix<t::SizePrefix>(m_value.size()).length(); }
        if constexpr (VfHasSerLen) { l += vfPrefix<t::SerLenPrefix>(vfElemsLength()).length(); }
        if constexpr (VfHasTerm) { l += typename find_t<t::TermSuffix, VfOpts>::Type().length(); }
        return l;
    }
    template <typename F, typename TIter> static ErrorStatus vfWriteField(const F& f, TIter& iter, std::size_t& len)
    {
        auto l = f.length();
        auto es = f.write(iter, len);
        if (es == ErrorStatus::Success) { len -= l; }
        return es;
    }
    template <typename F, typename TIter> static ErrorStatus vfReadField(F& f, TIter& iter, std::size_t& len)
    {
        auto from = iter;
        auto es = f.read(iter, len);
        if (es == ErrorStatus::Success) { len -= static_cast<std::size_t>(std::distance(from, iter)); }
        return es;
    }
    template <typename TIter> ErrorStatus vfRaw(TIter& iter, std::size_t n)
    {
        if ((vfLimit() != 0U) && (vfLimit() < n)) { iter += static_cast<std::ptrdiff_t>(n); n = 0; m_value.clear(); return ErrorStatus::ProtocolError; }
        if constexpr (VfView) { m_value = ValueType(reinterpret_cast<const typename ValueType::value_type*>(&*iter), n); }
        else { m_value.assign(iter, iter + static_cast<std::ptrdiff_t>(n)); }
        iter += static_cast<std::ptrdiff_t>(n);
        return ErrorStatus::Success;
    }
    template <typename TIter> ErrorStatus vfElem(TIter& iter, std::size_t& len, std::size_t& fixedElem)
    {
        if constexpr (!VfRaw) {
            auto es = ErrorStatus::Success;
            std::size_t el = MaxLen;
            auto stat = ErrorStatus::Success;
            if constexpr (VfHasElemFixedLen) {
                if (fixedElem == MaxLen) { typename find_t<t::ElemFixedSerLenPrefix, VfOpts>::Type p; es = vfReadField(p, iter, len); if (es != ErrorStatus::Success) { return es; } fixedElem = prefixNum(p); }
                el = fixedElem;
                stat = find_t<t::ElemFixedSerLenPrefix, VfOpts>::status;
            }
            if constexpr (VfHasElemLen) {
                typename find_t<t::ElemSerLenPrefix, VfOpts>::Type p; es = vfReadField(p, iter, len); if (es != ErrorStatus::Success) { return es; } el = prefixNum(p);
                stat = find_t<t::ElemSerLenPrefix, VfOpts>::status;
            }
            if (m_forceElem != MaxLen) { el = m_forceElem; }
            if ((vfLimit() != 0U) && (vfLimit() <= m_value.size())) { return ErrorStatus::ProtocolError; }
            m_value.resize(m_value.size() + 1U);
            auto& e = m_value.back();
            if (isVersionDependent()) { e.setVersion(m_version); }
            if (el == MaxLen) {
                es = vfReadField(e, iter, len);
                if (es != ErrorStatus::Success) { m_value.resize(m_value.size() - 1U); }
                return es;
            }
            if (len < el) { m_value.resize(m_value.size() - 1U); return ErrorStatus::NotEnoughData; }
            auto from = iter;
            auto l = el;
            es = vfReadField(e, iter, l);
            if (es != ErrorStatus::Success) {
                m_value.resize(m_value.size() - 1U);
                if (es == ErrorStatus::NotEnoughData) { es = ErrorStatus::ProtocolError; }
                return es;
            }
            if ((l != 0U) && (stat != ErrorStatus::Success)) { return stat; }
            iter = from;
            std::advance(iter, static_cast<std::ptrdiff_t>(el));
            len -= el;
        }
        return ErrorStatus::Success;
    }
    template <typename TIter> ErrorStatus vfRead(TIter& iter, std::size_t len)
    {
        auto es = ErrorStatus::Success;
        std::size_t count = MaxLen;
        std::size_t ser = MaxLen;
        m_value.clear();
        if constexpr (VfHasSize) { typename find_t<t::SizePrefix, VfOpts>::Type p; es = vfReadField(p, iter, len); if (es != ErrorStatus::Success) { return es; } count = prefixNum(p); }
        if constexpr (VfHasSerLen) { typename find_t<t::SerLenPrefix, VfOpts>::Type p; es = vfReadField(p, iter, len); if (es != ErrorStatus::Success) { return es; } ser = prefixNum(p); }
        if (m_forceCount != MaxLen) { count = m_forceCount; }
        if (m_forceLen != MaxLen) { ser = m_forceLen; }
        if (VfHasFixed) { count = vfFixed(); }
        auto avail = len;
        if (ser != MaxLen) {
            if (len < ser) { return ErrorStatus::NotEnoughData; }
            avail = ser;
        }
        auto from = iter;
        if constexpr (VfRaw) {
            auto n = avail;
            if (count != MaxLen) { if (avail < count) { return ErrorStatus::NotEnoughData; } n = count; }
            if constexpr (VfHasTerm) {
                using T = typename find_t<t::TermSuffix, VfOpts>::Type;
                T ref;
                auto p = iter;
                auto left = avail;
                while (true) {
                    auto q = p;
                    T tf;
                    es = tf.read(q, left);
                    if (es == ErrorStatus::NotEnoughData) { return es; }
                    if ((es == ErrorStatus::Success) && (tf.getValue() == ref.getValue())) {
                        es = vfRaw(iter, static_cast<std::size_t>(std::distance(iter, p)));
                        iter = q;
                        return es;
                    }
                    ++p; --left;
                }
            }
            else {
                es = vfRaw(iter, n);
                if (TString && VfHasFixed && (es == ErrorStatus::Success)) {
                    auto it = std::find(m_value.begin(), m_value.end(), '\0');
                    auto l = static_cast<std::size_t>(std::distance(m_value.begin(), it));
                    if constexpr (VfView) { m_value.vfTrim(l); } else { m_value.resize(l); }
                }
            }
        }
        else {
            std::size_t fixedElem = MaxLen;
            auto left = avail;
            if (count != MaxLen) {
                for (std::size_t i = 0; i < count; ++i) {
                    es = vfElem(iter, left, fixedElem);
                    if (es != ErrorStatus::Success) { return es; }
                }
            }
            else {
                while (true) {
                    if constexpr (VfHasTerm) {
                        using T = typename find_t<t::TermSuffix, VfOpts>::Type;
                        T ref, tf;
                        auto p = iter;
                        es = tf.read(p, left);
                        if ((es == ErrorStatus::Success) && (tf.getValue() == ref.getValue())) { iter = p; return es; }
                        if (left == 0U) { return ErrorStatus::NotEnoughData; }
                    }
                    if (left == 0U) { break; }
                    es = vfElem(iter, left, fixedElem);
                    if (es != ErrorStatus::Success) { break; }
                }
                if ((es == ErrorStatus::NotEnoughData) && (ser != MaxLen)) { es = ErrorStatus::ProtocolError; }
                if (es != ErrorStatus::Success) { return es; }
            }
        }
        if (ser != MaxLen) {
            auto used = static_cast<std::size_t>(std::distance(from, iter));
            if constexpr (VfHasSerLen) { if ((used != ser) && (find_t<t::SerLenPrefix, VfOpts>::status != ErrorStatus::Success)) { return find_t<t::SerLenPrefix, VfOpts>::status; } }
            iter = from;
            std::advance(iter, static_cast<std::ptrdiff_t>(ser));
        }
        return es;
    }
    std::size_t m_forceCount = MaxLen;
    std::size_t m_forceLen = MaxLen;
    std::size_t m_forceElem = MaxLen;
    unsigned m_version = 0U;
};
} }
