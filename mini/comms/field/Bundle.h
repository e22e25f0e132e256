#pragma once
#include "comms/impl/fieldbase.h"
namespace comms { namespace field {
template <typename TFieldBase, typename TMembers, typename... TOpts>
class Bundle : public vf::Common<TFieldBase, TOpts...>
{
    using CB = vf::Common<TFieldBase, TOpts...>;
    static constexpr std::size_t N = std::tuple_size<TMembers>::value;
public:
    using VfKind = vf::KindBundle;
    using ValueType = TMembers;
    using Members = TMembers;
    using VfOpts = typename CB::VfOpts;
    Bundle() { vfRefreshLen(); }
    ValueType& value() { return m_value; }
    const ValueType& value() const { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <typename U> void setValue(U&& v) { vf::copyMembers(m_value, std::forward<U>(v)); }
    static constexpr std::size_t minLength() { return vf::minRange<0, N, TMembers>(); }
    static constexpr std::size_t maxLength() { return vf::maxRange<0, N, TMembers>(); }
    std::size_t length() const { return vf::lenRange<0, N>(m_value); }
    template <std::size_t TFrom> std::size_t lengthFrom() const { return vf::lenRange<TFrom, N>(m_value); }
    template <std::size_t TUntil> std::size_t lengthUntil() const { return vf::lenRange<0, TUntil>(m_value); }
    template <std::size_t TFrom, std::size_t TUntil> std::size_t lengthFromUntil() const { return vf::lenRange<TFrom, TUntil>(m_value); }

    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len) { return CB::vfChecked(*this, readFromUntilAndUpdateLen<0, N>(iter, len)); }
    template <std::size_t TFrom, typename TIter> ErrorStatus readFrom(TIter& iter, std::size_t len) { return CB::vfChecked(*this, readFromUntilAndUpdateLen<TFrom, N>(iter, len)); }
    template <std::size_t TFrom, typename TIter> ErrorStatus readFromAndUpdateLen(TIter& iter, std::size_t& len) { return readFromUntilAndUpdateLen<TFrom, N>(iter, len); }
    template <std::size_t TUntil, typename TIter> ErrorStatus readUntil(TIter& iter, std::size_t len) { return readFromUntilAndUpdateLen<0, TUntil>(iter, len); }
    template <std::size_t TUntil, typename TIter> ErrorStatus readUntilAndUpdateLen(TIter& iter, std::size_t& len) { return readFromUntilAndUpdateLen<0, TUntil>(iter, len); }
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus readFromUntil(TIter& iter, std::size_t len) { return readFromUntilAndUpdateLen<TFrom, TUntil>(iter, len); }
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus readFromUntilAndUpdateLen(TIter& iter, std::size_t& len)
    {
        using R = vf::find_t<option::vftag::RemLenMember, VfOpts>;
        if constexpr (!std::is_void<R>::value) {
            if constexpr (TFrom <= R::value && R::value < TUntil) {
                auto es = vf::readRange<TFrom, R::value + 1U>(m_value, iter, len);
                if (es != ErrorStatus::Success) { return es; }
                auto rem = static_cast<std::size_t>(vfNum(std::get<R::value>(m_value)));
                if (len < rem) { return ErrorStatus::NotEnoughData; }
                auto outer = len - rem;
                auto end = iter;
                std::advance(end, rem);
                len = rem;
                es = vf::readRange<R::value + 1U, TUntil>(m_value, iter, len);
                if (es == ErrorStatus::NotEnoughData) { es = ErrorStatus::ProtocolError; }
                if ((TUntil == N) && (es == ErrorStatus::Success)) { iter = end; len = outer; }
                return es;
            }
        }
        return vf::readRange<TFrom, TUntil>(m_value, iter, len);
    }
    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const { return vf::writeRange<0, N>(m_value, iter, len); }
    bool valid() const { bool r = true; vf::forAll(m_value, [&r](auto& f, auto) { r = f.valid() && r; }); return r; }
    bool refresh()
    {
        bool r = false;
        vf::forAll(m_value, [&r](auto& f, auto) { r = f.refresh() || r; });
        r = vfRefreshLen() || r;
        return r;
    }
    bool vfRefreshLen()
    {
        using R = vf::find_t<option::vftag::RemLenMember, VfOpts>;
        if constexpr (!std::is_void<R>::value) {
            auto l = lengthFrom<R::value + 1U>();
            auto& f = std::get<R::value>(m_value);
            if (static_cast<std::size_t>(vfNum(f)) != l) { f.setValue(l); return true; }
        }
        return false;
    }
    bool canWrite() const { bool r = true; vf::forAll(m_value, [&r](auto& f, auto) { r = f.canWrite() && r; }); return r; }
    static constexpr bool isVersionDependent()
    {
        if constexpr (vf::has_v<option::vftag::VerDep, VfOpts>) { return CB::isVersionDependent(); }
        else { return vf::AnyVerDep<TMembers>::value; }
    }
    static constexpr bool vfRealVersionDependent() { return vf::AnyVerDep<TMembers>::value; }
    bool setVersion(unsigned v)
    {
        bool r = CB::setVersion(v);
        if constexpr (isVersionDependent()) { vf::forAll(m_value, [&r, v](auto& f, auto) { r = f.setVersion(v) || r; }); }
        vfRefreshLen();
        return r;
    }
private:
    template <typename F> static std::size_t vfNum(const F& f) { return static_cast<std::size_t>(f.getValue()); }
    TMembers m_value;
};
} }
