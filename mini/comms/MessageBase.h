#pragma once
#include "comms/impl/fieldbase.h"
namespace comms
{
namespace vf
{
struct MessageBaseTag {};
template <typename T> struct FieldsOf { using type = typename T::Type; };
template <> struct FieldsOf<void> { using type = std::tuple<>; };
template <typename T, typename TDef> struct MsgTypeOf { using type = typename T::Type; };
template <typename TDef> struct MsgTypeOf<void, TDef> { using type = TDef; };

// The implementation of the virtual functions is added layer by layer.
template <typename TBase, typename TOpts, typename TActual, bool B> struct ImplRead : TBase {};
template <typename TBase, typename TOpts, typename TActual> struct ImplRead<TBase, TOpts, TActual, true> : TBase
{
    ErrorStatus readImpl(typename TBase::ReadIterator& iter, std::size_t len) override { return static_cast<TActual&>(*this).doRead(iter, len); }
};
template <typename TBase, typename TOpts, typename TActual, bool B> struct ImplWrite : TBase {};
template <typename TBase, typename TOpts, typename TActual> struct ImplWrite<TBase, TOpts, TActual, true> : TBase
{
    ErrorStatus writeImpl(typename TBase::WriteIterator& iter, std::size_t len) const override { return static_cast<const TActual&>(*this).doWrite(iter, len); }
};
#define VF_IMPL(N, ret, fn, fwd, cst) \
template <typename TBase, typename TActual, bool B> struct N : TBase {}; \
template <typename TBase, typename TActual> struct N<TBase, TActual, true> : TBase { ret fn##Impl() cst override { return static_cast<cst TActual&>(*this).fwd(); } };
VF_IMPL(ImplLength, std::size_t, length, doLength, const)
VF_IMPL(ImplValid, bool, valid, doValid, const)
VF_IMPL(ImplName, const char*, name, doName, const)
VF_IMPL(ImplRefresh, bool, refresh, doRefresh, )
#undef VF_IMPL
template <typename TBase, typename TActual, bool B> struct ImplId : TBase {};
template <typename TBase, typename TActual> struct ImplId<TBase, TActual, true> : TBase
{
    typename TBase::MsgIdParamType getIdImpl() const override { return static_cast<const TActual&>(*this).doGetId(); }
};
template <typename TBase, typename TActual, bool B> struct ImplDispatch : TBase {};
template <typename TBase, typename TActual> struct ImplDispatch<TBase, TActual, true> : TBase
{
    typename TBase::DispatchRetType dispatchImpl(typename TBase::Handler& h) override { return h.handle(static_cast<TActual&>(*this)); }
};
template <typename TIface, typename TOpts, typename TActual>
struct ImplChain
{
    using M = typename TIface::VfMsgOpts;
    template <typename T, typename L> static constexpr bool has() { return has_v<T, L>; }
    using B1 = ImplRead<TIface, TOpts, TActual, has<option::vftag::ReadIter, M>() && !has<option::vftag::NoRead, TOpts>()>;
    using B2 = ImplWrite<B1, TOpts, TActual, has<option::vftag::WriteIter, M>() && !has<option::vftag::NoWrite, TOpts>()>;
    using B3 = ImplLength<B2, TActual, has<option::vftag::LenIface, M>()>;
    using B4 = ImplValid<B3, TActual, has<option::vftag::ValidIface, M>()>;
    using B5 = ImplName<B4, TActual, has<option::vftag::NameIface, M>() && has<option::vftag::HasName, TOpts>()>;
    using B6 = ImplRefresh<B5, TActual, has<option::vftag::RefreshIface, M>() && !has<option::vftag::NoRefresh, TOpts>()>;
    using B7 = ImplId<B6, TActual, has<option::vftag::IdIface, M>() && has<option::vftag::NumId, TOpts>()>;
    using type = ImplDispatch<B7, TActual, has<option::vftag::Handler, M>() && !has<option::vftag::NoDispatch, TOpts>()>;
};
} // namespace vf

template <typename TMessage, typename... TOpts>
class MessageBase : public vf::MessageBaseTag, public
    vf::ImplChain<TMessage, typename vf::Flat<TOpts...>::type,
        typename vf::MsgTypeOf<vf::find_t<option::vftag::MsgType, typename vf::Flat<TOpts...>::type>, MessageBase<TMessage, TOpts...>>::type>::type
{
public:
    using VfOpts = typename vf::Flat<TOpts...>::type;
    static_assert(vf::AllKnown<VfOpts>::value, "unknown message implementation option");
    using AllFields = typename vf::FieldsOf<vf::find_t<option::vftag::FieldsImpl, VfOpts>>::type;
    using ImplOptions = VfOpts;
private:
    static constexpr std::size_t N = std::tuple_size<AllFields>::value;
public:
    MessageBase()
    {
        if constexpr (TMessage::vfHasVersion()) { doFieldsVersionUpdate(); }
    }
    AllFields& fields() { return m_fields; }
    const AllFields& fields() const { return m_fields; }

    static constexpr bool hasStaticMsgId() { return vf::has_v<option::vftag::NumId, VfOpts>; }
    static constexpr auto doGetId() { return static_cast<typename TMessage::MsgIdParamType>(vf::find_t<option::vftag::NumId, VfOpts>::value); }
    static constexpr bool areFieldsVersionDependent() { return vf::AnyVerDep<AllFields>::value; }
    bool operator==(const MessageBase& o) const { return m_fields == o.m_fields; }
    bool operator!=(const MessageBase& o) const { return !(m_fields == o.m_fields); }
    static constexpr bool hasCustomName() { return vf::has_v<option::vftag::HasName, VfOpts>; }
    static constexpr bool hasCustomRefresh() { return vf::has_v<option::vftag::CustomRefresh, VfOpts>; }

    template <typename TIter> ErrorStatus doRead(TIter& iter, std::size_t len)
    {
        if constexpr (TMessage::vfHasVersion()) { doFieldsVersionUpdate(); }
        return vfChecked(vf::readRange<0, N>(m_fields, iter, len));
    }
    template <std::size_t TUntil, typename TIter> ErrorStatus doReadUntilAndUpdateLen(TIter& iter, std::size_t& len) { return vf::readRange<0, TUntil>(m_fields, iter, len); }
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus doReadFromUntilAndUpdateLen(TIter& iter, std::size_t& len) { return vf::readRange<TFrom, TUntil>(m_fields, iter, len); }
    template <std::size_t TFrom, typename TIter> ErrorStatus doReadFrom(TIter& iter, std::size_t len) { return vf::readRange<TFrom, N>(m_fields, iter, len); }
    template <std::size_t TUntil, typename TIter> ErrorStatus doReadUntil(TIter& iter, std::size_t len) { return vf::readRange<0, TUntil>(m_fields, iter, len); }
    template <typename TIter> ErrorStatus doWrite(TIter& iter, std::size_t len) const { return vf::writeRange<0, N>(m_fields, iter, len); }
    bool doValid() const
    {
        bool r = true;
        vf::forAll(m_fields, [&r](auto& f, auto) { r = f.valid() && r; });
        return r;
    }
    bool doRefresh()
    {
        bool r = false;
        if constexpr (TMessage::vfHasVersion()) { r = doFieldsVersionUpdate(); }
        vf::forAll(m_fields, [&r](auto& f, auto) { r = f.refresh() || r; });
        return r;
    }
    bool doFieldsVersionUpdate()
    {
        bool r = false;
        if constexpr (TMessage::vfHasVersion()) {
            auto v = static_cast<unsigned>(static_cast<const MessageBase*>(this)->version());
            vf::forAll(m_fields, [&r, v](auto& f, auto) {
                if constexpr (std::decay_t<decltype(f)>::isVersionDependent()) { r = f.setVersion(v) || r; }
            });
        }
        return r;
    }
    std::size_t doLength() const { return vf::lenRange<0, N>(m_fields); }
    static constexpr std::size_t doMinLength() { return vf::minRange<0, N, AllFields>(); }
    static constexpr std::size_t doMaxLength() { return vf::maxRange<0, N, AllFields>(); }
    template <std::size_t F, std::size_t T> std::size_t doLengthFromUntil() const { return vf::lenRange<F, T>(m_fields); }
    template <std::size_t F> std::size_t doLengthFrom() const { return vf::lenRange<F, N>(m_fields); }
    template <std::size_t T> std::size_t doLengthUntil() const { return vf::lenRange<0, T>(m_fields); }

protected:
    ~MessageBase() = default;

private:
    ErrorStatus vfChecked(ErrorStatus es)
    {
        using F = vf::find_t<option::vftag::FailOnInvalid, VfOpts>;
        if constexpr (!std::is_void<F>::value) {
            using A = typename vf::MsgTypeOf<vf::find_t<option::vftag::MsgType, VfOpts>, MessageBase<TMessage, TOpts...>>::type;
            if ((es == ErrorStatus::Success) && (!static_cast<const A&>(*this).doValid())) { return F::status; }
        }
        return es;
    }
    AllFields m_fields;
};
template <typename T> constexpr bool isMessageBase() { return std::is_base_of<vf::MessageBaseTag, T>::value; }
} // namespace comms
