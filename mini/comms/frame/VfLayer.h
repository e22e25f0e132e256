// What all the frame layers of the miniature library share.
#pragma once
#include <functional>
#include "comms/impl/fieldbase.h"
#include "comms/Message.h"
#include "comms/MessageBase.h"
namespace comms
{
namespace vf
{
// information collected while reading
struct ReadCtx
{
    std::size_t* missing = nullptr;
    std::function<void(std::intmax_t)> setId;
    std::size_t* idx = nullptr;
    std::vector<std::function<void(void*)>> pending; // on the created message
    std::function<void(const void*, std::size_t)> payload;
    bool idKnown = false;
};
template <typename T> struct isPtr : std::false_type {};
template <typename T, typename D> struct isPtr<std::unique_ptr<T, D>> : std::true_type {};
template <typename T> struct MsgIdReq { T& v; };
struct MissingReq { std::size_t& v; };
struct IdxReq { std::size_t& v; };
template <typename T> void addCtx(ReadCtx& c, MsgIdReq<T> r) { c.setId = [&v = r.v](std::intmax_t i) { v = static_cast<T>(i); }; }
inline void addCtx(ReadCtx& c, MissingReq r) { c.missing = &r.v; r.v = 0; }
inline void addCtx(ReadCtx& c, IdxReq r) { c.idx = &r.v; }

template <typename T, typename = void> struct hasWriteF : std::false_type {};
template <typename T, typename TIter>
ErrorStatus msgRead(T& m, TIter& it, std::size_t len)
{
    if constexpr (isMessageBase<T>()) { return m.doRead(it, len); }
    else if constexpr (std::is_same<TIter, typename T::ReadIterator>::value) { return m.read(it, len); }
    else {
        typename T::ReadIterator tmp(it);
        auto b = tmp;
        auto es = m.read(tmp, len);
        std::advance(it, std::distance(b, tmp));
        return es;
    }
}
template <typename T, typename TIter>
ErrorStatus msgWrite(const T& m, TIter& it, std::size_t len)
{
    if constexpr (isMessageBase<T>()) { return m.doWrite(it, len); } else { return m.write(it, len); }
}
template <typename T> constexpr bool hasLen() { if constexpr (isMessageBase<T>()) { return true; } else { return T::hasLength(); } }
template <typename T> std::size_t msgLen(const T& m)
{
    if constexpr (isMessageBase<T>()) { return m.doLength(); } else { return m.length(); }
}
template <typename T> auto msgId(const T& m)
{
    if constexpr (isMessageBase<T>()) { return m.doGetId(); } else { return m.getId(); }
}
template <typename TIter> constexpr bool isRandom()
{
    return std::is_base_of<std::random_access_iterator_tag, typename std::iterator_traits<TIter>::iterator_category>::value;
}

template <typename T, typename = void> struct AllMsgsOf { using type = void; };
template <typename T> struct AllMsgsOf<T, std::void_t<typename T::AllMessages>> { using type = typename T::AllMessages; };
template <std::size_t I, typename L> struct LayerAt { using type = typename LayerAt<I - 1U, typename L::NextLayer>::type; };
template <typename L> struct LayerAt<0U, L> { using type = L; };

// idx of the field inside of the cached tuple is the distance from the end
template <typename TDerived, typename TField, typename TNext, typename... TOpts>
class Layer
{
public:
    using VfOpts = typename Flat<TOpts...>::type;
    static_assert(AllKnown<VfOpts>::value, "unknown layer option");
    using Field = TField;
    using NextLayer = TNext;
    using AllFields = decltype(std::tuple_cat(std::declval<std::tuple<TField>>(), std::declval<typename TNext::AllFields>()));
    using MsgPtr = typename TNext::MsgPtr;
    using Message = typename TNext::Message;
    using AllMessages = typename AllMsgsOf<TNext>::type;
    static constexpr std::size_t VfLayersCount = TNext::VfLayersCount + 1U;
    template <std::size_t I> using VfLayerAt = typename LayerAt<I, TDerived>::type;
    template <std::size_t I> auto& vfLayerAt() { if constexpr (I == 0U) { return static_cast<TDerived&>(*this); } else { return m_next.template vfLayerAt<I - 1U>(); } }
    template <std::size_t I> const auto& vfLayerAt() const { if constexpr (I == 0U) { return static_cast<const TDerived&>(*this); } else { return m_next.template vfLayerAt<I - 1U>(); } }
    NextLayer& nextLayer() { return m_next; }
    const NextLayer& nextLayer() const { return m_next; }

    template <typename TMsg, typename TIter, typename... TExtra>
    ErrorStatus read(TMsg& msg, TIter& iter, std::size_t len, TExtra... extra)
    {
        AllFields f;
        return readFieldsCached(f, msg, iter, len, extra...);
    }
    template <typename TAll, typename TMsg, typename TIter, typename... TExtra>
    ErrorStatus readFieldsCached(TAll& fields, TMsg& msg, TIter& iter, std::size_t len, TExtra... extra)
    {
        ReadCtx ctx;
        (addCtx(ctx, extra), ...);
        return self().vfRead(fields, msg, iter, len, ctx);
    }
    template <typename TMsg, typename TIter>
    ErrorStatus write(const TMsg& msg, TIter& iter, std::size_t len) const
    {
        AllFields f;
        return writeFieldsCached(f, msg, iter, len);
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus writeFieldsCached(TAll& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        return self().vfWrite(fields, msg, iter, len);
    }
    template <typename TIter> ErrorStatus update(TIter& iter, std::size_t len) const
    {
        AllFields f;
        return self().vfUpdate(f, static_cast<const Message*>(nullptr), iter, len);
    }
    template <typename TMsg, typename TIter> ErrorStatus update(const TMsg& msg, TIter& iter, std::size_t len) const
    {
        AllFields f;
        return self().vfUpdate(f, &msg, iter, len);
    }
    template <typename TAll, typename TIter> ErrorStatus updateFieldsCached(TAll& f, TIter& iter, std::size_t len) const { return self().vfUpdate(f, static_cast<const Message*>(nullptr), iter, len); }
    std::size_t length() const { return self().vfFieldLen() + m_next.length(); }
    template <typename TMsg> std::size_t length(const TMsg& msg) const { return self().vfFieldLenFor(msg) + m_next.length(msg); }
    std::size_t vfFieldLen() const { return TField().length(); }
    template <typename TMsg> std::size_t vfFieldLenFor(const TMsg&) const { return self().vfFieldLen(); }

    template <typename TAll> static auto& accessCachedField(TAll& fields)
    {
        return std::get<std::tuple_size<TAll>::value - VfLayersCount>(fields);
    }
    template <typename TAll> static auto& getField(TAll& fields) { return accessCachedField(fields); }
    template <typename TId> auto createMsg(TId id, unsigned idx = 0U) { return m_next.createMsg(id, idx); }
    template <typename TId> auto createMsg(TId id, unsigned idx = 0U) const { return m_next.createMsg(id, idx); }

    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfUpdate(TAll& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        auto& f = accessCachedField(fields);
        auto from = iter;
        auto es = f.read(iter, len);
        if (es != ErrorStatus::Success) { return es; }
        return m_next.vfUpdate(fields, msg, iter, len - static_cast<std::size_t>(std::distance(from, iter)));
    }

protected:
    ~Layer() = default;
    TDerived& self() { return static_cast<TDerived&>(*this); }
    const TDerived& self() const { return static_cast<const TDerived&>(*this); }
    template <typename TIter>
    static ErrorStatus vfMissing(ErrorStatus es, std::size_t need, std::size_t len, ReadCtx& ctx)
    {
        if ((es == ErrorStatus::NotEnoughData) && ctx.missing) { *ctx.missing = (len < need) ? need - len : 1U; }
        return es;
    }
    template <typename F, typename TIter>
    static ErrorStatus vfReadField(F& f, TIter& iter, std::size_t& len, ReadCtx& ctx)
    {
        auto from = iter;
        auto es = f.read(iter, len);
        if (es != ErrorStatus::Success) { return vfMissing<TIter>(es, F::minLength(), len, ctx); }
        len -= static_cast<std::size_t>(std::distance(from, iter));
        return es;
    }
    template <typename F, typename TIter>
    static ErrorStatus vfWriteField(const F& f, TIter& iter, std::size_t& len)
    {
        auto l = f.length();
        auto es = f.write(iter, len);
        if (es != ErrorStatus::Success) { return es; }
        len -= l;
        return es;
    }
    TNext m_next;
};
} // namespace vf
namespace frame
{
template <typename T> vf::MsgIdReq<T> msgId(T& v) { return vf::MsgIdReq<T>{v}; }
inline vf::MissingReq missingSize(std::size_t& v) { return vf::MissingReq{v}; }
inline vf::IdxReq msgIndex(std::size_t& v) { return vf::IdxReq{v}; }
}
} // namespace comms
