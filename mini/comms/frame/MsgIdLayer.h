#pragma once
#include "comms/frame/VfLayer.h"
#include "comms/MsgFactory.h"
#include "comms/MsgFactoryCreateFailureReason.h"
namespace comms
{
namespace vf
{
template <typename T> struct FactOf { template <typename A, typename B, typename C> using type = typename T::template Type<A, B, C>; };
template <> struct FactOf<void> { template <typename A, typename B, typename C> using type = MsgFactory<A, B, C>; };
}
namespace frame {
template <typename TField, typename TMessage, typename TAllMessages, typename TNext, typename... TOpts>
class MsgIdLayer : public vf::Layer<MsgIdLayer<TField, TMessage, TAllMessages, TNext, TOpts...>, TField, TNext, TOpts...>
{
    using Base = vf::Layer<MsgIdLayer<TField, TMessage, TAllMessages, TNext, TOpts...>, TField, TNext, TOpts...>;
public:
    using Field = TField;
    using Message = TMessage;
    using AllMessages = TAllMessages;
    using Factory = typename vf::FactOf<vf::find_t<option::vftag::FactoryTempl, typename Base::VfOpts>>::template type<TMessage, TAllMessages, std::conditional_t<vf::has_v<option::vftag::InPlace, typename Base::VfOpts>, option::app::InPlaceAllocation, option::app::EmptyOption>>;
    using MsgPtr = typename Factory::MsgPtr;
    using MsgIdType = typename TMessage::MsgIdType;
    using MsgIdParamType = typename TMessage::MsgIdParamType;

    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfRead(TAll& fields, TMsg& msg, TIter& iter, std::size_t len, vf::ReadCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        auto es = Base::vfReadField(f, iter, len, ctx);
        if (es != ErrorStatus::Success) { return es; }
        auto id = static_cast<MsgIdType>(f.getValue());
        if constexpr (vf::isPtr<TMsg>::value) {
            if (ctx.setId) { ctx.setId(static_cast<std::intmax_t>(id)); }
            auto from = iter;
            es = ErrorStatus::InvalidMsgId;
            for (unsigned idx = 0;; ++idx) {
                MsgFactoryCreateFailureReason reason = MsgFactoryCreateFailureReason::None;
                msg = m_factory.createMsg(id, idx, &reason);
                if (!msg) {
                    if (idx == 0U) { return reason == MsgFactoryCreateFailureReason::AllocFailure ? ErrorStatus::MsgAllocFailure : ErrorStatus::InvalidMsgId; }
                    return es;
                }
                if (ctx.idx) { *ctx.idx = idx; }
                Message* m = msg.get();
                for (auto& p : ctx.pending) { p(m); }
                iter = from;
                if constexpr (TMessage::hasRead()) { es = this->m_next.vfRead(fields, msg, iter, len, ctx); }
                else {
                    es = ErrorStatus::NotSupported;
                    vfReal(id, idx, *msg, [&](auto& real) { es = this->m_next.vfRead(fields, real, iter, len, ctx); }, static_cast<TAllMessages*>(nullptr));
                }
                if (es == ErrorStatus::Success) { return es; }
                msg.reset();
            }
        }
        else {
            if (id != static_cast<MsgIdType>(vf::msgId(msg))) { return ErrorStatus::InvalidMsgId; }
            if (ctx.setId) { ctx.setId(static_cast<std::intmax_t>(id)); }
            if (ctx.idx) { *ctx.idx = 0U; }
            return this->m_next.vfRead(fields, msg, iter, len, ctx);
        }
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfWrite(TAll& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        vfPrepare(f, msg);
        auto es = Base::vfWriteField(f, iter, len);
        if (es != ErrorStatus::Success) { return es; }
        return this->m_next.vfWrite(fields, msg, iter, len);
    }
    template <typename TMsg> std::size_t vfFieldLenFor(const TMsg& msg) const { Field f; vfPrepare(f, msg); return f.length(); }
    template <typename TId> MsgPtr createMsg(TId id, unsigned idx = 0U) const { return m_factory.createMsg(static_cast<MsgIdParamType>(id), idx); }
private:
    template <typename TFunc, typename... T> static void vfReal(MsgIdType id, unsigned idx, TMessage& msg, TFunc&& f, std::tuple<T...>*)
    {
        unsigned n = 0;
        auto one = [&](auto* p) {
            using M = std::remove_pointer_t<decltype(p)>;
            if ((M::doGetId() == id) && (n++ == idx)) { f(static_cast<M&>(msg)); }
        };
        (one(static_cast<T*>(nullptr)), ...);
        (void)one; (void)n; (void)id; (void)idx; (void)f; (void)msg;
    }
    template <typename F, typename TMsg> static void vfPrepare(F& f, const TMsg& msg) { f.setValue(vf::msgId(msg)); }
    Factory m_factory;
};
} }
