#pragma once
#include "comms/frame/VfLayer.h"
namespace comms { namespace frame {
template <typename TField, typename TNext, typename... TOpts>
class MsgSizeLayer : public vf::Layer<MsgSizeLayer<TField, TNext, TOpts...>, TField, TNext, TOpts...>
{
    using Base = vf::Layer<MsgSizeLayer<TField, TNext, TOpts...>, TField, TNext, TOpts...>;
public:
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfRead(TAll& fields, TMsg& msg, TIter& iter, std::size_t len, vf::ReadCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        auto es = Base::vfReadField(f, iter, len, ctx);
        if (es != ErrorStatus::Success) { return es; }
        auto req = static_cast<std::size_t>(f.getValue());
        if (len < req) {
            if (ctx.missing) { *ctx.missing = req - len; }
            return ErrorStatus::NotEnoughData;
        }
        auto from = iter;
        es = this->m_next.vfRead(fields, msg, iter, req, ctx);
        if (es == ErrorStatus::NotEnoughData) {
            if (ctx.missing) { *ctx.missing = 0U; }
            es = ErrorStatus::ProtocolError;
        }
        if (es != ErrorStatus::ProtocolError) {
            iter = from;
            std::advance(iter, req);
        }
        return es;
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfWrite(TAll& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        if constexpr (vf::hasLen<TMsg>()) {
            f.setValue(this->m_next.length(msg));
            auto es = Base::vfWriteField(f, iter, len);
            if (es != ErrorStatus::Success) { return es; }
            return this->m_next.vfWrite(fields, msg, iter, len);
        }
        else {
            f.setValue(0U);
            auto at = iter;
            auto es = Base::vfWriteField(f, iter, len);
            if (es != ErrorStatus::Success) { return es; }
            auto from = iter;
            es = this->m_next.vfWrite(fields, msg, iter, len);
            if constexpr (vf::isRandom<TIter>()) {
                if ((es != ErrorStatus::Success) && (es != ErrorStatus::UpdateRequired)) { return es; }
                f.setValue(static_cast<std::size_t>(std::distance(from, iter)));
                f.write(at, f.length());
                return es;
            }
            else { (void)at; (void)from; return es == ErrorStatus::Success ? ErrorStatus::UpdateRequired : es; }
        }
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfUpdate(TAll& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        if (len < f.length()) { return ErrorStatus::BufferOverflow; }
        f.setValue(len - f.length());
        auto es = Base::vfWriteField(f, iter, len);
        if (es != ErrorStatus::Success) { return es; }
        return this->m_next.vfUpdate(fields, msg, iter, len);
    }
    template <typename TMsg> std::size_t vfFieldLenFor(const TMsg& msg) const
    {
        TField f;
        if constexpr (vf::hasLen<TMsg>()) { f.setValue(this->m_next.length(msg)); }
        return f.length();
    }
};
} }
