#pragma once
#include "comms/frame/VfSuffix.h"
namespace comms { namespace frame {
template <typename TField, typename TNext, typename... TOpts>
class SyncSuffixLayer : public vf::Layer<SyncSuffixLayer<TField, TNext, TOpts...>, TField, TNext, TOpts...>
{
    using Base = vf::Layer<SyncSuffixLayer<TField, TNext, TOpts...>, TField, TNext, TOpts...>;
    using Seek = vf::find_t<option::vftag::SeekField, typename Base::VfOpts>;
    static constexpr bool VfBefore = vf::has_v<option::vftag::VerifyBefore, typename Base::VfOpts>;
public:
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfRead(TAll& fields, TMsg& msg, TIter& iter, std::size_t len, vf::ReadCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        auto fl = TField().length();
        if (len < fl) { if (ctx.missing) { *ctx.missing = fl - len; } return ErrorStatus::NotEnoughData; }
        if constexpr (!std::is_void<Seek>::value) {
            using Esc = typename Seek::Type;
            std::size_t pos = 0;
            while (true) {
                if (len < pos + fl) { return ErrorStatus::NotEnoughData; }
                auto at = iter;
                std::advance(at, pos);
                auto fi = at;
                if ((f.read(fi, len - pos) == ErrorStatus::Success) && (f.getValue() == TField().getValue())) { break; }
                std::size_t step = 1U;
                if constexpr (!std::is_same<Esc, option::def::EmptySeek>::value) {
                    Esc e;
                    auto ei = at;
                    if ((Esc::maxLength() != 0U) && (e.read(ei, len - pos) == ErrorStatus::Success) && (e.getValue() == Esc().getValue())) {
                        step = static_cast<std::size_t>(std::distance(at, ei)) + 1U;
                    }
                }
                pos += step;
            }
            auto end = iter;
            std::advance(end, pos + fl);
            auto es = this->m_next.vfRead(fields, msg, iter, pos, ctx);
            if (es == ErrorStatus::NotEnoughData) { es = ErrorStatus::ProtocolError; }
            if (es != ErrorStatus::ProtocolError) { iter = end; }
            return es;
        }
        else {
            auto from = iter;
            if constexpr (VfBefore) {
                auto at = iter;
                std::advance(at, len - fl);
                auto es = f.read(at, fl);
                if (es != ErrorStatus::Success) { return es; }
                if (!(f.getValue() == TField().getValue())) { return ErrorStatus::ProtocolError; }
            }
            auto es = this->m_next.vfRead(fields, msg, iter, len - fl, ctx);
            if ((es == ErrorStatus::NotEnoughData) || (es == ErrorStatus::ProtocolError)) { return es; }
            if constexpr (VfBefore) { iter = from; std::advance(iter, len); return es; }
            else {
                auto rem = len - static_cast<std::size_t>(std::distance(from, iter));
                auto fes = f.read(iter, rem);
                if ((fes == ErrorStatus::Success) && !(f.getValue() == TField().getValue())) { fes = ErrorStatus::ProtocolError; }
                if (fes != ErrorStatus::Success) {
                    if constexpr (vf::isPtr<TMsg>::value) { msg.reset(); }
                    return fes;
                }
                return es;
            }
        }
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfWrite(TAll& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        f = std::decay_t<decltype(f)>();
        auto fl = f.length();
        if (len < fl) { return ErrorStatus::BufferOverflow; }
        auto es = this->m_next.vfWrite(fields, msg, iter, len - fl);
        if ((es != ErrorStatus::Success) && (es != ErrorStatus::UpdateRequired)) { return es; }
        auto wes = f.write(iter, fl);
        return wes == ErrorStatus::Success ? es : wes;
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfUpdate(TAll& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        auto fl = TField().length();
        if (len < fl) { return ErrorStatus::BufferOverflow; }
        auto es = this->m_next.vfUpdate(fields, msg, iter, len - fl);
        if (es == ErrorStatus::Success) { std::advance(iter, fl); }
        return es;
    }
};
} }
