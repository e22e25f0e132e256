#pragma once
#include "comms/frame/VfLayer.h"
namespace comms { namespace frame {
template <typename TField, typename TNext, typename... TOpts>
class SyncPrefixLayer : public vf::Layer<SyncPrefixLayer<TField, TNext, TOpts...>, TField, TNext, TOpts...>
{
    using Base = vf::Layer<SyncPrefixLayer<TField, TNext, TOpts...>, TField, TNext, TOpts...>;
    using Seek = vf::find_t<option::vftag::SeekField, typename Base::VfOpts>;
public:
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfRead(TAll& fields, TMsg& msg, TIter& iter, std::size_t len, vf::ReadCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        if constexpr (!std::is_void<Seek>::value) {
            using Esc = typename Seek::Type;
            while (true) {
                auto at = iter;
                auto es = f.read(at, len);
                if (es == ErrorStatus::NotEnoughData) { return es; }
                if ((es == ErrorStatus::Success) && (f.getValue() == TField().getValue())) { break; }
                std::size_t step = 1U;
                if constexpr (!std::is_same<Esc, option::def::EmptySeek>::value) {
                    Esc e;
                    auto ei = iter;
                    if ((Esc::maxLength() != 0U) && (e.read(ei, len) == ErrorStatus::Success) && (e.getValue() == Esc().getValue())) {
                        step = std::min(len, static_cast<std::size_t>(std::distance(iter, ei)) + 1U);
                    }
                }
                std::advance(iter, step);
                len -= step;
            }
        }
        auto es = Base::vfReadField(f, iter, len, ctx);
        if (es != ErrorStatus::Success) { return es; }
        if (!(f.getValue() == TField().getValue())) { return ErrorStatus::ProtocolError; }
        return this->m_next.vfRead(fields, msg, iter, len, ctx);
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfWrite(TAll& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        f = std::decay_t<decltype(f)>();
        auto es = Base::vfWriteField(f, iter, len);
        if (es != ErrorStatus::Success) { return es; }
        return this->m_next.vfWrite(fields, msg, iter, len);
    }
};
} }
