#pragma once
#include "comms/frame/VfLayer.h"
namespace comms { namespace frame {
template <typename TField, typename TCalc, typename TNext, typename... TOpts>
class ChecksumPrefixLayer : public vf::Layer<ChecksumPrefixLayer<TField, TCalc, TNext, TOpts...>, TField, TNext, TOpts...>
{
    using Base = vf::Layer<ChecksumPrefixLayer<TField, TCalc, TNext, TOpts...>, TField, TNext, TOpts...>;
    static constexpr bool VfBefore = vf::has_v<option::vftag::VerifyBefore, typename Base::VfOpts>;
    using VT = typename TField::ValueType;
public:
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfRead(TAll& fields, TMsg& msg, TIter& iter, std::size_t len, vf::ReadCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        auto es = Base::vfReadField(f, iter, len, ctx);
        if (es != ErrorStatus::Success) { return es; }
        auto from = iter;
        if constexpr (VfBefore) {
            auto ci = from;
            if (static_cast<VT>(TCalc()(ci, len)) != f.getValue()) { return ErrorStatus::ProtocolError; }
        }
        es = this->m_next.vfRead(fields, msg, iter, len, ctx);
        if ((es == ErrorStatus::NotEnoughData) || (es == ErrorStatus::ProtocolError)) { return es; }
        if constexpr (!VfBefore) {
            auto n = static_cast<std::size_t>(std::distance(from, iter));
            auto ci = from;
            if (static_cast<VT>(TCalc()(ci, n)) != f.getValue()) {
                if constexpr (vf::isPtr<TMsg>::value) { msg.reset(); }
                return ErrorStatus::ProtocolError;
            }
        }
        return es;
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfWrite(TAll& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        f = std::decay_t<decltype(f)>();
        auto at = iter;
        auto es = Base::vfWriteField(f, iter, len);
        if (es != ErrorStatus::Success) { return es; }
        auto from = iter;
        es = this->m_next.vfWrite(fields, msg, iter, len);
        if constexpr (vf::isRandom<TIter>()) {
            if (es == ErrorStatus::Success) {
                auto ci = from;
                f.setValue(static_cast<VT>(TCalc()(ci, static_cast<std::size_t>(std::distance(from, iter)))));
                return f.write(at, f.length());
            }
        }
        (void)at;
        (void)from;
        return es == ErrorStatus::Success ? ErrorStatus::UpdateRequired : es;
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfUpdate(TAll& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        auto at = iter;
        auto fl = f.length();
        if (len < fl) { return ErrorStatus::BufferOverflow; }
        std::advance(iter, fl);
        auto from = iter;
        auto es = this->m_next.vfUpdate(fields, msg, iter, len - fl);
        if (es != ErrorStatus::Success) { return es; }
        auto ci = from;
        f.setValue(static_cast<VT>(TCalc()(ci, static_cast<std::size_t>(std::distance(from, iter)))));
        return f.write(at, fl);
    }
};
} }
