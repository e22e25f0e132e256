// Layers which put their field behind (or in front of) the data they cover.
#pragma once
#include "comms/frame/VfLayer.h"
namespace comms
{
namespace vf
{
template <typename TDerived, typename TField, typename TNext, typename... TOpts>
class SuffixLayer : public Layer<TDerived, TField, TNext, TOpts...>
{
    using Base = Layer<TDerived, TField, TNext, TOpts...>;
public:
    using Field = TField;
    static constexpr bool VfBefore = has_v<option::vftag::VerifyBefore, typename Base::VfOpts>;
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfRead(TAll& fields, TMsg& msg, TIter& iter, std::size_t len, ReadCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        auto from = iter;
        if constexpr (VfBefore) {
            auto fl = TField().length();
            if (len < fl) { return ErrorStatus::NotEnoughData; }
            auto cover = len - fl;
            auto ti = iter;
            std::advance(ti, cover);
            auto es = f.read(ti, fl);
            if (es != ErrorStatus::Success) { return es; }
            if (!this->self().template vfMatches<const typename Base::Message>(f, from, cover, nullptr)) { return ErrorStatus::ProtocolError; }
            es = this->m_next.vfRead(fields, msg, iter, cover, ctx);
            if (es == ErrorStatus::Success) {
                iter = from;
                std::advance(iter, len);
            }
            return es;
        }
        else {
            auto fl = TField::minLength();
            if (len < fl) { return ErrorStatus::NotEnoughData; }
            auto es = this->m_next.vfRead(fields, msg, iter, len - fl, ctx);
            if ((es == ErrorStatus::NotEnoughData) || (es == ErrorStatus::ProtocolError)) { return es; }
            auto cover = static_cast<std::size_t>(std::distance(from, iter));
            auto rem = len - cover;
            auto fes = [&]() {
                if constexpr (isPtr<TMsg>::value) { return this->self().vfReadSuffix(msg.get(), f, iter, rem); }
                else { return this->self().vfReadSuffix(&msg, f, iter, rem); }
            }();
            bool ok = (fes == ErrorStatus::Success);
            if (ok) {
                if constexpr (isPtr<TMsg>::value) { ok = this->self().vfMatches(f, from, cover, msg.get()); }
                else { ok = this->self().vfMatches(f, from, cover, &msg); }
            }
            else {
                if constexpr (isPtr<TMsg>::value) { msg.reset(); }
                return fes;
            }
            if (!ok) {
                if constexpr (isPtr<TMsg>::value) { msg.reset(); }
                return ErrorStatus::ProtocolError;
            }
            return es;
        }
    }
    template <typename TMsgP, typename TIter> ErrorStatus vfReadSuffix(const TMsgP*, Field& f, TIter& iter, std::size_t len) const { return f.read(iter, len); }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfWrite(TAll& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        auto from = iter;
        auto fl = this->self().vfFieldLenFor(msg);
        if (len < fl) { return ErrorStatus::BufferOverflow; }
        auto es = this->m_next.vfWrite(fields, msg, iter, len - fl);
        if ((es != ErrorStatus::Success) && (es != ErrorStatus::UpdateRequired)) { return es; }
        if constexpr (isRandom<TIter>()) {
            if (es == ErrorStatus::Success) {
                auto cover = static_cast<std::size_t>(std::distance(from, iter));
                this->self().vfFill(f, from, cover, &msg);
                return this->self().vfWriteSuffix(&msg, f, iter, fl);
            }
        }
        f = std::decay_t<decltype(f)>();
        auto wes = this->self().vfWriteSuffix(&msg, f, iter, fl);
        if (wes != ErrorStatus::Success) { return wes; }
        return TDerived::VfNeedsUpdate ? ErrorStatus::UpdateRequired : es;
    }
    template <typename TMsgP, typename TIter> ErrorStatus vfWriteSuffix(const TMsgP*, const Field& f, TIter& iter, std::size_t len) const { return f.write(iter, len); }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfUpdate(TAll& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        auto from = iter;
        auto fl = TField().length();
        if (len < fl) { return ErrorStatus::BufferOverflow; }
        auto es = this->m_next.vfUpdate(fields, msg, iter, len - fl);
        if (es != ErrorStatus::Success) { return es; }
        auto cover = static_cast<std::size_t>(std::distance(from, iter));
        this->self().vfFill(f, from, cover, msg);
        return this->self().vfWriteSuffix(msg, f, iter, fl);
    }
};
}
}
