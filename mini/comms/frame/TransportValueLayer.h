#pragma once
#include "comms/frame/VfLayer.h"
namespace comms { namespace frame {
template <typename TField, std::size_t TIdx, typename TNext, typename... TOpts>
class TransportValueLayer : public vf::Layer<TransportValueLayer<TField, TIdx, TNext, TOpts...>, TField, TNext, TOpts...>
{
    using Base = vf::Layer<TransportValueLayer<TField, TIdx, TNext, TOpts...>, TField, TNext, TOpts...>;
    static constexpr bool VfPseudo = vf::has_v<option::vftag::Pseudo, typename Base::VfOpts>;
public:
    static constexpr std::size_t VfIdx = TIdx;
    TField& pseudoField() { static_assert(VfPseudo, "pseudo"); return m_pseudo; }
    const TField& pseudoField() const { static_assert(VfPseudo, "pseudo"); return m_pseudo; }

    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfRead(TAll& fields, TMsg& msg, TIter& iter, std::size_t len, vf::ReadCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        if constexpr (VfPseudo) { vfCopy(f, m_pseudo); }
        else {
            auto es = Base::vfReadField(f, iter, len, ctx);
            if (es != ErrorStatus::Success) { return es; }
        }
        if constexpr (vf::isPtr<TMsg>::value) {
            using M = typename TMsg::element_type;
            if (msg && ctx.idKnown) { vfSet(*msg, f); }
            else if (msg) { vfSet(*msg, f); ctx.pending.push_back([f](void* m) { vfSet(*static_cast<M*>(m), f); }); }
            else { ctx.pending.push_back([f](void* m) { vfSet(*static_cast<M*>(m), f); }); }
        }
        else { vfSet(msg, f); }
        return this->m_next.vfRead(fields, msg, iter, len, ctx);
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfWrite(TAll& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        vfCopy(f, std::get<TIdx>(msg.transportFields()));
        if constexpr (!VfPseudo) {
            auto es = Base::vfWriteField(f, iter, len);
            if (es != ErrorStatus::Success) { return es; }
        }
        return this->m_next.vfWrite(fields, msg, iter, len);
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfUpdate(TAll& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        if constexpr (VfPseudo) { return this->m_next.vfUpdate(fields, msg, iter, len); }
        else { return Base::vfUpdate(fields, msg, iter, len); }
    }
    std::size_t vfFieldLen() const { if constexpr (VfPseudo) { return 0U; } else { return TField().length(); } }
    template <typename TMsg> std::size_t vfFieldLenFor(const TMsg& msg) const
    {
        if constexpr (VfPseudo) { return 0U; }
        else { TField f; vfCopy(f, std::get<TIdx>(msg.transportFields())); return f.length(); }
    }
private:
    template <typename A, typename B> static void vfCopy(A& a, const B& b)
    {
        a.setValue(b.getValue());
    }
    template <typename TMsg> static void vfSet(TMsg& msg, const TField& f) { vfCopy(std::get<TIdx>(msg.transportFields()), f); }
    TField m_pseudo;
};
} }
