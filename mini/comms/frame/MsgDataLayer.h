#pragma once
#include "comms/field/ArrayList.h"
#include "comms/frame/VfLayer.h"
namespace comms { namespace frame {
template <typename... TOpts>
class MsgDataLayer
{
public:
    using VfOpts = typename vf::Flat<TOpts...>::type;
    static_assert(vf::AllKnown<VfOpts>::value, "unknown layer option");
    using Field = typename vf::find_t<option::vftag::FieldType, VfOpts>::Type;
    using AllFields = std::tuple<Field>;
    using MsgPtr = void;
    using Message = void;
    static constexpr std::size_t VfLayersCount = 1U;
    template <std::size_t I> using VfLayerAt = MsgDataLayer;
    template <std::size_t I> auto& vfLayerAt() { static_assert(I == 0U, "index"); return *this; }
    template <std::size_t I> const auto& vfLayerAt() const { static_assert(I == 0U, "index"); return *this; }
    template <typename TAll> static auto& accessCachedField(TAll& fields) { return std::get<std::tuple_size<TAll>::value - 1U>(fields); }

    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfRead(TAll& fields, TMsg& msg, TIter& iter, std::size_t len, vf::ReadCtx& ctx)
    {
        auto from = iter;
        auto& f = accessCachedField(fields);
        auto pi = from;
        f.read(pi, len);
        ErrorStatus es = ErrorStatus::Success;
        if constexpr (vf::isPtr<TMsg>::value) {
            if (!msg) { return ErrorStatus::InvalidMsgId; }
            es = vf::msgRead(*msg, iter, len);
        }
        else { es = vf::msgRead(msg, iter, len); }
        if ((es == ErrorStatus::NotEnoughData) && ctx.missing) { *ctx.missing = 1U; }
        return es;
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfWrite(TAll& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto from = iter;
        auto es = vf::msgWrite(msg, iter, len);
        if constexpr (vf::isRandom<TIter>()) {
            if (es == ErrorStatus::Success) {
                auto n = static_cast<std::size_t>(std::distance(from, iter));
                auto pi = reinterpret_cast<const std::uint8_t*>(n ? &*from : nullptr);
                accessCachedField(fields).read(pi, n);
            }
        }
        return es;
    }
    template <typename TAll, typename TMsg, typename TIter>
    ErrorStatus vfUpdate(TAll&, const TMsg*, TIter& iter, std::size_t len) const { std::advance(iter, len); return ErrorStatus::Success; }
    static constexpr std::size_t length() { return 0U; }
    template <typename TMsg> static std::size_t length(const TMsg& msg) { return vf::msgLen(msg); }
};
} }
