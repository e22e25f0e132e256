#pragma once
#include "comms/MessageBase.h"
#include "comms/MsgFactoryCreateFailureReason.h"
namespace comms
{
template <typename TInterface, typename TAllMessages, typename... TOpts>
class MsgFactory
{
public:
    using Message = TInterface;
    static constexpr bool VfInPlace = vf::has_v<option::vftag::InPlace, typename vf::Flat<TOpts...>::type>;
    struct InPlaceDel { bool* used = nullptr; void operator()(TInterface* p) const { delete p; *used = false; } };
    using MsgPtr = std::unique_ptr<TInterface, std::conditional_t<VfInPlace, InPlaceDel, std::default_delete<TInterface>>>;
    using MsgIdParamType = typename TInterface::MsgIdParamType;
    using CreateFailureReason = MsgFactoryCreateFailureReason;
    MsgPtr createMsg(MsgIdParamType id, unsigned idx = 0U, CreateFailureReason* reason = nullptr) const
    {
        MsgPtr r;
        unsigned n = 0;
        if (VfInPlace && m_used) { if (reason) { *reason = CreateFailureReason::AllocFailure; } return r; }
        vfEach(static_cast<TAllMessages*>(nullptr), [&](auto* p) {
            using M = std::remove_pointer_t<decltype(p)>;
            if (r || (M::doGetId() != id)) { return; }
            if (n++ == idx) { if constexpr (VfInPlace) { m_used = true; r = MsgPtr(new M, InPlaceDel{&m_used}); } else { r.reset(new M); } }
        });
        if (reason) { *reason = r ? CreateFailureReason::None : CreateFailureReason::InvalidId; }
        return r;
    }
    std::size_t msgCount(MsgIdParamType id) const
    {
        std::size_t n = 0;
        vfEach(static_cast<TAllMessages*>(nullptr), [&](auto* p) { n += (std::remove_pointer_t<decltype(p)>::doGetId() == id) ? 1U : 0U; });
        return n;
    }
    bool canAllocate() const { return !(VfInPlace && m_used); }
private:
    mutable bool m_used = false;
    template <typename... T, typename F> static void vfEach(std::tuple<T...>*, F&& f) { (f(static_cast<T*>(nullptr)), ...); (void)f; }
};
}
