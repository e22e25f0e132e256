#pragma once
#include "comms/MessageBase.h"
namespace comms
{
namespace vf
{
template <typename TAll> struct Disp;
template <typename... T>
struct Disp<std::tuple<T...>>
{
    template <typename TId, typename TMsg, typename THandler>
    static void go(TId id, std::size_t idx, TMsg& msg, THandler& h)
    {
        std::size_t n = 0;
        bool done = false;
        auto one = [&](auto* p) {
            using M = std::remove_pointer_t<decltype(p)>;
            if (done || (static_cast<std::intmax_t>(M::doGetId()) != static_cast<std::intmax_t>(id))) { return; }
            if (n++ == idx) { done = true; h.handle(static_cast<M&>(msg)); }
        };
        (one(static_cast<T*>(nullptr)), ...);
        if (!done) { h.handle(msg); }
    }
};
}
template <typename TAll, typename TId, typename TMsg, typename THandler>
void dispatchMsg(TId id, std::size_t idx, TMsg& msg, THandler& h)
{
    if constexpr (isMessageBase<TMsg>()) { h.handle(msg); }
    else if constexpr (TMsg::hasDispatch()) { if constexpr (std::is_convertible<THandler&, typename TMsg::Handler&>::value) { msg.dispatch(h); } else { vf::Disp<TAll>::go(id, idx, msg, h); } }
    else { vf::Disp<TAll>::go(id, idx, msg, h); }
}
}
