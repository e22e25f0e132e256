#pragma once
#include "comms/dispatch.h"
#include "comms/frame/VfLayer.h"
#include "comms/iterator.h"
namespace comms
{
template <typename TIter, typename TFrame, typename TMsg, typename... TExtra>
ErrorStatus processSingle(TIter& iter, std::size_t len, TFrame& frame, TMsg& msg, TExtra... extra)
{
    return frame.read(msg, iter, len, extra...);
}
namespace vf
{
template <typename TDispatcher, typename TFrame> struct CallDisp
{
    template <typename TId, typename TMsg, typename THandler> static void go(TId id, std::size_t idx, TMsg& msg, THandler& h) { TDispatcher::dispatch(id, idx, msg, h); }
};
template <typename TFrame> struct CallDisp<void, TFrame>
{
    template <typename TId, typename TMsg, typename THandler> static void go(TId id, std::size_t idx, TMsg& msg, THandler& h) { dispatchMsg<typename TFrame::AllMessages>(id, idx, msg, h); }
};
template <typename T> struct FrameAll;
template <typename TDisp, typename TIter, typename TFrame, typename TMsg, typename THandler>
ErrorStatus processDisp(TIter& iter, std::size_t len, TFrame& frame, TMsg& msg, THandler& handler)
{
    if constexpr (isPtr<TMsg>::value) {
        std::size_t idx = 0;
        std::intmax_t id = 0;
        auto es = frame.read(msg, iter, len, frame::msgId(id), frame::msgIndex(idx));
        if (es == ErrorStatus::Success) { CallDisp<TDisp, TFrame>::go(static_cast<typename TMsg::element_type::MsgIdParamType>(id), idx, *msg, handler); }
        return es;
    }
    else {
        auto es = frame.read(msg, iter, len);
        if (es == ErrorStatus::Success) { handler.handle(msg); }
        return es;
    }
}
template <typename M, typename T> auto vfIterFor(T it) 
{
    if constexpr (M::hasRead()) {
        if constexpr (std::is_convertible<T, typename M::ReadIterator>::value) { return readIteratorFor<M>(it); }
        else { return readIteratorFor<M>(&*it); }
    }
    else { return it; }
}
template <typename TDisp, typename TBufIter, typename TFrame, typename THandler>
std::size_t processAll(TBufIter bufIter, std::size_t len, TFrame& frame, THandler& handler)
{
    std::size_t consumed = 0;
    while (consumed < len) {
        typename TFrame::MsgPtr msg;
        using M = typename TFrame::MsgPtr::element_type;
        auto begin = bufIter + static_cast<std::ptrdiff_t>(consumed);
        auto iter = vfIterFor<M>(begin);
        auto from = iter;
        auto es = processDisp<TDisp>(iter, len - consumed, frame, msg, handler);
        if (es == ErrorStatus::NotEnoughData) { break; }
        if (es == ErrorStatus::ProtocolError) { ++consumed; continue; }
        auto d = static_cast<std::size_t>(std::distance(from, iter));
        consumed += (d == 0U) ? 1U : d;
    }
    return consumed;
}
}
template <typename TIter, typename TFrame, typename TMsg, typename THandler>
ErrorStatus processSingleWithDispatch(TIter& iter, std::size_t len, TFrame& frame, TMsg& msg, THandler& handler) { return vf::processDisp<void>(iter, len, frame, msg, handler); }
template <typename TDispatcher, typename TIter, typename TFrame, typename TMsg, typename THandler>
ErrorStatus processSingleWithDispatchViaDispatcher(TIter& iter, std::size_t len, TFrame& frame, TMsg& msg, THandler& handler) { return vf::processDisp<TDispatcher>(iter, len, frame, msg, handler); }
template <typename TBufIter, typename TFrame, typename THandler>
std::size_t processAllWithDispatch(TBufIter it, std::size_t len, TFrame& frame, THandler& handler) { return vf::processAll<void>(it, len, frame, handler); }
template <typename TDispatcher, typename TBufIter, typename TFrame, typename THandler>
std::size_t processAllWithDispatchViaDispatcher(TBufIter it, std::size_t len, TFrame& frame, THandler& handler) { return vf::processAll<TDispatcher>(it, len, frame, handler); }
}
