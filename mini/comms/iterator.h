#pragma once
#include "comms/Message.h"
namespace comms
{
template <typename TMsg, typename T> auto readIteratorFor(T it) { typename TMsg::ReadIterator r = it; return r; }
template <typename TMsg, typename T> auto readIteratorFor(const TMsg&, T it) { typename TMsg::ReadIterator r = it; return r; }
template <typename TMsg, typename T> auto writeIteratorFor(T it)
{
    using W = typename TMsg::WriteIterator;
    return W(it);
}
template <typename TMsg, typename T> auto writeIteratorFor(const TMsg&, T it) { return typename TMsg::WriteIterator(it); }
}
