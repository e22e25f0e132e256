#pragma once
namespace comms
{
enum class ErrorStatus { Success, UpdateRequired, NotEnoughData, ProtocolError, BufferOverflow, InvalidMsgId, InvalidMsgData, MsgAllocFailure, NotSupported, NumOfErrorStatuses };
}
