#pragma once
#include "comms/version.h"
#include "comms/Assert.h"
#include "comms/CompileControl.h"
#include "comms/ErrorStatus.h"
#include "comms/options.h"
#include "comms/Field.h"
#include "comms/fields.h"
#include "comms/units.h"
#include "comms/Message.h"
#include "comms/MessageBase.h"
#include "comms/GenericMessage.h"
#include "comms/MsgFactory.h"
#include "comms/MsgFactoryCreateFailureReason.h"
#include "comms/dispatch.h"
#include "comms/process.h"
#include "comms/iterator.h"
#include "comms/cast_assign.h"
#include "comms/util/assign.h"
#include "comms/frame/MsgDataLayer.h"
#include "comms/frame/MsgIdLayer.h"
#include "comms/frame/MsgSizeLayer.h"
#include "comms/frame/SyncPrefixLayer.h"
#include "comms/frame/SyncSuffixLayer.h"
#include "comms/frame/ChecksumLayer.h"
#include "comms/frame/ChecksumPrefixLayer.h"
#include "comms/frame/TransportValueLayer.h"
#include "comms/frame/checksum/BasicSum.h"
#include "comms/frame/checksum/BasicXor.h"
#include "comms/frame/checksum/Crc.h"
