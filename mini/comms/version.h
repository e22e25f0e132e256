#pragma once
#define COMMS_MAKE_VERSION(maj, min, pat) ((((maj) & 0xffU) << 24U) | (((min) & 0xffU) << 16U) | (((pat) & 0xffU) << 8U))
#define COMMS_VERSION COMMS_MAKE_VERSION(5U, 9U, 9U)
namespace comms { constexpr unsigned version() { return COMMS_VERSION; } }
