#pragma once
#define COMMS_MSVC_WARNING_PUSH
#define COMMS_MSVC_WARNING_POP
#define COMMS_MSVC_WARNING_DISABLE(x)
#define COMMS_MSVC_WARNING_SUPPRESS(x)
#define COMMS_GNU_WARNING_PUSH
#define COMMS_GNU_WARNING_POP
#define COMMS_GNU_WARNING_DISABLE(x)
#define COMMS_HAS_CPP20 0
#define COMMS_HAS_CPP17 1
