#pragma once
#include <cstdio>
#include <cstdlib>
#define COMMS_ASSERT(e) do { if (!(e)) { std::fprintf(stderr, "COMMS_ASSERT failed: %s at %s:%d\n", #e, __FILE__, __LINE__); std::abort(); } } while (0)
