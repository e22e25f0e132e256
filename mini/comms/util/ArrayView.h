#pragma once
#include "comms/util/StringView.h"
