#pragma once
#include "comms/field/IntValue.h"
#include "comms/field/EnumValue.h"
#include "comms/field/BitmaskValue.h"
#include "comms/field/FloatValue.h"
#include "comms/field/Bitfield.h"
#include "comms/field/Bundle.h"
#include "comms/field/String.h"
#include "comms/field/ArrayList.h"
#include "comms/field/Optional.h"
#include "comms/field/Variant.h"
#include "comms/util/Tuple.h"
#include "comms/util/type_traits.h"
namespace comms { namespace field {
template <typename F> constexpr bool isEnumValue() { return std::is_same<typename F::VfKind, comms::vf::KindEnum>::value; }
template <typename F> constexpr bool isBitmaskValue() { return std::is_same<typename F::VfKind, comms::vf::KindSet>::value; }
} }
