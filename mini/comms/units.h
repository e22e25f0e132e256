#pragma once
#include "comms/impl/fieldbase.h"
namespace comms { namespace units {
#define VF_U(n) template <typename F> constexpr bool is##n() { return std::is_same<vf::find_t<option::vftag::Units, typename F::VfOpts>, option::def::Units##n>::value; }
VF_U(Amps) VF_U(Bytes) VF_U(Centimeters) VF_U(CentimetersPerSecond) VF_U(Days) VF_U(Degrees) VF_U(Gigabytes) VF_U(Gigahertz) VF_U(Hertz) VF_U(Hours) VF_U(Kiloamps) VF_U(Kilobytes) VF_U(Kilohertz) VF_U(Kilometers) VF_U(KilometersPerHour) VF_U(KilometersPerSecond) VF_U(Kilovolts) VF_U(Megabytes) VF_U(Megahertz) VF_U(Meters) VF_U(MetersPerSecond) VF_U(Microamps) VF_U(Micrometers) VF_U(MicrometersPerSecond) VF_U(Microseconds) VF_U(Microvolts) VF_U(Milliamps) VF_U(Millimeters) VF_U(MillimetersPerSecond) VF_U(Milliseconds) VF_U(Millivolts) VF_U(Minutes) VF_U(Nanoamps) VF_U(Nanometers) VF_U(NanometersPerSecond) VF_U(Nanoseconds) VF_U(Nanovolts) VF_U(Radians) VF_U(Seconds) VF_U(Terabytes) VF_U(Volts) VF_U(Weeks)
#undef VF_U
} }
