#pragma once
#include "comms/options.h"
namespace comms
{
template <typename... TOpts>
class Field
{
public:
    using VfBaseOpts = typename vf::Flat<TOpts...>::type;
    static_assert(vf::AllKnown<VfBaseOpts>::value, "unknown option of the field base");
    using VersionType = unsigned;
    static constexpr bool vfBig() { if constexpr (vf::has_v<option::vftag::Endian, VfBaseOpts>) { return vf::find_t<option::vftag::Endian, VfBaseOpts>::big; } else { return true; } }
};
} // namespace comms
