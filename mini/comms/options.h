#pragma once
#include "comms/impl/base.h"
namespace comms
{
namespace option
{
namespace vftag
{
#define VF_TAG(n) struct n {};
VF_TAG(Endian)
VF_TAG(DefNum)
VF_TAG(ValidNum)
VF_TAG(FixedLength)
VF_TAG(FixedBitLength)
VF_TAG(VarLength)
VF_TAG(SerOffset)
VF_TAG(Scaling)
VF_TAG(Units)
VF_TAG(FailOnInvalid)
VF_TAG(IgnoreInvalid)
VF_TAG(EmptySer)
VF_TAG(InvalidByDefault)
VF_TAG(AvailLimit)
VF_TAG(HasName)
VF_TAG(FixedValue)
VF_TAG(VersionStorage)
VF_TAG(DispOffset)
VF_TAG(ReservedBits)
VF_TAG(RemLenMember)
VF_TAG(SizePrefix)
VF_TAG(SerLenPrefix)
VF_TAG(ElemSerLenPrefix)
VF_TAG(ElemFixedSerLenPrefix)
VF_TAG(TermSuffix)
VF_TAG(FixedSize)
VF_TAG(LenForce)
VF_TAG(SizeForce)
VF_TAG(ElemLenForce)
VF_TAG(OptMode)
VF_TAG(ExistsSince)
VF_TAG(ExistsUntil)
VF_TAG(ExistsBetween)
VF_TAG(MissingOnReadFail)
VF_TAG(MissingOnInvalid)
VF_TAG(VarReset)
VF_TAG(CustomRead)
VF_TAG(CustomWrite)
VF_TAG(CustomRefresh)
VF_TAG(CustomValid)
VF_TAG(CustomLength)
VF_TAG(CustomVersionUpdate)
VF_TAG(VerDep)
VF_TAG(FieldType)
VF_TAG(MsgIdType)
VF_TAG(ExtraTransport)
VF_TAG(VersionInTransport)
VF_TAG(NumId)
VF_TAG(FieldsImpl)
VF_TAG(MsgType)
VF_TAG(Pseudo)
VF_TAG(User) // options defined by the application
VF_TAG(SeekField)
VF_TAG(VerifyBefore)
VF_TAG(FixedStorage)
VF_TAG(OrigView)
VF_TAG(FixedUseFixed)
VF_TAG(Empty)
VF_TAG(FactoryTempl)
VF_TAG(InPlace)
VF_TAG(NoRead)
VF_TAG(NoWrite)
VF_TAG(NoRefresh)
VF_TAG(NoDispatch)
VF_TAG(ReadIter)
VF_TAG(WriteIter)
VF_TAG(LenIface)
VF_TAG(IdIface)
VF_TAG(ValidIface)
VF_TAG(NameIface)
VF_TAG(RefreshIface)
VF_TAG(Handler)
VF_TAG(GenericMsg)
VF_TAG(CustomStorage)
VF_TAG(DefVariant)
VF_TAG(NoId)
VF_TAG(DispDecimals)
VF_TAG(VirtDestructor)
VF_TAG(NoVirtDestructor)
VF_TAG(ExtClass)
} // namespace vftag
#define VF_OPT0(name, tag) struct name { using VfTag = vftag::tag; };
#define VF_OPTT(name, tag) template <typename T> struct name { using VfTag = vftag::tag; using Type = T; };
#define VF_OPTS(name, tag) template <std::size_t V> struct name { using VfTag = vftag::tag; static constexpr std::size_t value = V; };
namespace def
{
struct EmptySeek {};
struct BigEndian { using VfTag = vftag::Endian; static constexpr bool big = true; };
struct LittleEndian { using VfTag = vftag::Endian; static constexpr bool big = false; };
template <std::intmax_t V> struct DefaultNumValue { using VfTag = vftag::DefNum; template <typename T> static constexpr T get() { return static_cast<T>(V); } };
template <std::uintmax_t V> struct DefaultBigUnsignedNumValue { using VfTag = vftag::DefNum; template <typename T> static constexpr T get() { return static_cast<T>(V); } };
template <std::intmax_t A, std::intmax_t B> struct ValidNumValueRange { using VfTag = vftag::ValidNum; template <typename T> static bool in(T v) { static_assert(A <= B, "range"); if constexpr (std::is_unsigned<T>::value && sizeof(T) == sizeof(std::intmax_t)) { return static_cast<T>(A) <= v && v <= static_cast<T>(B); } else { return A <= static_cast<std::intmax_t>(v) && static_cast<std::intmax_t>(v) <= B; } } static constexpr bool big = false; static constexpr std::intmax_t a = A, b = B; };
template <std::intmax_t A> struct ValidNumValue : ValidNumValueRange<A, A> {};
template <std::uintmax_t A, std::uintmax_t B> struct ValidBigUnsignedNumValueRange { using VfTag = vftag::ValidNum; template <typename T> static bool in(T v) { static_assert(A <= B, "range"); return static_cast<T>(A) <= v && v <= static_cast<T>(B); } static constexpr bool big = true; static constexpr std::uintmax_t a = A, b = B; };
template <std::uintmax_t A> struct ValidBigUnsignedNumValue : ValidBigUnsignedNumValueRange<A, A> {};
template <std::size_t N, bool TSignExt = true> struct FixedLength { using VfTag = vftag::FixedLength; static constexpr std::size_t value = N; static constexpr bool signExt = TSignExt; };
template <std::size_t N, bool TSignExt = true> struct FixedBitLength { using VfTag = vftag::FixedBitLength; static constexpr std::size_t value = N; static constexpr bool signExt = TSignExt; };
template <std::size_t A, std::size_t B> struct VarLength { using VfTag = vftag::VarLength; static constexpr std::size_t min = A, max = B; static_assert(A <= B, "var length"); };
template <std::intmax_t V> struct NumValueSerOffset { using VfTag = vftag::SerOffset; static constexpr std::intmax_t value = V; };
template <std::intmax_t A, std::intmax_t B> struct ScalingRatio { using VfTag = vftag::Scaling; static constexpr std::intmax_t num = A, den = B; };
template <comms::ErrorStatus TS = comms::ErrorStatus::InvalidMsgData> struct FailOnInvalid { using VfTag = vftag::FailOnInvalid; static constexpr comms::ErrorStatus status = TS; };
VF_OPT0(IgnoreInvalid, IgnoreInvalid)
VF_OPT0(EmptySerialization, EmptySer)
VF_OPT0(InvalidByDefault, InvalidByDefault)
VF_OPT0(AvailableLengthLimit, AvailLimit)
VF_OPT0(HasName, HasName)
VF_OPT0(FixedValue, FixedValue)
struct VersionStorage { using VfTag = vftag::VersionStorage; };
template <std::intmax_t V> struct DisplayOffset { using VfTag = vftag::DispOffset; static constexpr std::intmax_t value = V; };
template <std::uintmax_t M, std::uintmax_t V = 0> struct BitmaskReservedBits { using VfTag = vftag::ReservedBits; static constexpr std::uintmax_t mask = M, bits = V; };
VF_OPTS(RemLengthMemberField, RemLenMember)
VF_OPTT(SequenceSizeFieldPrefix, SizePrefix)
template <typename T, comms::ErrorStatus TS = comms::ErrorStatus::Success> struct SequenceSerLengthFieldPrefix { using VfTag = vftag::SerLenPrefix; using Type = T; static constexpr comms::ErrorStatus status = TS; };
template <typename T, comms::ErrorStatus TS = comms::ErrorStatus::Success> struct SequenceElemSerLengthFieldPrefix { using VfTag = vftag::ElemSerLenPrefix; using Type = T; static constexpr comms::ErrorStatus status = TS; };
template <typename T, comms::ErrorStatus TS = comms::ErrorStatus::Success> struct SequenceElemFixedSerLengthFieldPrefix { using VfTag = vftag::ElemFixedSerLenPrefix; using Type = T; static constexpr comms::ErrorStatus status = TS; };
VF_OPTT(SequenceTerminationFieldSuffix, TermSuffix)
VF_OPTS(SequenceFixedSize, FixedSize)
VF_OPT0(SequenceLengthForcingEnabled, LenForce)
VF_OPT0(SequenceSizeForcingEnabled, SizeForce)
VF_OPT0(SequenceElemLengthForcingEnabled, ElemLenForce)
struct ExistsByDefault { using VfTag = vftag::OptMode; static constexpr int value = 1; };
struct MissingByDefault { using VfTag = vftag::OptMode; static constexpr int value = 2; };
struct OptionalFieldDefaultModeTentative { using VfTag = vftag::OptMode; static constexpr int value = 0; };
template <std::uintmax_t V> struct ExistsSinceVersion { using VfTag = vftag::ExistsSince; static constexpr std::uintmax_t from = V, to = std::numeric_limits<std::uintmax_t>::max(); };
template <std::uintmax_t V> struct ExistsUntilVersion { using VfTag = vftag::ExistsSince; static constexpr std::uintmax_t from = 0, to = V; };
template <std::uintmax_t A, std::uintmax_t B> struct ExistsBetweenVersions { using VfTag = vftag::ExistsSince; static constexpr std::uintmax_t from = A, to = B; };
VF_OPT0(MissingOnReadFail, MissingOnReadFail)
VF_OPT0(MissingOnInvalid, MissingOnInvalid)
VF_OPT0(VariantHasCustomResetOnDestruct, VarReset)
VF_OPTS(DefaultVariantIndex, DefVariant)
VF_OPT0(HasCustomRead, CustomRead)
VF_OPT0(HasCustomWrite, CustomWrite)
VF_OPT0(HasCustomRefresh, CustomRefresh)
VF_OPT0(HasCustomValid, CustomValid)
VF_OPT0(HasCustomVersionUpdate, CustomVersionUpdate)
template <bool T> struct HasVersionDependentMembers { using VfTag = vftag::VerDep; static constexpr bool value = T; };
VF_OPTT(FieldType, FieldType)
VF_OPTT(MsgIdType, MsgIdType)
VF_OPTT(ExtraTransportFields, ExtraTransport)
VF_OPTS(VersionInExtraTransportFields, VersionInTransport)
template <std::intmax_t V> struct StaticNumIdImpl { using VfTag = vftag::NumId; static constexpr std::intmax_t value = V; };
VF_OPTT(FieldsImpl, FieldsImpl)
VF_OPTT(MsgType, MsgType)
VF_OPT0(NoIdImpl, NoId)
VF_OPT0(PseudoValue, Pseudo)
template <typename T = EmptySeek> struct FrameLayerSeekField { using VfTag = vftag::SeekField; using Type = T; };
VF_OPTT(ExtendingClass, ExtClass)
VF_OPT0(FrameLayerVerifyBeforeRead, VerifyBefore)
struct UnitsAmps { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsAmps"; } };
struct UnitsBytes { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsBytes"; } };
struct UnitsCentimeters { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsCentimeters"; } };
struct UnitsCentimetersPerSecond { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsCentimetersPerSecond"; } };
struct UnitsDays { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsDays"; } };
struct UnitsDegrees { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsDegrees"; } };
struct UnitsGigabytes { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsGigabytes"; } };
struct UnitsGigahertz { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsGigahertz"; } };
struct UnitsHertz { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsHertz"; } };
struct UnitsHours { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsHours"; } };
struct UnitsKiloamps { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsKiloamps"; } };
struct UnitsKilobytes { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsKilobytes"; } };
struct UnitsKilohertz { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsKilohertz"; } };
struct UnitsKilometers { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsKilometers"; } };
struct UnitsKilometersPerHour { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsKilometersPerHour"; } };
struct UnitsKilometersPerSecond { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsKilometersPerSecond"; } };
struct UnitsKilovolts { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsKilovolts"; } };
struct UnitsMegabytes { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMegabytes"; } };
struct UnitsMegahertz { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMegahertz"; } };
struct UnitsMeters { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMeters"; } };
struct UnitsMetersPerSecond { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMetersPerSecond"; } };
struct UnitsMicroamps { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMicroamps"; } };
struct UnitsMicrometers { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMicrometers"; } };
struct UnitsMicrometersPerSecond { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMicrometersPerSecond"; } };
struct UnitsMicroseconds { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMicroseconds"; } };
struct UnitsMicrovolts { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMicrovolts"; } };
struct UnitsMilliamps { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMilliamps"; } };
struct UnitsMillimeters { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMillimeters"; } };
struct UnitsMillimetersPerSecond { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMillimetersPerSecond"; } };
struct UnitsMilliseconds { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMilliseconds"; } };
struct UnitsMillivolts { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMillivolts"; } };
struct UnitsMinutes { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsMinutes"; } };
struct UnitsNanoamps { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsNanoamps"; } };
struct UnitsNanometers { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsNanometers"; } };
struct UnitsNanometersPerSecond { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsNanometersPerSecond"; } };
struct UnitsNanoseconds { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsNanoseconds"; } };
struct UnitsNanovolts { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsNanovolts"; } };
struct UnitsRadians { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsRadians"; } };
struct UnitsSeconds { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsSeconds"; } };
struct UnitsTerabytes { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsTerabytes"; } };
struct UnitsVolts { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsVolts"; } };
struct UnitsWeeks { using VfTag = vftag::Units; static const char* unitsName() { return "UnitsWeeks"; } };
} // namespace def
namespace app
{
VF_OPTS(FixedSizeStorage, FixedStorage)
VF_OPT0(OrigDataView, OrigView)
VF_OPT0(SequenceFixedSizeUseFixedSizeStorage, FixedUseFixed)
VF_OPT0(EmptyOption, Empty)
template <template <class, class, class...> class T> struct MsgFactoryTempl { using VfTag = vftag::FactoryTempl; template <class A, class B, class... C> using Type = T<A, B, C...>; };
VF_OPT0(InPlaceAllocation, InPlace)
VF_OPT0(NoReadImpl, NoRead)
VF_OPT0(NoWriteImpl, NoWrite)
VF_OPT0(NoRefreshImpl, NoRefresh)
VF_OPT0(NoDispatchImpl, NoDispatch)
VF_OPTT(ReadIterator, ReadIter)
VF_OPTT(WriteIterator, WriteIter)
VF_OPT0(LengthInfoInterface, LenIface)
VF_OPT0(IdInfoInterface, IdIface)
VF_OPT0(ValidCheckInterface, ValidIface)
VF_OPT0(NameInterface, NameIface)
VF_OPT0(RefreshInterface, RefreshIface)
template <typename T, typename TRet = void> struct Handler { using VfTag = vftag::Handler; using Type = T; using Ret = TRet; };
VF_OPTT(SupportGenericMessage, GenericMsg)
VF_OPTT(CustomStorageType, CustomStorage)
} // namespace app
using namespace def;
using namespace app;
} // namespace option
} // namespace comms
