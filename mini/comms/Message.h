#pragma once
#include "comms/options.h"
#include "comms/Field.h"
namespace comms
{
namespace vf
{
struct MessageTag {};
template <typename TOpts, bool B> struct VirtRead {};
template <typename TOpts> struct VirtRead<TOpts, true>
{
    using ReadIterator = typename find_t<option::vftag::ReadIter, TOpts>::Type;
    ErrorStatus read(ReadIterator& iter, std::size_t len) { return readImpl(iter, len); }
protected:
    virtual ErrorStatus readImpl(ReadIterator&, std::size_t) { return ErrorStatus::NotSupported; }
    ~VirtRead() = default;
};
template <typename TOpts, bool B> struct VirtWrite {};
template <typename TOpts> struct VirtWrite<TOpts, true>
{
    using WriteIterator = typename find_t<option::vftag::WriteIter, TOpts>::Type;
    ErrorStatus write(WriteIterator& iter, std::size_t len) const { return writeImpl(iter, len); }
protected:
    virtual ErrorStatus writeImpl(WriteIterator&, std::size_t) const { return ErrorStatus::NotSupported; }
    ~VirtWrite() = default;
};
#define VF_VIRT(N, ret, fn, def, cst) \
template <bool B> struct N {}; \
template <> struct N<true> { ret fn() cst { return fn##Impl(); } protected: virtual ret fn##Impl() cst { return def; } ~N() = default; };
VF_VIRT(VirtLength, std::size_t, length, 0U, const)
VF_VIRT(VirtValid, bool, valid, true, const)
VF_VIRT(VirtName, const char*, name, "", const)
VF_VIRT(VirtRefresh, bool, refresh, false, )
#undef VF_VIRT
template <typename TOpts, bool B> struct VirtId { using MsgIdType = void; using MsgIdParamType = void; };
template <typename TOpts> struct VfIdTypes
{
    using MsgIdType = typename find_t<option::vftag::MsgIdType, TOpts>::Type;
    using MsgIdParamType = MsgIdType;
};
template <typename TOpts, bool B> struct VirtGetId : VfIdTypes<TOpts> {};
template <typename TOpts> struct VirtGetId<TOpts, true> : VfIdTypes<TOpts>
{
    typename VfIdTypes<TOpts>::MsgIdParamType getId() const { return getIdImpl(); }
protected:
    virtual typename VfIdTypes<TOpts>::MsgIdParamType getIdImpl() const = 0;
    ~VirtGetId() = default;
};
template <typename TOpts, bool B> struct VirtDispatch {};
template <typename TOpts> struct VirtDispatch<TOpts, true>
{
    using Handler = typename find_t<option::vftag::Handler, TOpts>::Type;
    using DispatchRetType = typename find_t<option::vftag::Handler, TOpts>::Ret;
    DispatchRetType dispatch(Handler& h) { return dispatchImpl(h); }
protected:
    virtual DispatchRetType dispatchImpl(Handler& h) = 0;
    ~VirtDispatch() = default;
};
template <typename TOpts, bool B> struct TransportBase {};
template <typename TOpts> struct TransportBase<TOpts, true>
{
    using TransportFields = typename find_t<option::vftag::ExtraTransport, TOpts>::Type;
    TransportFields& transportFields() { return m_transportFields; }
    const TransportFields& transportFields() const { return m_transportFields; }
private:
    TransportFields m_transportFields;
};
} // namespace vf

template <typename... TOpts>
class Message :
    public vf::MessageTag,
    public vf::VirtRead<typename vf::Flat<TOpts...>::type, vf::has_v<option::vftag::ReadIter, typename vf::Flat<TOpts...>::type>>,
    public vf::VirtWrite<typename vf::Flat<TOpts...>::type, vf::has_v<option::vftag::WriteIter, typename vf::Flat<TOpts...>::type>>,
    public vf::VirtLength<vf::has_v<option::vftag::LenIface, typename vf::Flat<TOpts...>::type>>,
    public vf::VirtValid<vf::has_v<option::vftag::ValidIface, typename vf::Flat<TOpts...>::type>>,
    public vf::VirtName<vf::has_v<option::vftag::NameIface, typename vf::Flat<TOpts...>::type>>,
    public vf::VirtRefresh<vf::has_v<option::vftag::RefreshIface, typename vf::Flat<TOpts...>::type>>,
    public vf::VirtGetId<typename vf::Flat<TOpts...>::type, vf::has_v<option::vftag::IdIface, typename vf::Flat<TOpts...>::type>>,
    public vf::VirtDispatch<typename vf::Flat<TOpts...>::type, vf::has_v<option::vftag::Handler, typename vf::Flat<TOpts...>::type>>,
    public vf::TransportBase<typename vf::Flat<TOpts...>::type, vf::has_v<option::vftag::ExtraTransport, typename vf::Flat<TOpts...>::type>>
{
public:
    using VfMsgOpts = typename vf::Flat<TOpts...>::type;
    static_assert(vf::AllKnown<VfMsgOpts>::value, "unknown message option");
    using InterfaceOptions = VfMsgOpts;
    static constexpr bool VfPoly =
        vf::has_v<option::vftag::ReadIter, VfMsgOpts> || vf::has_v<option::vftag::WriteIter, VfMsgOpts> || vf::has_v<option::vftag::LenIface, VfMsgOpts> ||
        vf::has_v<option::vftag::ValidIface, VfMsgOpts> || vf::has_v<option::vftag::NameIface, VfMsgOpts> || vf::has_v<option::vftag::RefreshIface, VfMsgOpts> ||
        vf::has_v<option::vftag::IdIface, VfMsgOpts> || vf::has_v<option::vftag::Handler, VfMsgOpts>;
    static constexpr bool vfHasVersion() { return vf::has_v<option::vftag::VersionInTransport, VfMsgOpts>; }
    static constexpr bool vfBig() { if constexpr (vf::has_v<option::vftag::Endian, VfMsgOpts>) { return vf::find_t<option::vftag::Endian, VfMsgOpts>::big; } else { return true; } }
    static constexpr bool hasVersionInTransportFields() { return vfHasVersion(); }
    static constexpr bool hasTransportFields() { return vf::has_v<option::vftag::ExtraTransport, VfMsgOpts>; }
    static constexpr bool hasGetId() { return vf::has_v<option::vftag::IdIface, VfMsgOpts>; }
    static constexpr bool hasRead() { return vf::has_v<option::vftag::ReadIter, VfMsgOpts>; }
    static constexpr bool hasWrite() { return vf::has_v<option::vftag::WriteIter, VfMsgOpts>; }
    static constexpr bool hasLength() { return vf::has_v<option::vftag::LenIface, VfMsgOpts>; }
    static constexpr bool hasDispatch() { return vf::has_v<option::vftag::Handler, VfMsgOpts>; }
    static constexpr bool hasMsgIdType() { return vf::has_v<option::vftag::MsgIdType, VfMsgOpts>; }

    auto& version()
    {
        static_assert(vfHasVersion(), "no version");
        return std::get<vf::find_t<option::vftag::VersionInTransport, VfMsgOpts>::value>(this->transportFields()).value();
    }
    const auto& version() const
    {
        static_assert(vfHasVersion(), "no version");
        return std::get<vf::find_t<option::vftag::VersionInTransport, VfMsgOpts>::value>(this->transportFields()).getValue();
    }
    void vfSetVersion(unsigned v) { std::get<vf::find_t<option::vftag::VersionInTransport, VfMsgOpts>::value>(this->transportFields()).setValue(v); }
    Message() = default;
    Message(const Message&) = default;
    Message(Message&&) = default;
    Message& operator=(const Message&) = default;
    Message& operator=(Message&&) = default;
    virtual ~Message() = default;
};

template <typename T> constexpr bool isMessage() { return std::is_base_of<vf::MessageTag, T>::value; }
} // namespace comms
