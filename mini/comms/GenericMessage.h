#pragma once
#include "comms/MessageBase.h"
#include "comms/field/ArrayList.h"
namespace comms
{
namespace vf { template <typename TMessage> struct GenF { using Data = field::ArrayList<Field<>, std::uint8_t>; using All = std::tuple<Data>; }; }
template <typename TMessage, typename TFieldOpts = std::tuple<>, typename TExtra = std::tuple<>>
class GenericMessage : public MessageBase<TMessage, option::def::FieldsImpl<typename vf::GenF<TMessage>::All>, option::def::MsgType<GenericMessage<TMessage, TFieldOpts, TExtra>>, option::def::HasName>
{
    using Base = MessageBase<TMessage, option::def::FieldsImpl<typename vf::GenF<TMessage>::All>, option::def::MsgType<GenericMessage<TMessage, TFieldOpts, TExtra>>, option::def::HasName>;
public:
    explicit GenericMessage(typename TMessage::MsgIdParamType id) : m_id(id) {}
    auto doGetId() const { return m_id; }
    static const char* doName() { return "Generic Message"; }
    auto& field_data() { return std::get<0>(Base::fields()); }
    const auto& field_data() const { return std::get<0>(Base::fields()); }
private:
    typename TMessage::MsgIdType m_id;
};
}
