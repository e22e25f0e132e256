// Name defining macros of the COMMS library, re-implemented.
#pragma once
#define VF_E1(...) __VA_ARGS__
#define VF_E2(...) VF_E1(VF_E1(VF_E1(VF_E1(__VA_ARGS__))))
#define VF_E3(...) VF_E2(VF_E2(VF_E2(VF_E2(__VA_ARGS__))))
#define VF_E4(...) VF_E3(VF_E3(VF_E3(VF_E3(__VA_ARGS__))))
#define VF_EXPAND(...) VF_E4(VF_E4(__VA_ARGS__))
#define VF_PARENS ()
#define VF_EACH(m, ...) __VA_OPT__(VF_EXPAND(VF_EACH_I(m, __VA_ARGS__)))
#define VF_EACH_I(m, a, ...) m(a) __VA_OPT__(VF_EACH_A VF_PARENS (m, __VA_ARGS__))
#define VF_EACH_A() VF_EACH_I

#define VF_FIELD_IDX(n) FieldIdx_##n,
#define VF_FIELD_ACC(n) \
    using Field_##n = typename std::tuple_element<FieldIdx_##n, VfNamedTuple>::type; \
    Field_##n& field_##n() { return std::get<FieldIdx_##n>(Base::value()); } \
    const Field_##n& field_##n() const { return std::get<FieldIdx_##n>(Base::value()); }
#define COMMS_FIELD_MEMBERS_NAMES(...) \
    enum FieldIdx : unsigned { VF_EACH(VF_FIELD_IDX, __VA_ARGS__) FieldIdx_numOfValues }; \
    using VfNamedTuple = typename Base::ValueType; \
    static_assert(std::tuple_size<VfNamedTuple>::value == FieldIdx_numOfValues, "names do not match members"); \
    static const std::vector<std::string>& vfNames() { static const auto v = ::comms::vf::splitNames(#__VA_ARGS__); return v; } \
    VF_EACH(VF_FIELD_ACC, __VA_ARGS__)

#define VF_MSG_ACC(n) \
    using Field_##n = typename std::tuple_element<FieldIdx_##n, typename Base::AllFields>::type; \
    Field_##n& field_##n() { return std::get<FieldIdx_##n>(Base::fields()); } \
    const Field_##n& field_##n() const { return std::get<FieldIdx_##n>(Base::fields()); }
#define COMMS_MSG_FIELDS_NAMES(...) \
    enum FieldIdx : unsigned { VF_EACH(VF_FIELD_IDX, __VA_ARGS__) FieldIdx_numOfValues }; \
    static_assert(std::tuple_size<typename Base::AllFields>::value == FieldIdx_numOfValues, "names do not match fields"); \
    static const std::vector<std::string>& vfNames() { static const auto v = ::comms::vf::splitNames(#__VA_ARGS__); return v; } \
    VF_EACH(VF_MSG_ACC, __VA_ARGS__)

#define VF_TR_IDX(n) TransportFieldIdx_##n,
#define VF_TR_ACC(n) \
    using TransportField_##n = typename std::tuple_element<TransportFieldIdx_##n, typename Base::TransportFields>::type; \
    TransportField_##n& transportField_##n() { return std::get<TransportFieldIdx_##n>(Base::transportFields()); } \
    const TransportField_##n& transportField_##n() const { return std::get<TransportFieldIdx_##n>(Base::transportFields()); }
#define COMMS_MSG_TRANSPORT_FIELDS_NAMES(...) \
    enum TransportFieldIdx : unsigned { VF_EACH(VF_TR_IDX, __VA_ARGS__) TransportFieldIdx_numOfValues }; \
    static_assert(std::tuple_size<typename Base::TransportFields>::value == TransportFieldIdx_numOfValues, "names do not match transport fields"); \
    static const std::vector<std::string>& vfTransportNames() { static const auto v = ::comms::vf::splitNames(#__VA_ARGS__); return v; } \
    VF_EACH(VF_TR_ACC, __VA_ARGS__)

// aliases: up to 6 levels
#define VF_AL_C1(p, a) p##field_##a()
#define VF_AL_ACC(a) .field_##a()
#define VF_AL_TYPE(a) ::Field_##a
#define VF_ALIAS_COMMON(name, first, ...) \
    auto field_##name() -> decltype(auto) { return (this->field_##first() VF_EACH(VF_AL_ACC, __VA_ARGS__)); } \
    auto field_##name() const -> decltype(auto) { return (this->field_##first() VF_EACH(VF_AL_ACC, __VA_ARGS__)); } \
    using Field_##name = typename ::comms::vf::identity<Field_##first>::type VF_EACH(VF_AL_TYPE, __VA_ARGS__);
#define COMMS_MSG_FIELD_ALIAS(name, ...) VF_ALIAS_COMMON(name, __VA_ARGS__)
#define COMMS_FIELD_ALIAS(name, ...) VF_ALIAS_COMMON(name, __VA_ARGS__)
#define COMMS_MSG_TRANSPORT_FIELD_ALIAS(name, first, ...) \
    auto transportField_##name() -> decltype(auto) { return (this->transportField_##first() VF_EACH(VF_AL_ACC, __VA_ARGS__)); } \
    auto transportField_##name() const -> decltype(auto) { return (this->transportField_##first() VF_EACH(VF_AL_ACC, __VA_ARGS__)); } \
    using TransportField_##name = typename ::comms::vf::identity<TransportField_##first>::type VF_EACH(VF_AL_TYPE, __VA_ARGS__);

#define VF_LAYER_IDX(n) LayerIdx_##n,
#define VF_LAYER_ACC(n) \
    using Layer_##n = typename Base::template VfLayerAt<(LayerIdx_numOfValues - 1U) - LayerIdx_##n>; \
    Layer_##n& layer_##n() { return static_cast<Base&>(*this).template vfLayerAt<(LayerIdx_numOfValues - 1U) - LayerIdx_##n>(); } \
    const Layer_##n& layer_##n() const { return static_cast<const Base&>(*this).template vfLayerAt<(LayerIdx_numOfValues - 1U) - LayerIdx_##n>(); }
#define COMMS_FRAME_LAYERS_NAMES(...) \
    enum LayerIdx : unsigned { VF_EACH(VF_LAYER_IDX, __VA_ARGS__) LayerIdx_numOfValues }; \
    static_assert(Base::VfLayersCount == LayerIdx_numOfValues, "names do not match layers"); \
    static const std::vector<std::string>& vfLayerNames() { static const auto v = ::comms::vf::splitNames(#__VA_ARGS__); return v; } \
    VF_EACH(VF_LAYER_ACC, __VA_ARGS__)

#define VF_VAR_IDX(n) FieldIdx_##n,
#define VF_VAR_ACC(n) \
    using Field_##n = typename std::tuple_element<FieldIdx_##n, typename Base::Members>::type; \
    Field_##n& initField_##n() { return Base::template initField<FieldIdx_##n>(); } \
    void deinitField_##n() { Base::template deinitField<FieldIdx_##n>(); } \
    Field_##n& accessField_##n() { return Base::template accessField<FieldIdx_##n>(); } \
    const Field_##n& accessField_##n() const { return Base::template accessField<FieldIdx_##n>(); }
#define COMMS_VARIANT_MEMBERS_NAMES(...) \
    enum FieldIdx : unsigned { VF_EACH(VF_VAR_IDX, __VA_ARGS__) FieldIdx_numOfValues }; \
    static_assert(std::tuple_size<typename Base::Members>::value == FieldIdx_numOfValues, "names do not match members"); \
    static const std::vector<std::string>& vfNames() { static const auto v = ::comms::vf::splitNames(#__VA_ARGS__); return v; } \
    VF_EACH(VF_VAR_ACC, __VA_ARGS__)

#define VF_BIT_IDX(n) BitIdx_##n,
#define VF_BIT_ACC(n) \
    bool getBitValue_##n() const { return Base::getBitValue(BitIdx_##n); } \
    void setBitValue_##n(bool v) { Base::setBitValue(BitIdx_##n, v); }
#define VF_BIT_LIST(n) , #n
#define VF_BIT_VAL(n) out.emplace_back(#n, static_cast<unsigned>(BitIdx_##n));
#define COMMS_BITMASK_BITS(...) enum BitIdx : unsigned { VF_EACH(VF_BIT_IDX, __VA_ARGS__) BitIdx_numOfValues };
#define COMMS_BITMASK_BITS_ACCESS(...) \
    VF_EACH(VF_BIT_ACC, __VA_ARGS__) \
    static std::vector<std::pair<std::string, unsigned>> vfBits() { std::vector<std::pair<std::string, unsigned>> out; VF_EACH(VF_BIT_VAL, __VA_ARGS__) return out; }
#define COMMS_BITMASK_BITS_SEQ(...) COMMS_BITMASK_BITS(__VA_ARGS__) COMMS_BITMASK_BITS_ACCESS(__VA_ARGS__)
