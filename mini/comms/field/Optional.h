#pragma once
#include "comms/impl/fieldbase.h"
#include "comms/field/OptionalMode.h"
namespace comms { namespace field {
template <typename TField, typename... TOpts>
class Optional : public vf::Common<comms::Field<>, TOpts...>
{
    using CB = vf::Common<comms::Field<>, TOpts...>;
public:
    using VfKind = vf::KindOptional;
    using Field = TField;
    using ValueType = TField;
    using Mode = OptionalMode;
    using VfOpts = typename CB::VfOpts;
    Optional() = default;
    TField& field() { return m_field; }
    const TField& field() const { return m_field; }
    TField& value() { return m_field; }
    const TField& value() const { return m_field; }
    const TField& getValue() const { return m_field; }
    template <typename U> void setValue(U&& v) { m_field = std::forward<U>(v); }
    Mode getMode() const { return m_mode; }
    void setMode(Mode m) { COMMS_ASSERT(m < Mode::NumOfModes); m_mode = m; }
    bool doesExist() const { return m_mode == Mode::Exists; }
    bool isMissing() const { return m_mode == Mode::Missing; }
    bool isTentative() const { return m_mode == Mode::Tentative; }
    void setExists() { m_mode = Mode::Exists; }
    void setMissing() { m_mode = Mode::Missing; }
    void setTentative() { m_mode = Mode::Tentative; }
    static constexpr std::size_t minLength() { return 0U; }
    static constexpr std::size_t maxLength() { return TField::maxLength(); }
    std::size_t length() const { return doesExist() ? m_field.length() : 0U; }
    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        if (m_mode == Mode::Missing) { return ErrorStatus::Success; }
        if ((m_mode == Mode::Tentative) && (len == 0U)) { m_mode = Mode::Missing; return ErrorStatus::Success; }
        auto from = iter;
        auto es = m_field.read(iter, len);
        if (es == ErrorStatus::Success) { m_mode = Mode::Exists; }
        else if (vf::has_v<option::vftag::MissingOnReadFail, VfOpts>) { m_mode = Mode::Missing; iter = from; return ErrorStatus::Success; }
        if (vf::has_v<option::vftag::MissingOnInvalid, VfOpts>) {
            if ((es == ErrorStatus::Success) && (!CB::vfValid(*this))) { m_mode = Mode::Missing; iter = from; return ErrorStatus::Success; }
        }
        return CB::vfChecked(*this, es);
    }
    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const { return doesExist() ? m_field.write(iter, len) : ErrorStatus::Success; }
    bool valid() const { return (!doesExist()) || m_field.valid(); }
    bool refresh()
    {
        if (!doesExist()) { return false; }
        bool r = m_field.refresh();
        if (vf::has_v<option::vftag::MissingOnInvalid, VfOpts> && !CB::vfValid(*this)) { m_mode = Mode::Missing; r = true; }
        return r;
    }
    bool canWrite() const { return (!doesExist()) || m_field.canWrite(); }
    static constexpr bool isVersionDependent()
    {
        return vf::has_v<option::vftag::ExistsSince, VfOpts> || TField::isVersionDependent();
    }
    static constexpr bool vfRealVersionDependent() { return isVersionDependent(); }
    bool setVersion(unsigned v)
    {
        bool r = CB::setVersion(v);
        r = m_field.setVersion(v) || r;
        using R = vf::find_t<option::vftag::ExistsSince, VfOpts>;
        if constexpr (!std::is_void<R>::value) {
            auto m = ((R::from <= v) && (v <= R::to)) ? Mode::Exists : Mode::Missing;
            if (m != m_mode) { m_mode = m; r = true; }
        }
        return r;
    }
private:
    static constexpr Mode vfDefMode()
    {
        if constexpr (vf::has_v<option::vftag::OptMode, VfOpts>) { return static_cast<Mode>(vf::find_t<option::vftag::OptMode, VfOpts>::value); }
        else { return Mode::Tentative; }
    }
    TField m_field;
    Mode m_mode = vfDefMode();
};
} }
