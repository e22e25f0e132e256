#pragma once
#include "comms/frame/VfSuffix.h"
namespace comms
{
namespace vf
{
template <typename T, typename TDef> struct ExtOf { using type = typename T::Type; };
template <typename TDef> struct ExtOf<void, TDef> { using type = TDef; };
}
namespace frame {
template <typename TField, typename TCalc, typename TNext, typename... TOpts>
class ChecksumLayer : public vf::SuffixLayer<ChecksumLayer<TField, TCalc, TNext, TOpts...>, TField, TNext, TOpts...>
{
    using Base = vf::SuffixLayer<ChecksumLayer<TField, TCalc, TNext, TOpts...>, TField, TNext, TOpts...>;
    using Ext = typename vf::ExtOf<vf::find_t<option::vftag::ExtClass, typename Base::VfOpts>, ChecksumLayer>::type;
public:
    using Field = TField;
    static constexpr bool VfNeedsUpdate = true;
    template <typename TMsg, typename TIter>
    static typename Field::ValueType calculateChecksum(const TMsg*, TIter& iter, std::size_t len, bool& ok)
    {
        ok = true;
        return static_cast<typename Field::ValueType>(TCalc()(iter, len));
    }
    template <typename TMsg, typename TIter> static ErrorStatus readField(const TMsg*, Field& f, TIter& iter, std::size_t len) { return f.read(iter, len); }
    template <typename TMsg, typename TIter> static ErrorStatus writeField(const TMsg*, const Field& f, TIter& iter, std::size_t len) { return f.write(iter, len); }
    template <typename TMsg> static std::size_t getFieldLength(const TMsg*) { return Field().length(); }

    template <typename TMsgP, typename TIter> ErrorStatus vfReadSuffix(const TMsgP* m, Field& f, TIter& iter, std::size_t len) const { return Ext::readField(m, f, iter, len); }
    template <typename TMsgP, typename TIter> ErrorStatus vfWriteSuffix(const TMsgP* m, const Field& f, TIter& iter, std::size_t len) const { return Ext::writeField(m, f, iter, len); }
    template <typename TMsgP, typename TIter>
    bool vfMatches(const Field& f, TIter from, std::size_t len, TMsgP* m) const
    {
        bool ok = true;
        auto v = Ext::calculateChecksum(m, from, len, ok);
        return ok && (f.getValue() == v);
    }
    template <typename TIter, typename TMsgP>
    void vfFill(Field& f, TIter from, std::size_t len, const TMsgP* m) const
    {
        bool ok = true;
        f.setValue(Ext::calculateChecksum(m, from, len, ok));
    }
    template <typename TMsg> std::size_t vfFieldLenFor(const TMsg& m) const { return Ext::getFieldLength(&m); }
};
} }
