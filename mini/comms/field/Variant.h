#pragma once
#include "comms/impl/fieldbase.h"
namespace comms { namespace field {
template <typename TFieldBase, typename TMembers, typename... TOpts>
class Variant : public vf::Common<TFieldBase, TOpts...>
{
    using CB = vf::Common<TFieldBase, TOpts...>;
    static constexpr std::size_t N = std::tuple_size<TMembers>::value;
    template <std::size_t... I> static constexpr std::size_t maxOf(std::index_sequence<I...>) { return std::max({std::size_t(0), std::tuple_element_t<I, TMembers>::maxLength()...}); }
    template <typename T> struct Store;
    template <typename... T> struct Store<std::tuple<T...>> { alignas(T...) unsigned char m[std::max({sizeof(T)...})]; };
public:
    using VfKind = vf::KindVariant;
    using Members = TMembers;
    using ValueType = Store<TMembers>;
    using VfOpts = typename CB::VfOpts;
    Variant()
    {
        if constexpr (vf::has_v<option::vftag::DefVariant, VfOpts>) { vfSelect(vf::find_t<option::vftag::DefVariant, VfOpts>::value); }
    }
    Variant(const Variant& o) : CB(o) { vfCopy(o); }
    Variant(Variant&& o) : CB(o) { vfCopy(o); }
    ~Variant() { vfReset(); }
    Variant& operator=(const Variant& o) { if (this != &o) { vfReset(); vfCopy(o); } return *this; }
    Variant& operator=(Variant&& o) { if (this != &o) { vfReset(); vfCopy(o); } return *this; }

    std::size_t currentField() const { return m_idx; }
    static constexpr std::size_t totalFields() { return N; }
    bool currentFieldValid() const { return m_idx < N; }
    void selectField(std::size_t idx) { if (idx != m_idx) { vfReset(); vfSelect(idx); } }
    void reset() { vfReset(); }
    template <typename TFunc> void currentFieldExec(TFunc&& f) { vfExec(*this, [&f](auto& fld, auto i) { vfCall<decltype(i)::value>(f, fld); }); }
    template <typename TFunc> void currentFieldExec(TFunc&& f) const { vfExec(*this, [&f](auto& fld, auto i) { vfCall<decltype(i)::value>(f, fld); }); }

    template <std::size_t I, typename... A> std::tuple_element_t<I, TMembers>& initField(A&&... a)
    {
        vfReset();
        auto* p = new (&m_store) std::tuple_element_t<I, TMembers>(std::forward<A>(a)...);
        m_idx = I;
        vfInitVersion(*p);
        return *p;
    }
    template <typename F> void vfInitVersion(F& f) { if constexpr (CB::VfVerStored && F::isVersionDependent()) { f.setVersion(CB::getVersion()); } }
    template <std::size_t I> void deinitField()
    {
        COMMS_ASSERT(m_idx == I);
        using F = std::tuple_element_t<I, TMembers>;
        accessField<I>().~F();
        m_idx = N;
    }
    template <std::size_t I> std::tuple_element_t<I, TMembers>& accessField() { COMMS_ASSERT(m_idx == I); return *reinterpret_cast<std::tuple_element_t<I, TMembers>*>(&m_store); }
    template <std::size_t I> const std::tuple_element_t<I, TMembers>& accessField() const { COMMS_ASSERT(m_idx == I); return *reinterpret_cast<const std::tuple_element_t<I, TMembers>*>(&m_store); }

    static constexpr std::size_t minLength() { return 0U; }
    static constexpr std::size_t maxLength() { return maxOf(std::make_index_sequence<N>()); }
    std::size_t length() const { std::size_t r = 0; vfExec(*this, [&r](auto& f, auto) { r = f.length(); }); return r; }
    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        vfReset();
        return CB::vfChecked(*this, vfRead<0>(iter, len));
    }
    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const { auto es = ErrorStatus::Success; vfExec(*this, [&](auto& f, auto) { es = f.write(iter, len); }); return es; }
    bool valid() const { bool r = false; vfExec(*this, [&r](auto& f, auto) { r = f.valid(); }); return r; }
    bool refresh() { bool r = false; vfExec(*this, [&r](auto& f, auto) { r = f.refresh(); }); return r; }
    bool canWrite() const { bool r = true; vfExec(*this, [&r](auto& f, auto) { r = f.canWrite(); }); return r; }
    static constexpr bool isVersionDependent()
    {
        if constexpr (vf::has_v<option::vftag::VerDep, VfOpts>) { return CB::isVersionDependent(); }
        else { return vf::AnyVerDep<TMembers>::value; }
    }
    static constexpr bool vfRealVersionDependent() { return vf::AnyVerDep<TMembers>::value; }
    bool setVersion(unsigned v) { bool r = CB::setVersion(v); vfExec(*this, [&r, v](auto& f, auto) { r = f.setVersion(v) || r; }); return r; }

    template <typename TSelf, typename TF> static void vfExec(TSelf& self, TF&& f) { vfExecI<0>(self, f); }
private:
    template <std::size_t I, typename F, typename T> static void vfCall(F& f, T& fld) { f.template operator()<I>(fld); }
    template <std::size_t I, typename TSelf, typename TF> static void vfExecI(TSelf& self, TF& f)
    {
        if constexpr (I < N) {
            if (self.m_idx == I) { f(self.template accessField<I>(), std::integral_constant<std::size_t, I>()); }
            else { vfExecI<I + 1U>(self, f); }
        }
    }
    template <std::size_t I, typename TIter> ErrorStatus vfRead(TIter& iter, std::size_t len)
    {
        if constexpr (I < N) {
            auto p = iter;
            auto es = initField<I>().read(p, len);
            if (es == ErrorStatus::Success) { iter = p; return es; }
            vfReset();
            return vfRead<I + 1U>(iter, len);
        }
        else { return ErrorStatus::InvalidMsgData; }
    }
    void vfReset() { vfExec(*this, [](auto& f, auto) { using F = std::decay_t<decltype(f)>; f.~F(); }); m_idx = N; }
    template <std::size_t I = 0> void vfSelect(std::size_t idx)
    {
        if constexpr (I < N) { if (idx == I) { initField<I>(); } else { vfSelect<I + 1U>(idx); } }
    }
    void vfCopy(const Variant& o)
    {
        m_idx = N;
        vfExec(o, [this](auto& f, auto i) { this->template initField<decltype(i)::value>() = f; });
    }
    Store<TMembers> m_store;
    std::size_t m_idx = N;
};
} }
