// Observation of generated fields and messages: description, value trees, reading and writing.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cinttypes>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include "comms/comms.h"
#include "comms/fields.h"

namespace refl
{
using S = std::string;
using comms::vf::has_v;
using comms::vf::find_t;
namespace t = comms::option::vftag;

inline void num(S& o, long long v) { char b[32]; std::snprintf(b, sizeof(b), "%lld", v); o += b; }
inline void unum(S& o, unsigned long long v) { char b[32]; std::snprintf(b, sizeof(b), "%llu", v); o += b; }
inline void str(S& o, const char* s)
{
    if (!s) { o += "null"; return; }
    o += '"';
    for (; *s; ++s) {
        auto c = static_cast<unsigned char>(*s);
        if (c == '"' || c == '\\') { o += '\\'; o += *s; }
        else if (c < 0x20) { char b[8]; std::snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
        else { o += *s; }
    }
    o += '"';
}
inline void hex(S& o, const std::uint8_t* p, std::size_t n)
{
    static const char D[] = "0123456789abcdef";
    o += '"';
    for (std::size_t i = 0; i < n; ++i) { o += D[p[i] >> 4]; o += D[p[i] & 15]; }
    o += '"';
}
inline int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
inline std::vector<std::uint8_t> unhex(const S& s)
{
    std::vector<std::uint8_t> r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) { r.push_back(static_cast<std::uint8_t>(hv(s[i]) * 16 + hv(s[i + 1]))); }
    return r;
}
inline void key(S& o, const char* k) { if (o.back() != '{') { o += ','; } o += '"'; o += k; o += "\":"; }
inline void sep(S& o) { if (o.back() != '[') { o += ','; } }
inline void len(S& o, std::size_t v) { if (v == comms::vf::MaxLen) { o += "-1"; } else { unum(o, v); } }

template <typename T> void anyint(S& o, T v)
{
    if constexpr (std::is_enum<T>::value) { anyint(o, static_cast<std::underlying_type_t<T>>(v)); }
    else if constexpr (std::is_signed<T>::value) { num(o, static_cast<long long>(v)); }
    else { unum(o, static_cast<unsigned long long>(v)); }
}
template <typename T> void flt(S& o, T v)
{
    std::conditional_t<sizeof(T) == 4U, std::uint32_t, std::uint64_t> u;
    std::memcpy(&u, &v, sizeof(T));
    char b[32]; std::snprintf(b, sizeof(b), "\"%0*llx\"", static_cast<int>(sizeof(T) * 2), static_cast<unsigned long long>(u)); o += b;
}

template <typename F> using Kind = typename F::VfKind;
template <typename F, typename K> constexpr bool is = std::is_same<Kind<F>, K>::value;
template <typename F> constexpr bool isNum = is<F, comms::vf::KindInt> || is<F, comms::vf::KindEnum> || is<F, comms::vf::KindSet>;
template <typename F> constexpr bool isSeq = is<F, comms::vf::KindString> || is<F, comms::vf::KindList>;

// ---------------------------------------------------------------- value tree
template <typename F> void val(S& o, const F& f)
{
    if constexpr (isNum<F>) { anyint(o, f.getValue()); }
    else if constexpr (is<F, comms::vf::KindFloat>) { flt(o, f.getValue()); }
    else if constexpr (is<F, comms::vf::KindBitfield> || is<F, comms::vf::KindBundle>) {
        o += '[';
        comms::vf::forAll(f.getValue(), [&o](auto& m, auto) { sep(o); val(o, m); });
        o += ']';
    }
    else if constexpr (isSeq<F>) {
        if constexpr (F::VfRaw) { auto& v = f.getValue(); hex(o, reinterpret_cast<const std::uint8_t*>(v.size() ? &v[0] : nullptr), v.size()); }
        else { o += '['; for (auto& e : f.getValue()) { sep(o); val(o, e); } o += ']'; }
    }
    else if constexpr (is<F, comms::vf::KindOptional>) {
        o += "{\"m\":"; num(o, static_cast<int>(f.getMode())); o += ",\"f\":"; val(o, f.field()); o += '}';
    }
    else {
        bool any = false;
        o += "{\"i\":"; num(o, static_cast<long long>(f.currentField() < std::tuple_size<typename F::Members>::value ? f.currentField() : std::size_t(-1)));
        o += ",\"f\":";
        F::vfExec(f, [&](auto& m, auto) { any = true; val(o, m); });
        if (!any) { o += "null"; }
        o += '}';
    }
}

// parser of the same trees
struct In
{
    const char* p;
    void ws() { while (*p == ' ' || *p == ',' || *p == ':') { ++p; } }
    char peek() { ws(); return *p; }
    void eat(char c) { ws(); if (*p != c) { std::fprintf(stderr, "driver input: expected %c at %.20s\n", c, p); std::exit(99); } ++p; }
    bool end(char c) { if (peek() == c) { ++p; return true; } return false; }
    S text() { eat('"'); S r; while (*p && *p != '"') { r += *p++; } if (*p) { ++p; } return r; }
    unsigned long long integer() { ws(); bool neg = (*p == '-'); if (neg) { ++p; } unsigned long long v = std::strtoull(p, const_cast<char**>(&p), 10); return neg ? 0ULL - v : v; }
};
template <typename F> void setv(In& in, F& f)
{
    if constexpr (isNum<F>) { auto v = in.integer(); f.setValue(static_cast<typename F::ValueType>(static_cast<typename F::VfInt>(v))); }
    else if constexpr (is<F, comms::vf::KindFloat>) {
        auto s = in.text();
        auto u = static_cast<std::conditional_t<sizeof(typename F::ValueType) == 4U, std::uint32_t, std::uint64_t>>(std::strtoull(s.c_str(), nullptr, 16));
        typename F::ValueType v; std::memcpy(&v, &u, sizeof(v));
        f.setValue(v);
    }
    else if constexpr (is<F, comms::vf::KindBitfield> || is<F, comms::vf::KindBundle>) {
        in.eat('[');
        comms::vf::forAll(f.value(), [&in](auto& m, auto) { setv(in, m); });
        in.eat(']');
    }
    else if constexpr (isSeq<F>) {
        if constexpr (F::VfRaw) {
            auto b = unhex(in.text());
            std::vector<typename F::ElementType> v(b.begin(), b.end());
            static std::vector<std::vector<typename F::ElementType>> keep;
            if constexpr (F::VfView) { keep.push_back(v); f.setValue(typename F::ValueType(keep.back().data(), keep.back().size())); }
            else { f.value().assign(v.begin(), v.end()); }
        }
        else {
            in.eat('[');
            f.value().clear();
            while (!in.end(']')) { f.value().resize(f.value().size() + 1U); setv(in, f.value().back()); }
        }
    }
    else if constexpr (is<F, comms::vf::KindOptional>) {
        in.eat('{'); in.text();
        auto m = in.integer();
        in.text(); setv(in, f.field());
        in.eat('}');
        f.setMode(static_cast<typename F::Mode>(m));
    }
    else {
        in.eat('{'); in.text();
        auto i = static_cast<std::size_t>(in.integer());
        in.text();
        if (in.peek() == 'n') { in.p += 4; f.reset(); }
        else { f.selectField(i); F::vfExec(f, [&in](auto& m, auto) { setv(in, m); }); }
        in.eat('}');
    }
}

// ---------------------------------------------------------------- description
#define REFL_HAS(fn) \
template <typename F, typename = void> struct Has_##fn : std::false_type {}; \
template <typename F> struct Has_##fn<F, std::void_t<decltype(std::declval<F&>().fn())>> : std::true_type {};
REFL_HAS(name)
REFL_HAS(specialNamesMap)
REFL_HAS(valueNamesMap)
#undef REFL_HAS
template <typename F, typename = void> struct HasBits : std::false_type {};
template <typename F> struct HasBits<F, std::void_t<decltype(F::bitName(static_cast<typename F::BitIdx>(0)))>> : std::true_type {};
template <typename F, typename = void> struct HasNames : std::false_type {};
template <typename F> struct HasNames<F, std::void_t<decltype(F::vfNames())>> : std::true_type {};

template <typename F> void desc(S& o);
template <typename TTuple, std::size_t... I> void descAll(S& o, std::index_sequence<I...>) { ((sep(o), desc<std::tuple_element_t<I, TTuple>>(o)), ...); }
template <typename Tag, typename F> void descOpt(S& o, const char* k)
{
    using P = find_t<Tag, typename F::VfOpts>;
    if constexpr (!std::is_void<P>::value) { key(o, k); desc<typename P::Type>(o); }
    else { (void)o; (void)k; }
}
template <typename TF> void desc(S& o)
{
    using F = std::decay_t<TF>;
    using O = typename F::VfOpts;
    F f;
    o += '{';
    key(o, "k");
    str(o, is<F, comms::vf::KindInt> ? "int" : is<F, comms::vf::KindEnum> ? "enum" : is<F, comms::vf::KindSet> ? "set" : is<F, comms::vf::KindFloat> ? "float" :
        is<F, comms::vf::KindBitfield> ? "bitfield" : is<F, comms::vf::KindBundle> ? "bundle" : is<F, comms::vf::KindString> ? "string" : is<F, comms::vf::KindList> ? "list" :
        is<F, comms::vf::KindOptional> ? "optional" : "variant");
    if constexpr (Has_name<F>::value) { key(o, "n"); str(o, f.name()); }
    key(o, "d"); val(o, f);
    key(o, "l"); len(o, f.length());
    key(o, "mn"); len(o, F::minLength());
    key(o, "mx"); len(o, F::maxLength());
    key(o, "ok"); o += f.valid() ? "1" : "0";
    key(o, "vd"); o += F::isVersionDependent() ? "1" : "0";
    if constexpr (has_v<t::FailOnInvalid, O>) { key(o, "fi"); num(o, static_cast<int>(find_t<t::FailOnInvalid, O>::status)); }
    if constexpr (has_v<t::IgnoreInvalid, O>) { key(o, "ii"); o += "1"; }
    if constexpr (has_v<t::FixedValue, O>) { key(o, "fx"); o += "1"; }
    if constexpr (has_v<t::EmptySer, O>) { key(o, "ps"); o += "1"; }
    if constexpr (has_v<t::AvailLimit, O>) { key(o, "al"); o += "1"; }
    if constexpr (has_v<t::Units, O>) { key(o, "un"); str(o, find_t<t::Units, O>::unitsName()); }
    if constexpr (has_v<t::Scaling, O>) { key(o, "sc"); o += '['; num(o, find_t<t::Scaling, O>::num); o += ','; num(o, find_t<t::Scaling, O>::den); o += ']'; }
    if constexpr (has_v<t::DispOffset, O>) { key(o, "do"); num(o, find_t<t::DispOffset, O>::value); }
    if constexpr (has_v<t::DispDecimals, O>) { key(o, "dd"); o += "1"; }
    key(o, "hn"); o += has_v<t::HasName, O> ? "1" : "0";
    if constexpr (isNum<F>) {
        key(o, "sg"); o += std::is_signed<typename F::VfInt>::value ? "1" : "0";
        key(o, "sz"); num(o, sizeof(typename F::VfInt));
        key(o, "big"); o += F::vfBigEndian() ? "1" : "0";
    }
    if constexpr (is<F, comms::vf::KindFloat>) { key(o, "sz"); num(o, sizeof(typename F::ValueType)); key(o, "big"); o += F::vfBigEndian() ? "1" : "0"; }
    if constexpr (Has_specialNamesMap<F>::value) {
        key(o, "sp"); o += '[';
        auto m = F::specialNamesMap();
        for (std::size_t i = 0; i < m.second; ++i) {
            sep(o); o += '['; 
            if constexpr (is<F, comms::vf::KindFloat>) { flt(o, m.first[i].first); } else { anyint(o, m.first[i].first); }
            o += ','; str(o, m.first[i].second); o += ']';
        }
        o += ']';
    }
    if constexpr (is<F, comms::vf::KindEnum>) {
        if constexpr (Has_valueNamesMap<F>::value) {
            auto m = F::valueNamesMap();
            key(o, "vn"); o += '[';
            using E = std::decay_t<decltype(m.first[0])>;
            for (std::size_t i = 0; i < m.second; ++i) {
                sep(o);
                if constexpr (std::is_convertible<E, const char*>::value) { str(o, m.first[i]); }
                else { o += '['; anyint(o, m.first[i].first); o += ','; str(o, m.first[i].second); o += ']'; }
            }
            o += ']';
            key(o, "vq"); o += '[';      // the same by lookup of every value
            for (std::size_t i = 0; i < m.second; ++i) {
                sep(o);
                if constexpr (std::is_convertible<E, const char*>::value) { str(o, F::valueName(static_cast<typename F::ValueType>(i))); }
                else { str(o, F::valueName(m.first[i].first)); }
            }
            o += ']';
        }
    }
    if constexpr (HasBits<F>::value) {
        key(o, "bn"); o += '[';
        for (unsigned i = 0; i < sizeof(typename F::ValueType) * 8U; ++i) { sep(o); str(o, F::bitName(static_cast<typename F::BitIdx>(i))); }
        o += ']';
    }
    if constexpr (HasNames<F>::value) {
        key(o, "mn2"); o += '[';
        for (auto& n : F::vfNames()) { sep(o); str(o, n.c_str()); }
        o += ']';
    }
    if constexpr (is<F, comms::vf::KindBitfield> || is<F, comms::vf::KindBundle>) { key(o, "m"); o += '['; descAll<typename F::ValueType>(o, std::make_index_sequence<std::tuple_size<typename F::ValueType>::value>()); o += ']'; }
    if constexpr (is<F, comms::vf::KindVariant>) { key(o, "m"); o += '['; descAll<typename F::Members>(o, std::make_index_sequence<std::tuple_size<typename F::Members>::value>()); o += ']'; }
    if constexpr (is<F, comms::vf::KindOptional>) { key(o, "f"); desc<typename F::Field>(o); }
    if constexpr (isSeq<F>) {
        if constexpr (!F::VfRaw) { key(o, "e"); desc<typename F::ElementType>(o); }
        descOpt<t::SizePrefix, F>(o, "cp");
        descOpt<t::SerLenPrefix, F>(o, "lp");
        descOpt<t::ElemSerLenPrefix, F>(o, "ep");
        descOpt<t::ElemFixedSerLenPrefix, F>(o, "efp");
        descOpt<t::TermSuffix, F>(o, "ts");
        if (F::vfLimit() != 0U) { key(o, "lim"); unum(o, F::vfLimit()); }
        if (F::VfView) { key(o, "view"); o += "1"; }
    }
    o += '}';
}

// ---------------------------------------------------------------- messages
struct Buf      // exact heap block, so that any access outside is seen by the sanitizer
{
    std::uint8_t* p; std::size_t n;
    explicit Buf(std::size_t s) : p(static_cast<std::uint8_t*>(std::malloc(s ? s : 1))), n(s) {}
    Buf(const std::vector<std::uint8_t>& v) : Buf(v.size()) { if (n) { std::memcpy(p, v.data(), n); } }
    ~Buf() { std::free(p); }
    Buf(const Buf&) = delete;
};

template <typename TMsg> void fields(S& o, const TMsg& m)
{
    o += '[';
    comms::vf::forAll(m.fields(), [&o](auto& f, auto) { sep(o); val(o, f); });
    o += ']';
}
template <typename TMsg> void tfields(S& o, const TMsg& m)
{
    o += '[';
    if constexpr (TMsg::hasTransportFields()) { comms::vf::forAll(m.transportFields(), [&o](auto& f, auto) { sep(o); val(o, f); }); }
    o += ']';
}
// observable state: fields, length, validity, bytes
template <typename TMsg> void state(S& o, const TMsg& m)
{
    key(o, "v"); fields(o, m);
    key(o, "t"); tfields(o, m);
    auto l = m.doLength();
    key(o, "l"); unum(o, l);
    key(o, "ok"); o += m.doValid() ? "1" : "0";
    key(o, "fv"); o += '"';
    comms::vf::forAll(m.fields(), [&o](auto& f, auto) { o += f.valid() ? '1' : '0'; });
    o += '"';
    Buf b(l);
    auto* w = b.p;
    auto es = m.doWrite(w, l);
    key(o, "we"); num(o, static_cast<int>(es));
    key(o, "w"); hex(o, b.p, static_cast<std::size_t>(w - b.p));
    if (l != 0U) {
        Buf c(l - 1U);
        auto* q = c.p;
        auto es2 = m.doWrite(q, l - 1U);
        key(o, "wo"); num(o, static_cast<int>(es2));
    }
}
template <typename TMsg> void setT(In& in, TMsg& m)
{
    in.eat('[');
    if constexpr (TMsg::hasTransportFields()) { comms::vf::forAll(m.transportFields(), [&in](auto& f, auto) { setv(in, f); }); }
    in.eat(']');
}
template <typename TMsg> void msgDesc(S& o)
{
    using All = typename TMsg::AllFields;
    TMsg m;
    key(o, "id"); if constexpr (TMsg::hasStaticMsgId()) { num(o, static_cast<long long>(find_t<t::NumId, typename TMsg::VfOpts>::value)); } else { o += "null"; }
    key(o, "n"); str(o, m.doName());
    key(o, "mn"); len(o, TMsg::doMinLength());
    key(o, "mx"); len(o, TMsg::doMaxLength());
    key(o, "fi"); o += has_v<t::FailOnInvalid, typename TMsg::VfOpts> ? "1" : "0";
    key(o, "names"); o += '[';
    if constexpr (std::tuple_size<All>::value != 0U) { for (auto& n : TMsg::vfNames()) { sep(o); str(o, n.c_str()); } }
    o += ']';
    key(o, "f"); o += '['; descAll<All>(o, std::make_index_sequence<std::tuple_size<All>::value>()); o += ']';
}

// R <idx> <transport> <hex>; W <idx> <transport> <fields>; D <idx>
template <typename TMsg> void exec(S& o, char cmd, In& in)
{
    o += '{';
    if (cmd == 'D') {
        msgDesc<TMsg>(o);
        TMsg m;
        if constexpr (TMsg::vfHasVersion()) { m.doFieldsVersionUpdate(); }
        state(o, m);
    }
    else if (cmd == 'R') {
        TMsg m;
        setT(in, m);
        Buf b(unhex(in.text()));
        const std::uint8_t* r = b.p;
        auto es = m.doRead(r, b.n);
        key(o, "e"); num(o, static_cast<int>(es));
        key(o, "c"); num(o, r - b.p);
        if (es == comms::ErrorStatus::Success) {
            state(o, m);
            key(o, "rf"); o += m.doRefresh() ? "1" : "0";
            if constexpr (TMsg::vfHasVersion()) { m.doFieldsVersionUpdate(); }
            o += ",\"r\":{"; state(o, m); o += '}';
        }
    }
    else if (cmd == 'W') {
        TMsg m;
        setT(in, m);
        if constexpr (TMsg::vfHasVersion()) { m.doFieldsVersionUpdate(); }
        in.eat('[');
        comms::vf::forAll(m.fields(), [&in](auto& f, auto) { setv(in, f); });
        in.eat(']');
        if constexpr (TMsg::vfHasVersion()) { m.doFieldsVersionUpdate(); }
        state(o, m);
        key(o, "rf"); o += m.doRefresh() ? "1" : "0";
        if constexpr (TMsg::vfHasVersion()) { m.doFieldsVersionUpdate(); }
        o += ",\"r\":{"; state(o, m); o += '}';
    }
    o += '}';
}
template <typename TTuple, std::size_t I = 0> void execAt(S& o, std::size_t idx, char cmd, In& in)
{
    if constexpr (I < std::tuple_size<TTuple>::value) {
        if (I == idx) { exec<std::tuple_element_t<I, TTuple>>(o, cmd, in); }
        else { execAt<TTuple, I + 1U>(o, idx, cmd, in); }
    }
    else { o += "null"; }
}

// d <idx>: description; r <idx> <hex>; w <idx> <value>
template <typename F> void fstate(S& o, F& f)
{
    key(o, "v"); val(o, f);
    auto l = f.length();
    key(o, "l"); unum(o, l);
    key(o, "ok"); o += f.valid() ? "1" : "0";
    Buf b(l);
    auto* w = b.p;
    auto es = f.write(w, l);
    key(o, "we"); num(o, static_cast<int>(es));
    key(o, "w"); hex(o, b.p, static_cast<std::size_t>(w - b.p));
}
template <typename F> void fexec(S& o, char cmd, In& in)
{
    if (cmd == 'd') { desc<F>(o); return; }
    o += '{';
    F f;
    if (cmd == 'r') {
        Buf b(unhex(in.text()));
        const std::uint8_t* r = b.p;
        auto es = f.read(r, b.n);
        key(o, "e"); num(o, static_cast<int>(es));
        key(o, "c"); num(o, r - b.p);
        if (es == comms::ErrorStatus::Success) { fstate(o, f); }
    }
    else { setv(in, f); fstate(o, f); }
    o += '}';
}
template <typename TTuple, std::size_t I = 0> void fieldAt(S& o, std::size_t idx, char cmd, In& in)
{
    if constexpr (I < std::tuple_size<TTuple>::value) {
        if (I == idx) { fexec<std::tuple_element_t<I, TTuple>>(o, cmd, in); }
        else { fieldAt<TTuple, I + 1U>(o, idx, cmd, in); }
    }
    else { o += "null"; }
}

// named accessors
template <typename T, typename F> bool special(F&& fn) { T f; return fn(f); }
template <typename T, typename F> bool bit(F&& fn, unsigned idx)
{
    T f;
    const auto v = static_cast<unsigned long long>(f.getValue());
    const auto m = 1ULL << idx;
    if (!fn(f, true) || (static_cast<unsigned long long>(f.getValue()) != (v | m))) { return false; }
    if (fn(f, false) || (static_cast<unsigned long long>(f.getValue()) != (v & ~m))) { return false; }
    return true;
}
// frames: F <frame> <msg> <transport> <fields> writes, X <frame> <hex> reads and dispatches
template <typename TMsgs> struct Seen
{
    S* o;
    int n = 0;
    template <typename M, std::size_t I = 0> static constexpr int index()
    {
        if constexpr (I == std::tuple_size<TMsgs>::value) { return -1; }
        else if constexpr (std::is_same<M, std::tuple_element_t<I, TMsgs>>::value) { return static_cast<int>(I); }
        else { return index<M, I + 1U>(); }
    }
    template <typename M> void handle(M& m)
    {
        ++n;
        if constexpr (index<M>() >= 0) { key(*o, "i"); num(*o, index<M>()); state(*o, m); }
        else { key(*o, "i"); num(*o, -1); (void)m; }
    }
};
template <typename TFrame, typename TMsgs> void frameRead(S& o, In& in)
{
    o += '{';
    TFrame frame;
    typename TFrame::MsgPtr msg;
    Buf b(unhex(in.text()));
    const std::uint8_t* it = b.p;
    std::size_t miss = 0, idx = 0;
    std::intmax_t id = 0;
    auto es = frame.read(msg, it, b.n, comms::frame::missingSize(miss), comms::frame::msgId(id), comms::frame::msgIndex(idx));
    key(o, "e"); num(o, static_cast<int>(es));
    key(o, "c"); num(o, it - b.p);
    if (es == comms::ErrorStatus::Success) {
        key(o, "p"); o += msg ? "1" : "0";
        if (msg) {
            key(o, "vid"); num(o, static_cast<long long>(msg->getId()));
            key(o, "vn"); str(o, msg->name());
            key(o, "vl"); unum(o, msg->length());
            key(o, "vv"); o += msg->valid() ? "1" : "0";
            Seen<TMsgs> h{&o};
            using MT = typename TFrame::MsgPtr::element_type;
            comms::dispatchMsg<typename TFrame::AllMessages>(static_cast<typename MT::MsgIdParamType>(id), idx, *msg, h);
            key(o, "hn"); num(o, h.n);
        }
    }
    o += '}';
}
template <typename TFrame, typename TMsg> void frameWrite(S& o, In& in)
{
    o += '{';
    TMsg m;
    setT(in, m);
    if constexpr (TMsg::vfHasVersion()) { m.doFieldsVersionUpdate(); }
    in.eat('[');
    comms::vf::forAll(m.fields(), [&in](auto& f, auto) { setv(in, f); });
    in.eat(']');
    if constexpr (TMsg::vfHasVersion()) { m.doFieldsVersionUpdate(); }
    const TFrame frame;
    auto l = frame.length(m);
    key(o, "l"); unum(o, l);
    Buf b(l);
    auto* w = b.p;
    auto es = frame.write(m, w, l);
    if (es == comms::ErrorStatus::UpdateRequired) { auto* u = b.p; es = frame.update(m, u, static_cast<std::size_t>(w - b.p)); }
    key(o, "we"); num(o, static_cast<int>(es));
    key(o, "w"); hex(o, b.p, static_cast<std::size_t>(w - b.p));
    Buf c(l + 8U);
    auto* pw = c.p;
    const typename TFrame::MsgPtr::element_type& base = m;
    auto es2 = frame.write(base, pw, l + 8U);
    if (es2 == comms::ErrorStatus::UpdateRequired) { auto* u = c.p; es2 = frame.update(base, u, static_cast<std::size_t>(pw - c.p)); }
    key(o, "pe"); num(o, static_cast<int>(es2));
    key(o, "pw"); hex(o, c.p, static_cast<std::size_t>(pw - c.p));
    o += '}';
}
template <typename TFrame, typename TMsgs, std::size_t I = 0> void frameWriteAt(S& o, std::size_t idx, In& in)
{
    if constexpr (I < std::tuple_size<TMsgs>::value) {
        if (I == idx) { frameWrite<TFrame, std::tuple_element_t<I, TMsgs>>(o, in); }
        else { frameWriteAt<TFrame, TMsgs, I + 1U>(o, idx, in); }
    }
    else { o += "null"; (void)in; (void)idx; }
}
template <typename TFrame> std::string layerNames()
{
    std::string o = "[";
    for (auto& n : TFrame::vfLayerNames()) { sep(o); str(o, n.c_str()); }
    return o + "]";
}
template <typename TFrame, typename TMsgs> void frame(S& o, char cmd, In& in)
{
    if (cmd == 'F') { auto i = static_cast<std::size_t>(in.integer()); frameWriteAt<TFrame, TMsgs>(o, i, in); }
    else if (cmd == 'X') { frameRead<TFrame, TMsgs>(o, in); }
    else { o += layerNames<TFrame>(); }
}
} // namespace refl
