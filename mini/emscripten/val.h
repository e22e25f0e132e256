#pragma once
#include <cstdint>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>

namespace vf {
struct Err : std::runtime_error { using std::runtime_error::runtime_error; };
struct Val;
using Vals = std::vector<Val>;
using JsFunc = std::function<bool (const std::string&, const Vals&, Val&)>;
struct Val
{
    enum Kind { Undef, Null, Bool, Int, Flt, Dbl, Str, Obj, Enum, Arr, Js } k = Undef;
    long long i = 0;
    bool neg = false, cst = false;
    float f = 0;
    double d = 0;
    std::string s;
    void* p = nullptr;
    const std::type_info* t = nullptr;
    std::shared_ptr<void> own;
    std::vector<std::uint8_t> a;
    std::shared_ptr<JsFunc> js;
};
struct Need { std::type_index t; bool wide; };
using Needs = std::vector<Need>;
struct Func { std::function<Val (const Val*, const Vals&)> f; Needs needs; std::size_t args = 0; };
struct Class
{
    std::string name;
    const std::type_info* t = nullptr;
    const std::type_info* base = nullptr;
    void* (*up)(void*) = nullptr;
    std::map<std::size_t, Func> ctors;
    std::map<std::string, Func> funcs, statics, getters, setters;
    std::function<Val (JsFunc)> subclass;
};
struct Enum { std::string name; const std::type_info* t = nullptr; std::vector<std::pair<std::string, Val> > values; };
struct Reg
{
    std::map<std::string, Class> classes;
    std::map<std::string, Enum> enums;
    std::map<std::type_index, Class*> ct;
    std::map<std::type_index, Enum*> et;
    std::map<std::string, Func> funcs;
    std::map<std::string, Val> consts;
    std::vector<std::string> bad;
};
inline Reg& reg() { static Reg r; return r; }
inline std::vector<std::pair<std::string, void (*)()> >& inits() { static std::vector<std::pair<std::string, void (*)()> > r; return r; }
inline void bad(const std::string& s) { reg().bad.push_back(s); }
inline Class* byType(const std::type_info& t) { auto i = reg().ct.find(t); return i == reg().ct.end() ? nullptr : i->second; }
inline Class& addClass(const std::string& n, const std::type_info& t)
{
    if (reg().classes.count(n) || reg().enums.count(n)) { bad("Cannot register public name '" + n + "' twice"); }
    if (reg().ct.count(t)) { bad("Cannot register type '" + n + "' twice"); }
    auto& c = reg().classes[n];
    c.name = n; c.t = &t; reg().ct[t] = &c;
    return c;
}
inline Enum& addEnum(const std::string& n, const std::type_info& t)
{
    if (reg().classes.count(n) || reg().enums.count(n)) { bad("Cannot register public name '" + n + "' twice"); }
    if (reg().et.count(t)) { bad("Cannot register type '" + n + "' twice"); }
    auto& c = reg().enums[n];
    c.name = n; c.t = &t; reg().et[t] = &c;
    return c;
}
inline const Func* find(const Class* c, const std::string& n)
{
    for (; c; c = c->base ? byType(*c->base) : nullptr) {
        auto i = c->funcs.find(n);
        if (i != c->funcs.end()) { return &i->second; }
    }
    return nullptr;
}
inline void bound(const Func& f, const std::string& n)
{
    for (auto& x : f.needs) { if (!reg().ct.count(x.t) && !reg().et.count(x.t)) { throw Err("Cannot call " + n + " due to unbound types: " + x.t.name()); } }
}
inline Val call(const Val& o, const std::string& n, const Vals& a)
{
    if (o.k != Val::Obj) { throw Err("Cannot read properties (reading '" + n + "')"); }
    auto* c = byType(*o.t);
    if (!c) { throw Err(std::string("unbound type ") + o.t->name()); }
    auto* f = find(c, n);
    if (!f) { throw Err(c->name + "." + n + " is not a function"); }
    bound(*f, c->name + "." + n);
    try { return f->f(&o, a); } catch (const Err& e) { throw Err(c->name + "." + n + ": " + e.what()); }
}
} // namespace vf

namespace emscripten {
struct allow_raw_pointers {};
template <typename F> struct Override { F f; };
template <typename T> struct memory_view { std::size_t n; const T* p; };
template <typename T> memory_view<T> typed_memory_view(std::size_t n, const T* p) { return memory_view<T>{n, p}; }
class val
{
public:
    val() = default;
    explicit val(memory_view<std::uint8_t> m) { v.k = vf::Val::Arr; v.a.assign(m.p, m.p + m.n); }
    template <typename T> explicit val(T* p) { if (!p) { v.k = vf::Val::Null; return; } v.k = vf::Val::Obj; v.p = const_cast<void*>(static_cast<const void*>(p)); v.t = &typeid(T); v.cst = std::is_const<T>::value; }
    vf::Val v;
};
template <typename T> std::vector<T> convertJSArrayToNumberVector(const val& x)
{
    if (x.v.k != vf::Val::Arr) { throw vf::Err("an array is expected"); }
    return std::vector<T>(x.v.a.begin(), x.v.a.end());
}
} // namespace emscripten
