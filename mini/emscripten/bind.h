#pragma once
// stand-in for embind: keeps what was registered in a registry, through which everything is called dynamically, the way JavaScript does
#include "val.h"

namespace vf {

template <typename T> struct Bare { using Type = typename std::remove_cv<typename std::remove_pointer<typename std::remove_cv<typename std::remove_reference<T>::type>::type>::type>::type; };

// Are types known to embind without registration
template <typename T> struct Known { static const bool Value = std::is_fundamental<T>::value || std::is_same<T, std::string>::value || std::is_same<T, emscripten::val>::value; };

template <typename B, bool E = std::is_enum<B>::value> struct Wide { static const bool Value = false; };
template <typename B> struct Wide<B, true> { static const bool Value = sizeof(B) > 4; };
template <typename T> void need(Needs& n)
{
    using B = typename Bare<T>::Type;
    if (!Known<B>::Value) { n.push_back({std::type_index(typeid(B)), Wide<B>::Value}); }
}
template <typename... A> struct NeedAll { static void add(Needs&) {} };
template <typename H, typename... A> struct NeedAll<H, A...> { static void add(Needs& n) { need<H>(n); NeedAll<A...>::add(n); } };

template <typename... A> struct AnyPtr { static const bool Value = false; };
template <typename H, typename... A> struct AnyPtr<H, A...> { static const bool Value = std::is_pointer<typename std::remove_reference<H>::type>::value || AnyPtr<A...>::Value; };
template <typename... P> struct Allowed { static const bool Value = false; };
template <typename H, typename... P> struct Allowed<H, P...> { static const bool Value = std::is_same<H, emscripten::allow_raw_pointers>::value || Allowed<P...>::Value; };

// ---------------------------------------------------------------- to and from JavaScript
template <typename T, typename = void> struct To;      // C++ -> JS
template <typename T, typename = void> struct From;    // JS -> C++

template <> struct To<bool> { static Val go(bool v) { Val r; r.k = Val::Bool; r.i = v; return r; } };
template <typename T> struct To<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
{ static Val go(T v) { Val r; r.k = Val::Int; r.i = static_cast<long long>(v); r.neg = std::is_signed<T>::value && v < T(1) && v != T(0); return r; } };
template <> struct To<float> { static Val go(float v) { Val r; r.k = Val::Flt; r.f = v; r.d = static_cast<double>(v); return r; } };
template <> struct To<double> { static Val go(double v) { Val r; r.k = Val::Dbl; r.d = v; return r; } };
template <> struct To<std::string> { static Val go(const std::string& v) { Val r; r.k = Val::Str; r.s = v; return r; } };
template <> struct To<emscripten::val> { static Val go(const emscripten::val& v) { return v.v; } };
template <typename T> struct To<T, typename std::enable_if<std::is_enum<T>::value>::type>
{ static Val go(T v) { Val r = To<typename std::underlying_type<T>::type>::go(static_cast<typename std::underlying_type<T>::type>(v)); r.k = Val::Enum; r.t = &typeid(T); return r; } };
template <typename T> struct To<T, typename std::enable_if<std::is_class<T>::value>::type>
{ static Val go(const T& v) { Val r; r.k = Val::Obj; r.own = std::make_shared<T>(v); r.p = r.own.get(); r.t = &typeid(T); return r; } };
template <typename T> struct To<T*, void>
{ static Val go(T* v) { Val r; if (!v) { r.k = Val::Null; return r; } r.k = Val::Obj; r.p = const_cast<void*>(static_cast<const void*>(v)); r.cst = std::is_const<T>::value; r.t = &typeid(T); return r; } };

inline void* objOf(const Val& v, const std::type_info& t)
{
    if (v.k != Val::Obj) { throw Err("an object is expected"); }
    if (!byType(t)) { throw Err(std::string("unbound type ") + t.name()); }
    void* p = v.p;
    for (Class* c = byType(*v.t); c; c = c->base ? byType(*c->base) : nullptr) {
        if (*c->t == t) { return p; }
        if (!c->up) { break; }
        p = c->up(p);
    }
    throw Err("Expected an instance of " + byType(t)->name + ", got an instance of " + (byType(*v.t) ? byType(*v.t)->name : std::string(v.t->name())));
}

template <typename T> struct From<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
{
    static T go(const Val& v)
    {
        if (std::is_floating_point<T>::value) { return v.k == Val::Flt && sizeof(T) == 4 ? static_cast<T>(v.f) : v.k == Val::Int ? static_cast<T>(v.i) : static_cast<T>(v.d); }
        if (v.k != Val::Int && v.k != Val::Bool) { throw Err("a number is expected"); }
        T r = static_cast<T>(v.i);
        if (sizeof(T) < 8 && static_cast<long long>(r) != v.i) { throw Err("number " + std::to_string(v.i) + " is out of range"); }
        return r;
    }
};
template <> struct From<bool> { static bool go(const Val& v) { if (v.k != Val::Bool && v.k != Val::Int) { throw Err("a boolean is expected"); } return v.i != 0; } };
template <> struct From<std::string> { static std::string go(const Val& v) { if (v.k != Val::Str) { throw Err("a string is expected"); } return v.s; } };
template <> struct From<emscripten::val> { static emscripten::val go(const Val& v) { emscripten::val r; r.v = v; return r; } };
template <typename T> struct From<T, typename std::enable_if<std::is_enum<T>::value>::type>
{ static T go(const Val& v) { if (v.k != Val::Enum || !(*v.t == typeid(T))) { throw Err("a value of another enumeration is expected"); } return static_cast<T>(v.i); } };
template <typename T> struct From<T, typename std::enable_if<std::is_class<T>::value>::type>
{ static T& go(const Val& v) { return *static_cast<T*>(objOf(v, typeid(T))); } };
template <typename T> struct From<T*, void>
{
    static T* go(const Val& v)
    {
        if (v.k == Val::Null) { return nullptr; }
        if (v.cst && !std::is_const<T>::value) { throw Err("a constant object"); }
        return static_cast<T*>(objOf(v, typeid(T)));
    }
};
template <typename T> struct Plain { using Type = typename std::remove_cv<typename std::remove_reference<T>::type>::type; };

template <typename R> struct Ret { template <typename F> static Val go(F&& f) { return To<typename Plain<R>::Type>::go(f()); } };
template <> struct Ret<void> { template <typename F> static Val go(F&& f) { f(); return Val(); } };

inline void argc(const Vals& a, std::size_t n) { if (a.size() != n) { throw Err("called with " + std::to_string(a.size()) + " arguments, expected " + std::to_string(n)); } }

template <typename S> struct Sig;
template <typename R, typename... A> struct Sig<R (*)(A...)>
{
    template <std::size_t... I> static Val call(R (*f)(A...), const Vals& a, std::index_sequence<I...>) { static_cast<void>(a); return Ret<R>::go([&]() -> R { return f(From<typename Plain<A>::Type>::go(a[I])...); }); }
    template <typename... P> static Func make(R (*f)(A...))
    {
        static_assert(!AnyPtr<R, A...>::Value || Allowed<P...>::Value, "Implicitly binding raw pointers is illegal");
        Func r; NeedAll<R, A...>::add(r.needs); r.args = sizeof...(A);
        r.f = [f](const Val*, const Vals& a) { argc(a, sizeof...(A)); return call(f, a, std::make_index_sequence<sizeof...(A)>()); };
        return r;
    }
};
template <typename C, typename R, typename... A> struct SigM
{
    template <typename F, std::size_t... I> static Val call(C* o, F f, const Vals& a, std::index_sequence<I...>) { static_cast<void>(a); return Ret<R>::go([&]() -> R { return (o->*f)(From<typename Plain<A>::Type>::go(a[I])...); }); }
    template <typename F, typename... P> static Func make(F f, bool cst)
    {
        static_assert(!AnyPtr<R, A...>::Value || Allowed<P...>::Value, "Implicitly binding raw pointers is illegal");
        Func r; NeedAll<C, R, A...>::add(r.needs); r.args = sizeof...(A);
        r.f = [f, cst](const Val* o, const Vals& a) {
            argc(a, sizeof...(A));
            if (o->cst && !cst) { throw Err("a constant object"); }
            return call(static_cast<C*>(objOf(*o, typeid(C))), f, a, std::make_index_sequence<sizeof...(A)>());
        };
        return r;
    }
};
// function that gets the object as its first parameter
template <typename R, typename S, typename... A> struct SigS
{
    template <typename F, std::size_t... I> static Val call(S s, const F& f, const Vals& a, std::index_sequence<I...>) { static_cast<void>(a); return Ret<R>::go([&]() -> R { return f(s, From<typename Plain<A>::Type>::go(a[I])...); }); }
    template <typename F, typename... P> static Func make(F f)
    {
        static_assert(!AnyPtr<R, A...>::Value || Allowed<P...>::Value, "Implicitly binding raw pointers is illegal");
        using C = typename Bare<S>::Type;
        Func r; NeedAll<S, R, A...>::add(r.needs); r.args = sizeof...(A);
        r.f = [f](const Val* o, const Vals& a) {
            argc(a, sizeof...(A));
            if (o->cst && !std::is_const<typename std::remove_reference<S>::type>::value) { throw Err("a constant object"); }
            return call<F>(*static_cast<C*>(objOf(*o, typeid(C))), f, a, std::make_index_sequence<sizeof...(A)>());
        };
        return r;
    }
};
template <typename... P> struct Bind
{
    template <typename C, typename R, typename... A> static Func go(R (C::*f)(A...)) { return SigM<C, R, A...>::template make<R (C::*)(A...), P...>(f, false); }
    template <typename C, typename R, typename... A> static Func go(R (C::*f)(A...) const) { return SigM<C, R, A...>::template make<R (C::*)(A...) const, P...>(f, true); }
    template <typename R, typename S, typename... A> static Func go(R (*f)(S, A...)) { return SigS<R, S, A...>::template make<R (*)(S, A...), P...>(f); }
    template <typename F> static Func go(emscripten::Override<F> f) { return lambda(f.f, &F::operator()); }
    template <typename F, typename R, typename S, typename... A> static Func lambda(F f, R (F::*)(S, A...) const) { return SigS<R, S, A...>::template make<F, P...>(f); }
};

} // namespace vf

namespace emscripten {

template <typename B> struct base { using Type = B; };
struct NoBase {};

template <typename F> Override<F> optional_override(F f) { return Override<F>{f}; }

template <typename T> struct Baser { template <typename D> static void set(vf::Class& c) { c.base = &typeid(typename T::Type); c.up = [](void* p) { return static_cast<void*>(static_cast<typename T::Type*>(static_cast<D*>(p))); };
    static_assert(std::is_base_of<typename T::Type, D>::value, "not a base class"); } };
template <> struct Baser<NoBase> { template <typename D> static void set(vf::Class&) {} };

template <typename T, typename B = NoBase> class class_
{
public:
    explicit class_(const char* name) : m_c(vf::addClass(name, typeid(T))) { Baser<B>::template set<T>(m_c); }

    template <typename... A, typename... P> const class_& constructor(P...) const
    {
        auto n = sizeof...(A);
        if (m_c.ctors.count(n)) { vf::bad("Cannot register multiple constructors with identical number of parameters for class " + m_c.name); }
        vf::Func r; vf::NeedAll<A...>::add(r.needs); r.args = n;
        r.f = [](const vf::Val*, const vf::Vals& a) { vf::argc(a, sizeof...(A)); return make<A...>(a, std::make_index_sequence<sizeof...(A)>()); };
        m_c.ctors[n] = r;
        return *this;
    }
    template <typename F, typename... P> const class_& function(const char* name, F f, P...) const { add(m_c.funcs, name, vf::Bind<P...>::go(f)); return *this; }
    template <typename F, typename... P> const class_& class_function(const char* name, F f, P...) const { add(m_c.statics, name, vf::Sig<F>::template make<P...>(f)); return *this; }
    template <typename G, typename S> const class_& property(const char* name, G g, S s) const { add(m_c.getters, name, vf::Bind<>::go(g)); add(m_c.setters, name, vf::Bind<>::go(s)); return *this; }
    template <typename G> const class_& property(const char* name, G g) const { add(m_c.getters, name, vf::Bind<>::go(g)); return *this; }
    template <typename W> const class_& allow_subclass(const char*) const
    {
        static_assert(std::is_base_of<T, W>::value, "not derived");
        static_assert(!std::is_abstract<W>::value, "abstract");
        if (m_c.subclass) { vf::bad("subclass of " + m_c.name + " is allowed twice"); }
        m_c.subclass = [](vf::JsFunc f) {
            val v; v.v.k = vf::Val::Js; v.v.js = std::make_shared<vf::JsFunc>(f);
            vf::Val r; r.k = vf::Val::Obj; auto w = std::make_shared<W>(std::move(v)); w->vfSelf = static_cast<T*>(w.get()); w->vfType = &typeid(T);
            r.own = w; r.p = static_cast<T*>(w.get()); r.t = &typeid(T); return r;
        };
        return *this;
    }

private:
    template <typename... A, std::size_t... I> static vf::Val make(const vf::Vals& a, std::index_sequence<I...>)
    { static_cast<void>(a); vf::Val r; r.k = vf::Val::Obj; r.own = std::make_shared<T>(vf::From<typename vf::Plain<A>::Type>::go(a[I])...); r.p = r.own.get(); r.t = &typeid(T); return r; }
    template <typename M> void add(M& m, const char* name, vf::Func f) const
    {
        if (m.count(name)) { vf::bad(m_c.name + "::" + name + " is registered twice"); }
        m[name] = f;
    }
    vf::Class& m_c;
};

template <typename F, typename... P> void function(const char* name, F f, P...)
{
    if (vf::reg().funcs.count(name)) { vf::bad(std::string("Cannot register public name '") + name + "' twice"); }
    vf::reg().funcs[name] = vf::Sig<F>::template make<P...>(f);
}

template <typename T> void constant(const char* name, T v)
{
    if (vf::reg().consts.count(name)) { vf::bad(std::string("Cannot register public name '") + name + "' twice"); }
    vf::reg().consts[name] = vf::To<T>::go(v);
}

template <typename E> class enum_
{
public:
    explicit enum_(const char* name) : m_e(vf::addEnum(name, typeid(E))) { static_assert(std::is_enum<E>::value, "enum"); static_assert(sizeof(E) <= 4, "embind has no enumerations of 64 bits"); }
    const enum_& value(const char* name, E v) const
    {
        for (auto& x : m_e.values) { if (x.first == name) { vf::bad(m_e.name + "." + name + " is registered twice"); } }
        m_e.values.push_back({name, vf::To<E>::go(v)});
        return *this;
    }
private:
    vf::Enum& m_e;
};

namespace vecs {
template <typename T> void push_back(std::vector<T>& v, T x) { v.push_back(x); }
template <typename T> void resize(std::vector<T>& v, std::size_t n, T x) { v.resize(n, x); }
template <typename T> std::size_t size(const std::vector<T>& v) { return v.size(); }
template <typename T> val get(const std::vector<T>& v, std::size_t i) { val r; if (i < v.size()) { r.v = vf::To<T>::go(v[i]); } return r; }
template <typename T> bool set(std::vector<T>& v, std::size_t i, T x) { if (i < v.size()) { v[i] = x; } return true; }
}
template <typename T> void register_vector(const char* name)
{
    class_<std::vector<T> >(name).template constructor<>().function("push_back", &vecs::push_back<T>).function("resize", &vecs::resize<T>).function("size", &vecs::size<T>)
        .function("get", &vecs::get<T>).function("set", &vecs::set<T>);
}

template <typename T> struct wrapper : public T
{
    template <typename... A> explicit wrapper(val&& v, A&&... a) : T(std::forward<A>(a)...), m_v(std::move(v)) {}
    template <typename R, typename... A> R call(const char* name, A&&... a) const
    {
        vf::Vals args{vf::To<typename vf::Plain<A>::Type>::go(a)...};
        vf::Val r;
        if (!(*m_v.v.js)(name, args, r)) {
            // not overridden in JavaScript
            auto self = vf::Val(); self.k = vf::Val::Obj; self.p = vfSelf; self.t = vfType;
            r = vf::call(self, name, args);
        }
        return conv<R>(r, static_cast<R*>(nullptr));
    }
    void* vfSelf = nullptr;
    const std::type_info* vfType = nullptr;
private:
    template <typename R> static void conv(const vf::Val&, void*) {}
    val m_v;
};
#define EMSCRIPTEN_WRAPPER(T) template <typename... Args> T(::emscripten::val&& v, Args&&... args) : wrapper(std::move(v), std::forward<Args>(args)...) {}

} // namespace emscripten

#define EMSCRIPTEN_BINDINGS(name) \
    static struct VfInit_##name { VfInit_##name() { vf::inits().push_back({#name, &VfInit_##name::go}); } static void go(); } vfInit_##name; \
    void VfInit_##name::go()
