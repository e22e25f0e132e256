#pragma once
#include "comms/impl/base.h"
namespace comms { namespace util {
template <typename T>
class ArrayView
{
public:
    using value_type = T;
    using const_iterator = const T*;
    using iterator = const T*;
    using size_type = std::size_t;
    ArrayView() = default;
    ArrayView(const T* p, std::size_t n) : m_p(p), m_n(n) {}
    ArrayView(const T* b, const T* e) : m_p(b), m_n(static_cast<std::size_t>(e - b)) {}
    template <std::size_t N> ArrayView(const T (&a)[N]) : m_p(a), m_n(N) {}
    const T* begin() const { return m_p; }
    const T* end() const { return m_p + m_n; }
    const T* data() const { return m_p; }
    std::size_t size() const { return m_n; }
    std::size_t length() const { return m_n; }
    bool empty() const { return m_n == 0; }
    std::size_t max_size() const { return std::numeric_limits<std::size_t>::max(); }
    const T& operator[](std::size_t i) const { return m_p[i]; }
    void clear() { m_n = 0; }
    void assign(const T* b, const T* e) { m_p = b; m_n = static_cast<std::size_t>(e - b); }
    void vfTrim(std::size_t n) { m_n = std::min(m_n, n); }
    friend bool operator==(const ArrayView& a, const ArrayView& b) { return a.m_n == b.m_n && std::equal(a.begin(), a.end(), b.begin()); }
    friend bool operator!=(const ArrayView& a, const ArrayView& b) { return !(a == b); }
    friend bool operator<(const ArrayView& a, const ArrayView& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
private:
    const T* m_p = nullptr;
    std::size_t m_n = 0;
};
class StringView : public ArrayView<char>
{
    using Base = ArrayView<char>;
public:
    StringView() = default;
    StringView(const char* s) : Base(s, std::strlen(s)) {}
    StringView(const char* s, std::size_t n) : Base(s, n) {}
    StringView(const std::string& s) : Base(s.data(), s.size()) {}
    operator std::string() const { return std::string(data(), size()); }
    using Base::assign;
    StringView substr(std::size_t p, std::size_t n) const { return StringView(data() + p, std::min(n, size() - p)); }
    friend bool operator==(const StringView& a, const char* b) { return std::string(a) == b; }
    friend bool operator!=(const StringView& a, const char* b) { return std::string(a) != b; }
};
// containers with bounded capacity
template <typename TBase, std::size_t N>
class Bounded : public TBase
{
public:
    using TBase::TBase;
    Bounded() = default;
    Bounded(const TBase& b) : TBase(b) { COMMS_ASSERT(this->size() <= N); }
    Bounded& operator=(const TBase& b) { TBase::operator=(b); COMMS_ASSERT(this->size() <= N); return *this; }
    template <typename U = TBase, typename = std::enable_if_t<std::is_same<U, std::string>::value>>
    Bounded& operator=(const char* b) { TBase::operator=(b); COMMS_ASSERT(this->size() <= N); return *this; }
    std::size_t max_size() const { return N; }
    std::size_t capacity() const { return N; }
    void resize(std::size_t n) { COMMS_ASSERT(n <= N); TBase::resize(n); }
    template <typename U> void push_back(U&& v) { COMMS_ASSERT(this->size() < N); TBase::push_back(std::forward<U>(v)); }
};
template <std::size_t N> using StaticString = Bounded<std::string, N>;
template <typename T, std::size_t N> using StaticVector = Bounded<std::vector<T>, N>;
} }
