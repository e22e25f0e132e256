#pragma once
#include <tuple>
#include <utility>
namespace comms { namespace util {
template <typename TTuple, typename TFunc>
void tupleForEach(TTuple&& t, TFunc&& f) { std::apply([&f](auto&&... x) { (f(x), ...); }, std::forward<TTuple>(t)); }
} }
