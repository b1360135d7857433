// The type-specific sorters behind the interface of a comparison sorter: they sort instrumented elements through a
// projection to a key type they accept, which keeps (Less) or reverses (a comparator and a projection are given) the order.
#pragma once
#include "elem.hpp"
#include <cpp-sort/sorters/ska_sorter.h>
#include <cpp-sort/sorters/spread_sorter.h>
#include <cstdio>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#define TYPED 1
namespace mc {
template<typename K> struct MakeKey;
template<> struct MakeKey<int> { static int make(int k) { return k; } };
template<> struct MakeKey<float> { static float make(int k) { return float(k); } };
template<> struct MakeKey<std::string> { static std::string make(int k) { char b[24]; snprintf(b, sizeof b, "%010lld", 4000000000ll + k); return b; } };
template<> struct MakeKey<std::pair<short, int>> { static std::pair<short, int> make(int k) { return {short(k < 0 ? -1 : k > 7), k}; } };
template<> struct MakeKey<std::tuple<bool, std::string, signed char>> { static std::tuple<bool, std::string, signed char> make(int k) { return std::tuple<bool, std::string, signed char>(k >= 0, MakeKey<std::string>::make(k >> 5), (signed char)(k & 31)); } };
// by value
template<typename K, bool Rev> struct ToKey { template<typename E> K operator()(const E& e) const { int k = KeyOf{}(e); return MakeKey<K>::make(Rev ? -k : k); } };
template<typename Sorter, typename K> struct Typed {
    void operator()(std::vector<int>& v) const { Sorter{}(v); }
    template<typename I, typename C> void operator()(I f, I l, C) const { Sorter{}(f, l, ToKey<K, false>{}); }
    template<typename I, typename C, typename P> void operator()(I f, I l, C, P) const { Sorter{}(f, l, ToKey<K, true>{}); }
};
}
