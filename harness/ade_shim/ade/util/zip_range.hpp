#pragma once
#include <ade/graph.hpp>

namespace ade {
namespace util {

template <class V>
struct indexed_value {
    size_t idx;
    V      val;
};

template <class V> size_t index(const indexed_value<V>& v) { return v.idx; }
template <class V> V value(const indexed_value<V>& v) { return v.val; }

template <class R>
auto indexed(R&& r) {
    using V = std::decay_t<decltype(*std::begin(r))>;
    std::vector<indexed_value<V>> out;
    size_t i = 0;
    for (auto&& v : r) out.push_back(indexed_value<V>{i++, v});
    return out;
}

template <class R, class F>
auto filter(R&& r, F f) {
    using V = std::decay_t<decltype(*std::begin(r))>;
    std::vector<V> out;
    for (auto&& v : r)
        if (f(v)) out.push_back(v);
    return out;
}

template <class R, class O, class F>
O transform(R&& r, O o, F f) {
    return std::transform(std::begin(r), std::end(r), o, f);
}

template <class A, class B>
auto zip(A&& a, B&& b) {
    using VA = std::decay_t<decltype(*std::begin(a))>;
    using VB = std::decay_t<decltype(*std::begin(b))>;
    std::vector<std::tuple<VA, VB>> out;
    auto i = std::begin(a);
    auto j = std::begin(b);
    for (; i != std::end(a) && j != std::end(b); ++i, ++j) out.emplace_back(*i, *j);
    return out;
}

} // namespace util
} // namespace ade
