// Iterator laws, checked in the current state of a container.
#pragma once
#include "modes.hpp"

#include <compare>
#include <iterator>
#include <set>
#include <vector>

namespace laws
{
using pbt::Ctx;
// identity of what an iterator denotes
template <class It>
const void* id(const It& it)
{
    // maps: the value (the pair handed out may be a proxy); others: the element
    using R = std::remove_cvref_t<decltype(*it)>;
    if constexpr (requires(R& r) { r.first; r.second; }) return std::addressof((*it).second);
    else return std::addressof(*it);
}
template <class It>
inline constexpr bool BIDI = requires(It i) { --i; };
template <class It>
inline constexpr bool RA = requires(It i) { i += 1; i - i; };

// Positions to look at: all while few, else a sample of ends and random ones
inline std::vector<std::size_t> sample(Ctx& c, std::size_t n_positions)
{
    std::vector<std::size_t> v;
    if (n_positions <= 10)
    {
        for (std::size_t i = 0; i < n_positions; i++) v.push_back(i);
        return v;
    }
    v = {0, 1, n_positions - 2, n_positions - 1};
    for (int k = 0; k < 5; k++) v.push_back(c.below(n_positions));
    return v;
}

template <class It>
std::vector<It> sequence_laws(Ctx& c, It first, It last, const std::vector<const void*>& ids, const char* w)
{
    static_assert(std::is_same_v<typename std::iterator_traits<It>::difference_type, std::ptrdiff_t>);
    using Cat = typename std::iterator_traits<It>::iterator_category;
    static_assert(std::is_base_of_v<std::forward_iterator_tag, Cat>);
    static_assert(!std::is_base_of_v<std::bidirectional_iterator_tag, Cat> || BIDI<It>);
    static_assert(!std::is_base_of_v<std::random_access_iterator_tag, Cat> || RA<It>);
    const std::size_t n = ids.size();
    std::vector<It> pos;
    It it = first;
    for (std::size_t i = 0; i < n; i++)
    {
        CHECK_HARD(c, !(it == last) && it != last, "%s: traversal ends after %zu of %zu elements", w, i, n);
        CHECK_HARD(c, id(it) == ids[i], "%s: traversal does not visit element %zu in its place", w, i);
        pos.push_back(it);
        if (i % 2 == 0)
        {
            It& r = ++it;
            CHECK_HARD(c, std::addressof(r) == std::addressof(it), "%s: ++it does not return itself", w);
        }
        else
        {
            It old = it++;
            CHECK_HARD(c, old == pos.back() && id(old) == ids[i], "%s: it++ does not return the old position", w);
        }
        CHECK_HARD(c, id(pos.back()) == ids[i] && !(pos.back() == it), "%s: incrementing a copy moved the original", w);
    }
    CHECK_HARD(c, it == last && !(it != last), "%s: traversal does not end after %zu elements", w, n);
    pos.push_back(it);
    const auto idx = sample(c, n + 1);
    for (const std::size_t i : idx)
    {
        if (i < n)
        {
            if constexpr (std::is_reference_v<decltype(*it)>)
            {
                if constexpr (std::is_pointer_v<It>) CHECK_HARD(c, pos[i] == std::addressof(*pos[i]), "%s: -> is wrong", w);
                else CHECK_HARD(c, std::addressof(*pos[i]) == pos[i].operator->(), "%s: -> and * denote different elements", w);
            }
            else CHECK_HARD(c, std::addressof(pos[i]->second) == id(pos[i]), "%s: -> and * denote different elements", w);
        }
        for (const std::size_t j : idx)
        {
            CHECK_HARD(c, (pos[i] == pos[j]) == (i == j) && (pos[i] != pos[j]) == (i != j), "%s: equality of positions %zu and %zu is wrong", w, i, j);
            It t = pos[i];
            t = pos[j];
            CHECK_HARD(c, t == pos[j] && (j == n || id(t) == ids[j]), "%s: assignment between positions is wrong", w);
            if (i <= j)
            {
                CHECK_HARD(c, std::distance(pos[i], pos[j]) == static_cast<std::ptrdiff_t>(j - i), "%s: distance(%zu, %zu) is wrong", w, i, j);
                CHECK_HARD(c, std::next(pos[i], static_cast<std::ptrdiff_t>(j - i)) == pos[j], "%s: next from %zu to %zu is wrong", w, i, j);
            }
            if constexpr (BIDI<It>)
            {
                if (j <= i) CHECK_HARD(c, std::prev(pos[i], static_cast<std::ptrdiff_t>(i - j)) == pos[j], "%s: prev from %zu to %zu is wrong", w, i, j);
            }
            if constexpr (RA<It>)
            {
                const auto d = static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i);
                CHECK_HARD(c, pos[j] - pos[i] == d, "%s: difference of positions %zu and %zu is %td", w, j, i, pos[j] - pos[i]);
                CHECK_HARD(c, pos[i] + d == pos[j] && d + pos[i] == pos[j] && pos[i] - (-d) == pos[j], "%s: offset from %zu to %zu is wrong", w, i, j);
                It a = pos[i];
                It& ra = (a += d);
                CHECK_HARD(c, a == pos[j] && std::addressof(ra) == std::addressof(a), "%s: += %td from %zu is wrong", w, d, i);
                It b = pos[i];
                It& rb = (b -= -d);
                CHECK_HARD(c, b == pos[j] && std::addressof(rb) == std::addressof(b), "%s: -= %td from %zu is wrong", w, -d, i);
                if (j < n)
                {
                    CHECK_HARD(c, std::addressof(pos[i][d]) == ids[j] && id(a) == ids[j] && id(b) == ids[j], "%s: subscript/offset from %zu to %zu denotes another element", w, i, j);
                }
                CHECK_HARD(c, (pos[i] < pos[j]) == (i < j) && (pos[i] <= pos[j]) == (i <= j) && (pos[i] > pos[j]) == (i > j) && (pos[i] >= pos[j]) == (i >= j),
                           "%s: ordering of positions %zu and %zu is wrong", w, i, j);
                if constexpr (requires { pos[i] <=> pos[j]; }) CHECK_HARD(c, (pos[i] <=> pos[j]) == (i <=> j), "%s: <=> of positions %zu and %zu is wrong", w, i, j);
            }
        }
    }
    if constexpr (BIDI<It>)
    {
        It b = last;
        for (std::size_t i = n; i > 0; i--)
        {
            if (i % 2 == 0)
            {
                It& r = --b;
                CHECK_HARD(c, std::addressof(r) == std::addressof(b), "%s: --it does not return itself", w);
            }
            else
            {
                It old = b--;
                CHECK_HARD(c, old == pos[i], "%s: it-- does not return the old position", w);
            }
            CHECK_HARD(c, b == pos[i - 1] && id(b) == ids[i - 1], "%s: decrement does not lead from position %zu back to %zu", w, i, i - 1);
            It f = b;
            ++f;
            CHECK_HARD(c, f == pos[i], "%s: ++ does not invert -- at %zu", w, i);
        }
        CHECK_HARD(c, b == first, "%s: decrementing from the end does not reach the beginning", w);
    }
    // default-constructed iterators
    It d1{};
    It d2{};
    CHECK_HARD(c, d1 == d2, "%s: two default-constructed iterators are not equal", w);
    d1 = first;
    CHECK_HARD(c, d1 == first, "%s: assignment to a default-constructed iterator", w);
    using std::swap;
    It s1 = first, s2 = last;
    swap(s1, s2);
    CHECK_HARD(c, s1 == last && s2 == first, "%s: swap of iterators", w);
    return pos;
}
// mutable position -> const position
template <class It, class CIt>
void conversion_laws(Ctx& c, const std::vector<It>& p, const std::vector<CIt>& q, const char* w)
{
    static_assert(std::is_convertible_v<It, CIt>, "a mutable iterator converts to a const iterator");
    if constexpr (!std::is_same_v<It, CIt>)
    {
        static_assert(!std::is_convertible_v<CIt, It>, "a const iterator does not convert to a mutable iterator");
        for (const std::size_t i : sample(c, p.size()))
        {
            CIt x = p[i];
            CHECK_HARD(c, x == q[i], "%s: conversion of position %zu to const changes the position", w, i);
            if (i + 1 < p.size()) CHECK_HARD(c, id(x) == id(p[i]), "%s: conversion of position %zu to const changes the element", w, i);
            CIt y{};
            y = p[i];
            CHECK_HARD(c, y == q[i], "%s: assignment of a mutable to a const iterator", w);
            for (const std::size_t j : sample(c, p.size()))
            {
                CHECK_HARD(c, (p[i] == q[j]) == (i == j) && (q[j] == p[i]) == (i == j), "%s: comparison of const and mutable positions is wrong", w);
                if constexpr (RA<It>)
                {
                    CHECK_HARD(c, (p[i] < q[j]) == (i < j) && (q[j] < p[i]) == (j < i), "%s: ordering of const and mutable positions is wrong", w);
                    CHECK_HARD(c, p[i] - q[j] == static_cast<std::ptrdiff_t>(i) - static_cast<std::ptrdiff_t>(j), "%s: difference of const and mutable positions is wrong", w);
                    CHECK_HARD(c, q[j] - p[i] == static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i), "%s: difference of const and mutable positions is wrong", w);
                }
            }
        }
    }
}
template <class R, class F>
void reverse_laws(Ctx& c, const std::vector<R>& r, const std::vector<F>& f, const char* w)
{
    const std::size_t n = f.size() - 1;
    for (const std::size_t i : sample(c, n + 1))
    {
        CHECK_HARD(c, r[i].base() == f[n - i], "%s: base() of reverse position %zu is not forward position %zu", w, i, n - i);
        auto b = r[i].base();
        if (n - i < n) CHECK_HARD(c, id(b) == id(f[n - i]), "%s: base() denotes another element", w);
        if (i < n)
        {
            --b;
            CHECK_HARD(c, id(b) == id(r[i]), "%s: *--base() is not the reverse position's element", w);
        }
    }
}
template <class C>
void all_laws(Ctx& c, C& x, const std::vector<const void*>& ids)
{
    const C& cx = x;
    std::vector<const void*> rev(ids.rbegin(), ids.rend());
    static_assert(std::is_same_v<decltype(x.begin()), typename C::iterator> && std::is_same_v<decltype(cx.begin()), typename C::const_iterator> && std::is_same_v<decltype(x.cend()), typename C::const_iterator>);
    const auto cf = sequence_laws(c, cx.begin(), cx.end(), ids, "const iterator");
    const auto f = sequence_laws(c, x.begin(), x.end(), ids, "iterator");
    CHECK_HARD(c, x.cbegin() == cf.front() && x.cend() == cf.back(), "cbegin()/cend() differ from begin()/end()");
    conversion_laws(c, f, cf, "iterator");
    if constexpr (requires { x.rbegin(); })
    {
        const auto cr = sequence_laws(c, cx.rbegin(), cx.rend(), rev, "const reverse iterator");
        const auto r = sequence_laws(c, x.rbegin(), x.rend(), rev, "reverse iterator");
        CHECK_HARD(c, x.crbegin() == cr.front() && x.crend() == cr.back(), "crbegin()/crend() differ from rbegin()/rend()");
        if constexpr (!std::is_pointer_v<std::remove_cvref_t<decltype(f[0])>> || true) conversion_laws(c, r, cr, "reverse iterator");
        reverse_laws(c, r, f, "reverse iterator");
        reverse_laws(c, cr, cf, "const reverse iterator");
        // std's own reverse adapter over the forward iterators sees the same sequence
        auto a = std::make_reverse_iterator(cx.end());
        for (std::size_t i = 0; i < rev.size(); i++, ++a) CHECK_HARD(c, id(std::prev(a.base())) == rev[i], "std::reverse_iterator over the const iterators visits another element");
        CHECK_HARD(c, a == std::make_reverse_iterator(cx.begin()), "std::reverse_iterator does not end");
    }
}

// what the container holds, observed without iterators where possible (else nullptr ids: take them from iteration)
template <class D>
void state_laws(Ctx& c, typename D::C& x, const typename D::M& m)
{
    using C = typename D::C;
    const C& cx = x;
    std::vector<const void*> ids;
    c.aside = true;
    CHECK(c, cx.size() == m.size(), "size");
    if constexpr (requires { D::is_map; })
    {
        for (const auto& e : m)
        {
            const auto k = D::EK::make(e.first);
            CHECK(c, cx.contains(k), "a key is missing");
            if constexpr (D::is_map) ids.push_back(std::addressof(x.at(k)));
            else ids.push_back(std::addressof(*x.find(k)));
        }
        if constexpr (!D::ordered)
        {
            c.aside = false;
            std::set<const void*> want(ids.begin(), ids.end());
            std::vector<const void*> seen;
            for (auto it = cx.begin(); it != cx.end() && seen.size() <= ids.size(); ++it) seen.push_back(id(it));
            CHECK_HARD(c, std::set<const void*>(seen.begin(), seen.end()) == want && seen.size() == want.size(), "iteration does not visit each element exactly once");
            ids = seen;
        }
    }
    else if constexpr (requires { cx.at(0); })
    {
        for (std::size_t i = 0; i < m.size(); i++)
        {
            if constexpr (requires { typename D::E; }) CHECK(c, D::E::key(cx.at(i)) == m[i], "an element differs");
            else CHECK(c, cx.at(i) == m[i], "a character differs");
            ids.push_back(std::addressof(x.at(i)));
        }
    }
    else
    {
        c.aside = false;
        for (auto it = cx.begin(); it != cx.end() && ids.size() <= m.size(); ++it)
        {
            const std::size_t i = ids.size();
            CHECK_HARD(c, i < m.size() && D::E::key(*it) == m[i], "iteration visits a wrong element at %zu", i);
            ids.push_back(id(it));
        }
        CHECK_HARD(c, ids.size() == m.size(), "iteration ends after %zu of %zu elements", ids.size(), m.size());
        if (!m.empty()) CHECK_HARD(c, ids.front() == std::addressof(cx.front()) && ids.back() == std::addressof(cx.back()), "first/last element visited is not front()/back()");
    }
    c.aside = false;
    all_laws(c, x, ids);
}

template <class D, std::size_t MAXOPS>
void iter_test(Ctx& c)
{
    el::Registry::reset();
    c.aside = true;
    mode::Slot<D> s;
    s.construct(c);
    state_laws<D>(c, *s.x, s.m);
    auto l = c.loop(MAXOPS);
    std::size_t most = s.m.size();
    while (c.more(l))
    {
        c.aside = true;
        D::mutate(c, *s.x, s.m);
        NOTE(c, "    iterator laws with %zu elements", s.m.size());
        state_laws<D>(c, *s.x, s.m);
        most = std::max<std::size_t>(most, s.m.size());
    }
    c.aside = false;
    if (most >= 2 || D::cap < 2) c.nontrivial();
    s.destroy();
}
}  // namespace laws
