// C16: interpreters for operation sequences that run in constant evaluation, at run time, and on the std counterparts.
// An operation is four ints; every interpreter folds each result and the whole contents into a digest.
#pragma once
#include "fixed_containers/consteval_compare.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/max_size.hpp"

#include <algorithm>
#include <array>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <iterator>
#include <list>
#include <map>
#include <queue>
#include <set>
#include <stack>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace ce
{
namespace fc = fixed_containers;
using u64 = std::uint64_t;
struct Op { int code, a, b, c; };
struct Digest
{
    u64 h = 1469598103934665603ULL;
    constexpr void add(u64 x)
    {
        h = (h ^ x) * 1099511628211ULL;
        h ^= h >> 29;
    }
    constexpr void add_view(std::string_view s)
    {
        add(s.size());
        for (const char c : s) add(static_cast<unsigned char>(c));
    }
    friend constexpr bool operator==(const Digest&, const Digest&) = default;
};

// ---- element types
struct Pt  // structural aggregate
{
    int x{};
    int y{};
    friend constexpr auto operator<=>(const Pt&, const Pt&) = default;
};
inline long allocated = 0;  // blocks held at run time
constexpr int* hold(int v)
{
    if (!std::is_constant_evaluated()) allocated++;
    return new int(v);
}
constexpr void release(int* p)
{
    if (!std::is_constant_evaluated() && p != nullptr) allocated--;
    delete p;
}
// Owns memory: constant evaluation rejects a leak, a double destruction and a use after destruction
struct Box
{
    int* p;
    constexpr Box() : p(hold(0)) {}
    constexpr explicit Box(int v) : p(hold(v)) {}
    constexpr Box(const Box& o) : p(hold(*o.p)) {}
    constexpr Box(Box&& o) noexcept : p(o.p) { o.p = hold(-1); }
    constexpr Box& operator=(const Box& o) { *p = *o.p; return *this; }
    constexpr Box& operator=(Box&& o) noexcept { const int v = *o.p; *o.p = -1; *p = v; if (this == &o) *p = v; return *this; }
    constexpr ~Box() { release(p); }
    friend constexpr bool operator==(const Box& a, const Box& b) { return *a.p == *b.p; }
    friend constexpr auto operator<=>(const Box& a, const Box& b) { return *a.p <=> *b.p; }
};
struct Own  // move-only
{
    int* p;
    constexpr Own() : p(hold(0)) {}
    constexpr explicit Own(int v) : p(hold(v)) {}
    constexpr Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; }
    constexpr Own& operator=(Own&& o) noexcept { if (this != &o) { release(p); p = o.p; o.p = nullptr; } return *this; }
    Own(const Own&) = delete;
    Own& operator=(const Own&) = delete;
    constexpr ~Own() { release(p); }
    friend constexpr bool operator==(const Own& a, const Own& b) { return *a.p == *b.p; }
    friend constexpr auto operator<=>(const Own& a, const Own& b) { return *a.p <=> *b.p; }
};
struct Fix  // copyable, not assignable
{
    const int v;
    constexpr explicit Fix(int k = 0) : v(k) {}
    friend constexpr auto operator<=>(const Fix&, const Fix&) = default;
};
using Str = fc::FixedString<11>;
using Vec = fc::FixedVector<int, 3>;
inline constexpr std::string_view TEXT = "the quick brown fox jumps over the lazy dog and keeps running for quite a while longer than sixty-four bytes";
template <class T>
constexpr T mk(int v)
{
    if constexpr (std::is_same_v<T, Pt>) return Pt{v, 3 * v + 1};
    else if constexpr (std::is_same_v<T, Str>) { Str s; for (int i = 0; i <= v % 9; i++) s.push_back(static_cast<char>('a' + (v + i * i) % 5)); return s; }
    else if constexpr (std::is_same_v<T, Vec>) { Vec s; for (int i = 0; i < v % 4; i++) s.push_back(v + i); return s; }
    else if constexpr (std::is_same_v<T, std::string_view>) return TEXT.substr(static_cast<std::size_t>(v % 7), static_cast<std::size_t>(v * 5 % 97));
    else return T(v);
}
constexpr u64 val(std::string_view s) { Digest d; d.add_view(s); return d.h; }
constexpr u64 val(int v) { return static_cast<u64>(static_cast<std::int64_t>(v)); }
constexpr u64 val(unsigned char v) { return v; }
constexpr u64 val(const Pt& p) { return val(p.x) * 1000003 + val(p.y); }
constexpr u64 val(const Box& b) { return val(*b.p); }
constexpr u64 val(const Own& b) { return val(*b.p); }
constexpr u64 val(const Fix& b) { return val(b.v); }
constexpr u64 val(const Str& s) { Digest d; d.add_view(s); return d.h; }
constexpr u64 val(const Vec& s) { Digest d; for (const int x : s) d.add(val(x)); return d.h; }
template <class T>
inline constexpr bool COPY = std::is_copy_constructible_v<T>;
template <class T>
inline constexpr bool ASSIGN = std::is_move_assignable_v<T>;

// what stands in for an element type in the std model
template <class T>
using Shadow = std::conditional_t<std::is_same_v<T, Box> || std::is_same_v<T, Own> || std::is_same_v<T, Fix>, int, T>;
struct BoxHash { constexpr std::size_t operator()(const Box& b) const { return static_cast<std::size_t>(*b.p) % 3; } };
struct ViewHash { constexpr u64 operator()(std::string_view s) const { return val(s); } };
struct BadHash { constexpr u64 operator()(int v) const { return static_cast<u64>(v % 2); } };

// ---- sequences
struct Seq
{
    template <class S>
    static constexpr void contents(Digest& d, const S& s)
    {
        d.add(s.size());
        d.add(s.empty());
        for (const auto& x : s) d.add(val(x));
    }
    template <class S>
    static constexpr void backwards(Digest& d, const S& s)
    {
        for (auto it = s.rbegin(); it != s.rend(); ++it) d.add(val(*it));
        for (auto it = s.cend(); it != s.cbegin();) d.add(val(*--it));
    }
    template <class S>
    static constexpr auto at(S& s, std::size_t i) { return std::next(s.begin(), static_cast<std::ptrdiff_t>(i)); }
    template <class S>
    static constexpr auto cat(const S& s, std::size_t i) { return std::next(s.cbegin(), static_cast<std::ptrdiff_t>(i)); }
    template <class S>
    static constexpr std::size_t pos(const S& s, typename S::const_iterator it) { return static_cast<std::size_t>(std::distance(s.cbegin(), it)); }

    // CIRC: pushing onto a full container drops the element at the other end
    template <int KIND, class E, std::size_t CAP, bool CIRC, bool MODEL, class S>  // KIND 0: vector, 1: deque, 2: list; E: element type
    static constexpr void step(Digest& d, S& s, S& o, const Op& op)
    {
        using T = typename S::value_type;
        const std::size_t n = s.size();
        const std::size_t a = static_cast<std::size_t>(op.a), b = static_cast<std::size_t>(op.b);
        const int v = op.c;
        const bool room = n < CAP;
        switch (op.code)
        {
        case 0:
            if (room || (CIRC && CAP > 0))
            {
                if constexpr (CIRC && MODEL) { if (!room) s.pop_front(); }
                if constexpr (COPY<E>) { const T x = mk<T>(v); s.push_back(x); }
                else s.push_back(mk<T>(v));
            }
            break;
        case 1:
            if (room || (CIRC && CAP > 0))
            {
                if constexpr (CIRC && MODEL) { if (!room) s.pop_front(); }
                if constexpr (std::is_same_v<T, Pt> || std::is_same_v<T, Str> || std::is_same_v<T, Vec>) d.add(val(s.emplace_back(mk<T>(v))));
                else d.add(val(s.emplace_back(v)));
            }
            break;
        case 2: if (n > 0) s.pop_back(); break;
        case 3:
            if constexpr (KIND != 0)
                if (room || (CIRC && CAP > 0))
                {
                    if constexpr (CIRC && MODEL) { if (!room) s.pop_back(); }
                    if constexpr (COPY<E>) { const T x = mk<T>(v); if (a % 2 == 0) s.push_front(x); else s.push_front(T(x)); }
                    else s.push_front(mk<T>(v));
                }
            break;
        case 4:
            if constexpr (KIND != 0)
                if (n > 0) s.pop_front();
            break;
        case 5:
            if (room)
            {
                if constexpr (COPY<E>) { const T x = mk<T>(v); d.add(pos(s, s.insert(cat(s, a % (n + 1)), x))); }
                else d.add(pos(s, s.insert(cat(s, a % (n + 1)), mk<T>(v))));
            }
            break;
        case 6: if (room) d.add(pos(s, s.insert(cat(s, a % (n + 1)), mk<T>(v)))); break;
        case 7: break;
        case 8:
            if constexpr (COPY<E>)
                if (CAP > 0)
                {
                    const std::array<T, 3> src{mk<T>(v), mk<T>(v + 1), mk<T>(v + 2)};
                    const std::size_t k = std::min<std::size_t>(b % 4, CAP - n);
                    d.add(pos(s, s.insert(cat(s, a % (n + 1)), src.begin(), src.begin() + static_cast<std::ptrdiff_t>(k))));
                }
            break;
        case 9: if (n > 0) d.add(pos(s, s.erase(cat(s, a % n)))); break;
        case 10:
        {
            const std::size_t f = a % (n + 1), l = f + b % (n - f + 1);
            d.add(pos(s, s.erase(cat(s, f), cat(s, l))));
            break;
        }
        case 11:
            if constexpr (COPY<E>) { if (op.b % 2 == 0) s.resize(a % (CAP + 1), mk<T>(v)); else s.resize(a % (CAP + 1)); }
            else s.resize(a % (CAP + 1));
            break;
        case 12:
            if constexpr (COPY<E> && ASSIGN<E>)
            {
                if (op.b % 2 == 0) s.assign(a % (CAP + 1), mk<T>(v));
                else
                {
                    const std::array<T, 3> src{mk<T>(v), mk<T>(v + 1), mk<T>(v + 2)};
                    s.assign(src.begin(), src.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(a % 4, CAP)));
                }
            }
            break;
        case 13: s.clear(); break;
        case 14:
            if constexpr (COPY<E> && ASSIGN<E>) { if (op.a % 2 == 0) { S t(o); d.add(t == o); s = t; } else s = o; }
            else s = S{};
            break;
        case 15: { S t(std::move(o)); o = S{}; s = std::move(t); break; }
        case 16: { using std::swap; swap(s, o); break; }
        case 17: if constexpr (ASSIGN<E>) { if (n > 0) { *at(s, a % n) = mk<T>(v); if (op.b % 2 == 0) s.front() = mk<T>(v + 1); else s.back() = mk<T>(v + 1); } } break;
        case 18:  // an element of the container itself
            if constexpr (COPY<E>)
                if (room && n > 0)
                {
                    const T& own = *at(s, b % n);
                    d.add(pos(s, s.insert(cat(s, a % (n + 1)), own)));
                }
            break;
        case 19:
            d.add(s == o);
            d.add(s != o);
            d.add(s < o);
            d.add(s <= o);
            d.add((s <=> o) > 0);
            d.add(s == s);
            break;
        case 20:
            if constexpr (ASSIGN<E>)
            {
                if constexpr (MODEL) { using std::erase_if; d.add(erase_if(s, [&](const T& x) { return val(x) % 3 == a % 3; })); }
                else d.add(fc::erase_if(s, [&](const T& x) { return val(x) % 3 == a % 3; }));
            }
            break;
        case 21:
            if constexpr (KIND != 2)
                for (std::size_t i = 0; i < n; i++)
                {
                    if constexpr (MODEL) { for (int k = 0; k < 3; k++) d.add(val(*cat(s, i))); }
                    else { d.add(val(s[i])); d.add(val(std::as_const(s).at(i))); d.add(val(std::as_const(s)[i])); }
                }
            if (n > 0) { d.add(val(std::as_const(s).front())); d.add(val(std::as_const(s).back())); }
            break;
        case 22:
            if constexpr (KIND == 2) { d.add(s.remove(mk<T>(v))); }
            else if constexpr (ASSIGN<E>)
            {
                std::reverse(s.begin(), s.end());
            }
            break;
        case 23:
            if constexpr (ASSIGN<E> && KIND != 2)
            {
                if constexpr (MODEL) s.sort([](const T& x, const T& y) { return val(x) < val(y); });
                else std::sort(s.begin(), s.end(), [](const T& x, const T& y) { return val(x) < val(y); });
            }
            break;
        case 24:
            if (room)
            {
                if constexpr (std::is_same_v<T, Pt> || std::is_same_v<T, Str> || std::is_same_v<T, Vec>) d.add(pos(s, s.emplace(cat(s, a % (n + 1)), mk<T>(v))));
                else d.add(pos(s, s.emplace(cat(s, a % (n + 1)), v)));
            }
            break;
        default:
            if constexpr (COPY<E>)
            {
                const std::array<T, 3> src{mk<T>(v), mk<T>(v + 1), mk<T>(v + 2)};
                S t(src.begin(), src.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(a % 4, CAP)));
                S u(b % (CAP + 1), mk<T>(v));
                contents(d, t);
                contents(d, u);
            }
        }
    }
};
template <int KIND, class E, std::size_t CAP, bool CIRC = false>
struct SeqRun
{
    template <class S, bool MODEL>
    static constexpr void go(Digest& d, S& s, S& o, const Op* ops, std::size_t from, std::size_t to)
    {
        for (std::size_t i = from; i < to; i++)
        {
            Seq::step<KIND, E, CAP, CIRC, MODEL>(d, s, o, ops[i]);
            Seq::contents(d, s);
            Seq::contents(d, o);
            Seq::backwards(d, s);
        }
    }
    template <class S>
    static constexpr void final(Digest& d, const S& s) { Seq::contents(d, s); Seq::backwards(d, s); }
};

// ---- strings
template <std::size_t CAP>
struct StrRun
{
    template <class S>
    static constexpr void final(Digest& d, const S& s)
    {
        d.add(s.size());
        d.add(s.empty());
        for (std::size_t i = 0; i < s.size(); i++) d.add(static_cast<unsigned char>(s[i]));
        d.add(s.c_str()[s.size()] == '\0');
        for (auto it = s.rbegin(); it != s.rend(); ++it) d.add(static_cast<unsigned char>(*it));
    }
    template <class S, bool MODEL>
    static constexpr void step(Digest& d, S& s, S& o, const Op& op)
    {
        const std::size_t n = s.size(), a = static_cast<std::size_t>(op.a), b = static_cast<std::size_t>(op.b);
        const std::string_view all = "abcabcdabcaabbccddabcd", piece = all.substr(a % 12, b % 6), fit = piece.substr(0, std::min(piece.size(), CAP - n));
        const char ch = static_cast<char>('a' + op.c % 5);
        switch (op.code)
        {
        case 0: if (n < CAP) s.push_back(ch); break;
        case 1: if (n > 0) s.pop_back(); break;
        case 2: { S& r = s.append(fit); d.add(&r == &s); break; }
        case 3: s += fit; break;
        case 4: if (n < CAP) s += ch; break;
        case 5: { auto it = s.insert(s.cbegin() + static_cast<std::ptrdiff_t>(a % (n + 1)), fit.begin(), fit.end()); d.add(static_cast<u64>(it - s.begin())); break; }
        case 6: if (n < CAP) { auto it = s.insert(std::next(s.cbegin(), static_cast<std::ptrdiff_t>(a % (n + 1))), ch); d.add(static_cast<u64>(it - s.begin())); } break;
        case 7: if (n > 0) { auto it = s.erase(std::next(s.cbegin(), static_cast<std::ptrdiff_t>(a % n))); d.add(static_cast<u64>(it - s.begin())); } break;
        case 8:
        {
            const std::size_t f = a % (n + 1), l = f + b % (n - f + 1);
            auto it = s.erase(s.cbegin() + static_cast<std::ptrdiff_t>(f), s.cbegin() + static_cast<std::ptrdiff_t>(l));
            d.add(static_cast<u64>(it - s.begin()));
            break;
        }
        case 9: s.resize(a % (CAP + 1), ch); break;
        case 10: s.resize(a % (CAP + 1)); break;
        case 11: s.clear(); break;
        case 12: s.assign(piece.substr(0, std::min(piece.size(), CAP))); break;
        case 13: s.assign(a % (CAP + 1), ch); break;
        case 14: s = o; break;
        case 15: { using std::swap; swap(s, o); break; }
        case 16: { const std::string_view x = s, y = o; d.add(s == o); d.add(s < o); d.add(x == y); const int r = s.compare(o); d.add(r < 0 ? 0 : r > 0 ? 2 : 1); d.add(s == piece); d.add(piece < s); break; }
        case 17:
            d.add(s.find(piece, a % 3)); d.add(s.rfind(piece)); d.add(s.find(ch)); d.add(s.find_first_of(piece)); d.add(s.find_last_of(piece));
            d.add(s.find_first_not_of(piece)); d.add(s.find_last_not_of(piece)); d.add(s.starts_with(piece)); d.add(s.ends_with(piece)); d.add(s.starts_with(ch));
            break;
        case 18: { const auto t = s.substr(a % (n + 1), b % 7); d.add_view(t); break; }
        case 19: if (n > 0) { s[a % n] = ch; d.add(static_cast<unsigned char>(s.front())); d.add(static_cast<unsigned char>(s.back())); d.add(static_cast<unsigned char>(s.at(a % n))); } break;
        default: { S t(piece.substr(0, std::min(piece.size(), CAP))); final(d, t); S u(b % (CAP + 1), ch); final(d, u); s.append(fit.begin(), fit.end()); }
        }
    }
    template <class S, bool MODEL>
    static constexpr void go(Digest& d, S& s, S& o, const Op* ops, std::size_t from, std::size_t to)
    {
        for (std::size_t i = from; i < to; i++)
        {
            step<S, MODEL>(d, s, o, ops[i]);
            final(d, s);
            final(d, o);
        }
    }
};

// ---- maps and sets
template <class C>
concept IsMap = requires { typename C::mapped_type; };
enum class Col : int { RED = -3, GREEN = 0, BLUE = 7, BLACK = 12, WHITE = 13 };
constexpr u64 val(Col c) { return val(static_cast<int>(c)); }
inline constexpr std::array<Col, 5> COLS{Col::RED, Col::GREEN, Col::BLUE, Col::BLACK, Col::WHITE};
template <class K>
constexpr K key(int i)
{
    if constexpr (std::is_same_v<K, Col>) return COLS[static_cast<std::size_t>(i) % 5];
    else return mk<K>(i);
}
template <class V_, std::size_t CAP, bool ORDERED, bool BOUNDS = ORDERED>
struct AssocRun
{
    template <class M>
    static constexpr bool has(const M& m, const typename M::key_type& k) { return m.contains(k); }
    template <class I>
    static constexpr u64 entry(const I& it)
    {
        if constexpr (requires { it->second; }) { Digest d; d.add(val(it->first)); d.add(val(it->second)); return d.h; }
        else if constexpr (requires { it->first(); }) { Digest d; d.add(val(it->first())); d.add(val(it->second())); return d.h; }
        else { Digest d; d.add(val(*it)); return d.h; }
    }
    template <class M>
    static constexpr u64 where(const M& m, typename M::const_iterator it) { return it == m.cend() ? 77 : entry(it); }
    template <class M>
    static constexpr void final(Digest& d, const M& m)
    {
        d.add(m.size());
        d.add(m.empty());
        u64 sum = 0;
        for (auto it = m.begin(); it != m.end(); ++it)
        {
            if constexpr (ORDERED) d.add(entry(it));
            else sum += entry(it) * entry(it);
        }
        if constexpr (ORDERED)
            for (auto it = m.rbegin(); it != m.rend(); ++it) d.add(entry(it));
        d.add(sum);
        for (int i = 0; i < 24; i++)
        {
            const auto k = key<typename M::key_type>(i);
            d.add(m.contains(k));
            d.add(where(m, m.find(k)));
            if constexpr (IsMap<M>) { if (m.contains(k)) d.add(val(m.at(k))); }
        }
    }
    template <class M>
    static constexpr bool fits(const M& m, const typename M::key_type& k) { return m.size() < CAP || m.contains(k); }
    template <class M, bool MODEL>
    static constexpr void step(Digest& d, M& m, M& o, const Op& op)
    {
        using K = typename M::key_type;
        const K k = key<K>(op.a);
        const int v = op.c;
        switch (op.code)
        {
        case 0: case 1: case 2:
            if (fits(m, k))
            {
                if constexpr (IsMap<M>)
                {
                    using V = typename M::mapped_type;
                    if constexpr (COPY<V_>) { const std::pair<const K, V> p(k, mk<V>(v)); const auto r = m.insert(p); d.add(r.second); d.add(where(m, r.first)); }
                    else { const auto r = m.try_emplace(k, v); d.add(r.second); d.add(where(m, r.first)); }
                }
                else { const auto r = m.insert(k); d.add(r.second); d.add(where(m, r.first)); }
            }
            break;
        case 3:
            if (fits(m, k))
            {
                if constexpr (IsMap<M>) { using V = typename M::mapped_type; const auto r = m.try_emplace(k, mk<V>(v)); d.add(r.second); d.add(where(m, r.first)); }
                else { const auto r = m.emplace(k); d.add(r.second); d.add(where(m, r.first)); }
            }
            break;
        case 4:
            if (fits(m, k))
                if constexpr (IsMap<M>) { using V = typename M::mapped_type; if constexpr (ASSIGN<V_>) { const auto r = m.insert_or_assign(k, mk<V>(v)); d.add(r.second); d.add(where(m, r.first)); } }
            break;
        case 5:
            if (fits(m, k))
                if constexpr (IsMap<M>) { using V = typename M::mapped_type; if constexpr (ASSIGN<V_>) { d.add(val(m[k])); m[k] = mk<V>(v); } }
            break;
        case 6: case 7: d.add(m.erase(k)); break;
        case 8:
        {
            auto it = m.find(k);
            if (it != m.end())
            {
                const auto r = m.erase(it);
                if constexpr (ORDERED) d.add(where(m, r));
            }
            break;
        }
        case 9:
            if constexpr (ORDERED)
            {
                const std::size_t n = m.size(), f = static_cast<std::size_t>(op.a) % (n + 1), l = f + static_cast<std::size_t>(op.b) % (n - f + 1);
                auto first = std::next(m.cbegin(), static_cast<std::ptrdiff_t>(f));
                auto last = std::next(m.cbegin(), static_cast<std::ptrdiff_t>(l));
                d.add(where(m, m.erase(first, last)));
            }
            break;
        case 10: m.clear(); break;
        case 11:
            if constexpr (!IsMap<M>) { m = o; }
            else if constexpr (COPY<V_> && ASSIGN<V_>) { if (op.b % 2 == 0) m = o; else { M t(o); d.add(t == o); m = t; } }
            break;
        case 12: if constexpr (ASSIGN<V_>) { M t(std::move(o)); o = M{}; m = std::move(t); } break;
        case 13: if constexpr (ASSIGN<V_>) { using std::swap; swap(m, o); } break;
        case 14: d.add(m == o); d.add(m == m); d.add(m != o); break;
        case 15:
            if constexpr (BOUNDS)
            {
                d.add(where(m, m.lower_bound(k)));
                d.add(where(m, std::as_const(m).upper_bound(k)));
                const auto r = m.equal_range(k);
                d.add(where(m, r.first));
                d.add(where(m, r.second));
            }
            break;
        case 16:
            if constexpr (IsMap<M>)
            {
                using V = typename M::mapped_type;
                if constexpr (ASSIGN<V_>)
                {
                    auto it = m.find(k);
                    if (it != m.end())
                    {
                        if constexpr (requires { it->second() = mk<V>(v); }) it->second() = mk<V>(v);
                        else it->second = mk<V>(v);
                    }
                }
            }
            break;
        case 17:
            if constexpr (MODEL) d.add(std::erase_if(m, [&](const auto& e) { if constexpr (IsMap<M>) return val(e.first) % 3 == static_cast<u64>(op.a) % 3; else return val(e) % 3 == static_cast<u64>(op.a) % 3; }));
            else d.add(fc::erase_if(m, [&](const auto& e) { if constexpr (IsMap<M>) return val(e.first) % 3 == static_cast<u64>(op.a) % 3; else return val(e) % 3 == static_cast<u64>(op.a) % 3; }));
            break;
        default:
            if constexpr (IsMap<M>) d.add(m.count(k));
            d.add(m.contains(k));
        }
    }
    template <class M, bool MODEL>
    static constexpr void go(Digest& d, M& m, M& o, const Op* ops, std::size_t from, std::size_t to)
    {
        for (std::size_t i = from; i < to; i++)
        {
            step<M, MODEL>(d, m, o, ops[i]);
            d.add(m.size());
            if (i % 4 == 3) { final(d, m); final(d, o); }
        }
    }
};

// ---- stacks and queues
template <std::size_t CAP, bool CIRC = false>
struct AdpRun
{
    template <class A>
    static constexpr void final(Digest& d, A a)
    {
        d.add(a.size());
        while (!a.empty())
        {
            if constexpr (requires { a.top(); }) d.add(val(a.top()));
            else { d.add(val(a.front())); d.add(val(a.back())); }
            a.pop();
        }
    }
    template <class A, bool MODEL>
    static constexpr void go(Digest& d, A& s, A& o, const Op* ops, std::size_t from, std::size_t to)
    {
        using T = typename A::value_type;
        for (std::size_t i = from; i < to; i++)
        {
            const Op& op = ops[i];
            if (op.code < 9)
            {
                if (s.size() < CAP || (CIRC && CAP > 0))
                {
                    if constexpr (CIRC && MODEL) { if (s.size() == CAP) s.pop(); }
                    if (op.code % 2 == 0) s.push(mk<T>(op.c));
                    else if constexpr (std::is_same_v<T, Pt> || std::is_same_v<T, Str> || std::is_same_v<T, Vec>) s.emplace(mk<T>(op.c));
                    else s.emplace(op.c);
                }
            }
            else if (op.code < 15) { if (!s.empty()) s.pop(); }
            else if (op.code < 17) s = o;
            else if (op.code < 19) { using std::swap; swap(s, o); }
            else if (op.code < 20) { d.add(s == o); }
            else if (!s.empty())
            {
                if constexpr (requires { s.top(); }) s.top() = mk<T>(op.c);
                else { s.front() = mk<T>(op.c); s.back() = mk<T>(op.c + 1); }
            }
            d.add(s.size());
            d.add(s.empty());
            final(d, s);
        }
    }
};

// ---- the three evaluations
template <class R, class C, bool MODEL>
constexpr u64 whole(const Op* ops, std::size_t n)
{
    Digest d;
    {
        C s{}, o{};
        R::template go<C, MODEL>(d, s, o, ops, 0, n);
        R::final(d, s);
    }
    return d.h;
}
template <class C>
struct State
{
    u64 h;
    C s;
    C o;
};
template <class R, class C>
constexpr State<C> prefix(const Op* ops, std::size_t upto)
{
    Digest d;
    C s{}, o{};
    R::template go<C, false>(d, s, o, ops, 0, upto);
    return State<C>{d.h, s, o};
}
// continue at run time from the state a constant expression left behind
template <class R, class C>
u64 resume(const State<C>& st, const Op* ops, std::size_t n, std::size_t from)
{
    Digest d;
    d.h = st.h;
    C s(st.s), o(st.o);
    R::template go<C, false>(d, s, o, ops, from, n);
    R::final(d, s);
    return d.h;
}
template <class R, class C>
constexpr u64 digest_of(const C& c)
{
    Digest d;
    R::final(d, c);
    return d.h;
}
template <auto VALUE>
struct Arg
{
    template <class R>
    static constexpr u64 digest() { Digest d; R::final(d, VALUE); return d.h; }
};
inline u64 evaluations = 0;
inline bool report(int index, const char* what, u64 a, u64 b)
{
    evaluations++;
    if (a == b) return true;
    std::printf("FAIL %d %s: %016llx / %016llx\n", index, what, static_cast<unsigned long long>(a), static_cast<unsigned long long>(b));
    return false;
}
template <class R, class C, class M>
bool judge(int index, const Op* ops, std::size_t n, u64 at_compile_time)
{
    const u64 model = whole<R, M, true>(ops, n);
    bool ok = report(index, "constant evaluation / std model", at_compile_time, model);
    const long before = allocated;
    ok &= report(index, "run time / std model", whole<R, C, false>(ops, n), model);
    ok &= report(index, "blocks held by elements at run time, after / before", static_cast<u64>(allocated), static_cast<u64>(before));
    return ok;
}
template <class R, class C, class M>
bool judge_split(int index, const Op* ops, std::size_t n, const State<C>& part, std::size_t split)
{
    return report(index, "resumed at run time from a constant-evaluated prefix / std model", resume<R, C>(part, ops, n, split), whole<R, M, true>(ops, n));
}
// capacities, as the type, the object and the generic trait tell them
template <class C, std::size_t CAP>
bool capacity_is(int index)
{
    const C c{};
    bool ok = report(index, "max_size_v / capacity", fc::max_size_v<C>, CAP) & report(index, "static_max_size() / capacity", C::static_max_size(), CAP);
    if constexpr (requires { c.max_size(); }) ok &= report(index, "max_size() / capacity", c.max_size(), CAP);
    if constexpr (requires { c.capacity(); }) ok &= report(index, "capacity() / capacity", c.capacity(), CAP);
    return ok & report(index, "is_full() of an empty container", is_full(c), CAP == 0);
}
// consteval_compare of two constants, and the comparisons of two run-time copies of them
template <auto A, auto B>
bool compared(int index)
{
    auto a = A;
    auto b = B;
    bool ok = true;
    if constexpr (requires { a == b; })
        ok &= report(index, "consteval_compare equal / not equal", fc::consteval_compare::equal<A, B> * 2 + fc::consteval_compare::not_equal<A, B>, (a == b) * 2 + (a != b));
    if constexpr (requires { a < b; a >= b; })
        ok &= report(index, "consteval_compare orderings",
                     fc::consteval_compare::less<A, B> * 8 + fc::consteval_compare::less_or_equal<A, B> * 4 + fc::consteval_compare::greater<A, B> * 2 + fc::consteval_compare::greater_or_equal<A, B>,
                     (a < b) * 8 + (a <= b) * 4 + (a > b) * 2 + (a >= b));
    return ok;
}
}  // namespace ce
