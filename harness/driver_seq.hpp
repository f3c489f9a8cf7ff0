// Model-based driver for the sequence containers: FixedVector, FixedDeque, FixedCircularDeque, FixedList.
#pragma once
#include "elements.hpp"

#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <algorithm>
#include <compare>
#include <concepts>
#include <iterator>
#include <list>
#include <memory>
#include <ranges>
#include <vector>

namespace drv
{
using pbt::Ctx;
enum class Kind
{
    VEC,
    DEQ,
    CIRC,
    LIST,
};
inline std::string show(const std::vector<int>& m)
{
    std::string s = "[";
    for (std::size_t i = 0; i < m.size() && i < 40; i++)
    {
        s += (i != 0 ? " " : "") + std::to_string(m[i]);
    }
    if (m.size() > 40) s += " ...";
    return s + "]";
}

// Source values of a range argument, offered through several iterator categories.
template <class T>
struct RangeArg
{
    std::vector<int> keys;
    std::vector<T> vals;
};

template <Kind K, class CT, class T>
struct SeqDriver
{
    using C = CT;
    using M = std::vector<int>;
    using E = el::El<T>;
    using Elem = T;
    static constexpr Kind kind = K;
    static constexpr std::size_t cap = C::static_max_size();
    static constexpr bool RA = K != Kind::LIST;
    static constexpr bool FRONT = K != Kind::VEC;
    static constexpr bool CIRC = K == Kind::CIRC;
    static constexpr bool copyable = E::copyable;
    static constexpr bool tracked = E::tracked;
    static inline HTLS int counter = 0;

    static void begin_case(Ctx& /*c*/) { counter = 0; }
    static std::size_t live(const M& m) { return m.size(); }

    static int fresh(Ctx& c)
    {
        // mostly unique values (detects misplacement), sometimes small duplicates
        if (c.chance(1, 4)) return static_cast<int>(c.below(4));
        return fresh_plain();
    }
    static int fresh_plain()
    {
        ++counter;
        return 4 + counter % (E::max_key - 8);
    }
    static std::vector<int> fresh_keys(Ctx& c, std::size_t n)
    {
        std::vector<int> k;
        for (std::size_t i = 0; i < n; i++) k.push_back(fresh(c));
        return k;
    }
    static std::string nm() { return std::string(E::name) + "/" + std::to_string(cap); }

    // ---- iterators at an index --------------------------------------------------------------------
    static auto cit(C& x, std::size_t i) { return std::next(x.cbegin(), static_cast<std::ptrdiff_t>(i)); }
    static auto mit(C& x, std::size_t i) { return std::next(x.begin(), static_cast<std::ptrdiff_t>(i)); }
    template <class It>
    static void check_ret(Ctx& c, C& x, It it, const M& m, std::size_t expect, const char* what)
    {
        static_assert(std::is_same_v<It, typename C::iterator>, "must return a mutable iterator");
        const auto d = std::distance(x.begin(), it);
        CHECK(c, d == static_cast<std::ptrdiff_t>(expect), "%s returned an iterator at index %td, expected %zu", what, d, expect);
        if (expect < m.size())
        {
            CHECK(c, E::key(*it) == m[expect], "%s: returned iterator refers to %d, expected %d", what, E::key(*it), m[expect]);
        }
        else
        {
            CHECK(c, it == x.end(), "%s: returned iterator is not end()", what);
        }
    }

    // ---- model operations -------------------------------------------------------------------------
    static bool room(const M& m, std::size_t n = 1) { return m.size() + n <= cap; }
    static bool can_add(const M& m) { return cap > 0 && (CIRC || room(m)); }
    // single insertion; returns index of the inserted element
    static std::size_t model_insert(M& m, std::size_t pos, const std::vector<int>& in)
    {
        std::size_t skip = 0;
        if (CIRC)
        {
            const std::size_t avail = cap - m.size();
            const std::size_t excess = in.size() > avail ? in.size() - avail : 0;
            const std::size_t dropE = std::min(excess, pos);
            skip = excess - dropE;
            m.erase(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(dropE));
            pos -= dropE;
        }
        m.insert(m.begin() + static_cast<std::ptrdiff_t>(pos), in.begin() + static_cast<std::ptrdiff_t>(skip), in.end());
        return pos;
    }
    static void model_push_back(M& m, int k)
    {
        if (CIRC && m.size() == cap) m.erase(m.begin());
        m.push_back(k);
    }
    static void model_push_front(M& m, int k)
    {
        if (CIRC && m.size() == cap) m.pop_back();
        m.insert(m.begin(), k);
    }
    static std::vector<int> tail(const std::vector<int>& v)
    {
        if (v.size() <= cap) return v;
        return std::vector<int>(v.end() - static_cast<std::ptrdiff_t>(cap), v.end());
    }

    static std::vector<T> build(const std::vector<int>& keys)
    {
        std::vector<T> v;
        v.reserve(keys.size());
        for (const int k : keys) v.push_back(E::make(k));
        return v;
    }
    // Calls f(first, last) with some iterator category over the given keys; f(ilist) for initializer lists.
    template <class F, class FI>
    static void with_range(Ctx& c, const std::vector<int>& keys, F&& f, FI&& fi)
    {
        std::vector<T> src = build(keys);
        if constexpr (!copyable)
        {
            NOTE(c, "  range kind: move_iterator");
            f(std::make_move_iterator(src.data()), std::make_move_iterator(src.data() + src.size()));
        }
        else
        {
            switch (c.weighted({3, 4, 3, 1, 2, 1, 2, 1}))
            {
            case 0:
                NOTE(c, "  range kind: pointers");
                f(static_cast<const T*>(src.data()), static_cast<const T*>(src.data() + src.size()));
                break;
            case 1:
            {
                NOTE(c, "  range kind: single-pass input iterators");
                c.label("input-iterator range");
                typename el::InIt<T>::Shared s{src.data(), src.size(), 0};
                f(el::InIt<T>{&s, 0, false}, el::InIt<T>{&s, 0, true});
                // (a full circular deque may drop what is inserted at its beginning without reading it)
                CHECK(c, CIRC || s.pos == src.size(), "an input range was not consumed completely (%zu of %zu)", s.pos, src.size());
                break;
            }
            case 2:
                NOTE(c, "  range kind: forward iterators");
                f(el::FwIt<T>{src.data()}, el::FwIt<T>{src.data() + src.size()});
                break;
            case 3:
            {
                NOTE(c, "  range kind: std::list iterators");
                std::list<T> l(src.begin(), src.end());
                f(l.begin(), l.end());
                break;
            }
            case 4:
            {
                if (src.size() <= 5)
                {
                    NOTE(c, "  range kind: initializer_list");
                    switch (src.size())
                    {
                    case 0: fi(std::initializer_list<T>{}); break;
                    case 1: fi(std::initializer_list<T>{src[0]}); break;
                    case 2: fi(std::initializer_list<T>{src[0], src[1]}); break;
                    case 3: fi(std::initializer_list<T>{src[0], src[1], src[2]}); break;
                    case 4: fi(std::initializer_list<T>{src[0], src[1], src[2], src[3]}); break;
                    default: fi(std::initializer_list<T>{src[0], src[1], src[2], src[3], src[4]}); break;
                    }
                    break;
                }
                [[fallthrough]];
            }
            case 5:
            {
                NOTE(c, "  range kind: std::vector iterators");
                f(src.begin(), src.end());
                break;
            }
            case 6:
            {
                NOTE(c, "  range kind: move_iterator");
                f(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
                return;  // sources moved from
            }
            default:
            {
                NOTE(c, "  range kind: reverse pointers");
                std::reverse(src.begin(), src.end());
                f(std::make_reverse_iterator(static_cast<const T*>(src.data() + src.size())),
                  std::make_reverse_iterator(static_cast<const T*>(src.data())));
                std::reverse(src.begin(), src.end());
                break;
            }
            }
            // the source range must be intact
            for (std::size_t i = 0; i < keys.size(); i++)
            {
                CHECK(c, E::key(src[i]) == keys[i], "the source range of an insertion was modified");
            }
        }
    }

    // ---- constructors -----------------------------------------------------------------------------
    static C* construct(Ctx& c, void* mem, M& m)
    {
        m.clear();
        C* x = nullptr;
        std::size_t which = c.weighted({6, 2, 1, 4, 1});
        if (!copyable && (which == 1 || which == 2 || which == 4)) which = 0;
        if constexpr (copyable)
        {
            if (which == 1)
            {
                const std::size_t n = c.edge(CIRC ? cap + (cap > 0 ? 3 : 0) : cap);
                const int k = fresh(c);
                const T v = E::make(k);
                NOTE(c, "construct(%zu, %d)", n, k);
                x = ON(new (mem) C(n, v));
                m.assign(std::min(n, cap), k);
                return x;
            }
            if constexpr (E::dflt)
            {
                if (which == 2)
                {
                    const std::size_t n = c.edge(CIRC ? cap + (cap > 0 ? 3 : 0) : cap);
                    NOTE(c, "construct(%zu)", n);
                    x = ON(new (mem) C(n));
                    m.assign(std::min(n, cap), 0);
                    return x;
                }
            }
            if constexpr (K == Kind::VEC)
            {
                if (which == 4)
                {
                    const std::size_t n = c.edge(std::min<std::size_t>(cap, 12));
                    const std::vector<int> keys = fresh_keys(c, n);
                    const std::vector<T> src = build(keys);
                    NOTE(c, "Builder %s", show(keys).c_str());
                    typename C::Builder b{};
                    std::size_t done = 0;
                    while (true)
                    {
                        const std::size_t k = c.below(n - done + 1);
                        const auto from = src.begin() + static_cast<std::ptrdiff_t>(done);
                        const auto to = from + static_cast<std::ptrdiff_t>(k);
                        const std::list<T> part(from, to);
                        const bool rv = c.chance(1, 2);
                        const typename C::Builder* same = &b;
                        switch (k == 0 ? 4 : c.below(4))
                        {
                        case 0:
                            for (const T& v : part) same = rv ? &static_cast<const typename C::Builder&>(std::move(b).push_back(v)) : &b.push_back(v);
                            break;
                        case 1:
                            if (rv) same = &static_cast<const typename C::Builder&>(std::move(b).push_back_all(part.begin(), part.end()));
                            else same = &b.push_back_all(from, to);
                            break;
                        case 2:
                            if (rv) same = &static_cast<const typename C::Builder&>(std::move(b).push_back_all(part));
                            else same = &b.push_back_all(part);
                            break;
                        case 3:
                            for (const T& v : part)
                            {
                                if (rv) same = &static_cast<const typename C::Builder&>(std::move(b).push_back_all({v}));
                                else same = &b.push_back_all({v});
                            }
                            break;
                        default: break;
                        }
                        CHECK(c, same == &b, "a builder's call returns another builder");
                        done += k;
                        if (done == n) break;
                    }
                    if (c.chance(1, 2)) x = ON(new (mem) C(b.build()));
                    else x = ON(new (mem) C(std::move(b).build()));
                    m = keys;
                    return x;
                }
            }
        }
        if (which == 3)
        {
            const std::size_t n = c.edge(std::min<std::size_t>(CIRC && cap > 0 ? 2 * cap + 1 : cap, 40));
            const std::vector<int> keys = fresh_keys(c, n);
            NOTE(c, "construct(range %s)", show(keys).c_str());
            with_range(
                c,
                keys,
                [&](auto a, auto b) { x = ON(new (mem) C(a, b)); },
                [&](auto l) { x = ON(new (mem) C(l)); });
            m = tail(keys);
            return x;
        }
        NOTE(c, "default construct");
        x = ON(new (mem) C());
        return x;
    }

    // ---- one random operation ---------------------------------------------------------------------
    static void mutate(Ctx& c, C& x, M& m)
    {
        c.ops();
        enum
        {
            PUSH_BACK,
            PUSH_FRONT,
            POP_BACK,
            POP_FRONT,
            INSERT1,
            INSERTR,
            ERASE1,
            ERASER,
            CLEAR,
            RESIZE,
            ASSIGNN,
            ASSIGNR,
            ERASEV,
            ERASEIF,
            WRITE,
            ALGO,
            FILL,
            DRAIN,
        };
        const bool full = m.size() == cap;
        const std::size_t op = c.weighted({12, FRONT ? 10u : 0u, 6, FRONT ? 7u : 0u, 14, 14, 8, 10, 1, 3, 2, 3, 2, 2, 5, 2, 2, 2});
        switch (op)
        {
        case PUSH_BACK:
        {
            if (!can_add(m)) return pop(c, x, m);
            if (CIRC && full) c.label("overflow at back");
            push(c, x, m, false);
            break;
        }
        case PUSH_FRONT:
        {
            if (!can_add(m)) return pop(c, x, m);
            if (CIRC && full) c.label("overflow at front");
            push(c, x, m, true);
            break;
        }
        case POP_BACK:
            if (m.empty()) return;
            NOTE(c, "pop_back()");
            ON(x.pop_back());
            m.pop_back();
            break;
        case POP_FRONT:
            if constexpr (FRONT)
            {
                if (m.empty()) return;
                NOTE(c, "pop_front()");
                ON(x.pop_front());
                m.erase(m.begin());
            }
            break;
        case INSERT1: insert1(c, x, m); break;
        case INSERTR: insert_range(c, x, m); break;
        case ERASE1:
        {
            if (m.empty()) return;
            const std::size_t i = c.edge(m.size() - 1);
            NOTE(c, "erase(#%zu)", i);
            c.label("erase one");
            const auto p = cit(x, i);
            auto it = ON(x.erase(p));
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(i));
            check_ret(c, x, it, m, i, "erase(pos)");
            break;
        }
        case ERASER:
        {
            const std::size_t i = c.edge(m.size());
            const std::size_t n = c.edge(m.size() - i);
            NOTE(c, "erase(#%zu, #%zu)", i, i + n);
            c.label(n == 0 ? "erase empty range" : "erase range");
            const auto p = cit(x, i);
            const auto q = cit(x, i + n);
            auto it = ON(x.erase(p, q));
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(i), m.begin() + static_cast<std::ptrdiff_t>(i + n));
            check_ret(c, x, it, m, i, "erase(first,last)");
            break;
        }
        case CLEAR:
            NOTE(c, "clear()");
            ON(x.clear());
            m.clear();
            break;
        case RESIZE:
            if constexpr (copyable)
            {
                const std::size_t n = c.edge(cap);
                if constexpr (E::dflt)
                {
                    if (c.chance(1, 3))
                    {
                        NOTE(c, "resize(%zu)", n);
                        ON(x.resize(n));
                        m.resize(n, 0);
                        break;
                    }
                }
                if (n > m.size() && !m.empty() && c.chance(1, 4))
                {
                    const std::size_t j = c.below(m.size());
                    NOTE(c, "resize(%zu, own #%zu)", n, j);
                    const T& r = *cit(x, j);
                    ON(x.resize(n, r));
                    m.resize(n, m[j]);
                    break;
                }
                const int k = fresh(c);
                NOTE(c, "resize(%zu, %d)", n, k);
                const T v = E::make(k);
                ON(x.resize(n, v));
                m.resize(n, k);
            }
            break;
        case ASSIGNN:
            if constexpr (copyable)
            {
                const std::size_t n = c.edge(CIRC && cap > 0 ? cap + 2 : cap);
                const int k = fresh(c);
                NOTE(c, "assign(%zu, %d)", n, k);
                const T v = E::make(k);
                ON(x.assign(n, v));
                m.assign(std::min(n, cap), k);
            }
            break;
        case ASSIGNR:
        {
            const std::size_t n = c.edge(std::min<std::size_t>(CIRC && cap > 0 ? 2 * cap + 1 : cap, 40));
            const std::vector<int> keys = fresh_keys(c, n);
            NOTE(c, "assign(range %s)", show(keys).c_str());
            with_range(
                c, keys, [&](auto a, auto b) { ON(x.assign(a, b)); }, [&](auto l) { ON(x.assign(l)); });
            m = tail(keys);
            break;
        }
        case ERASEV:
        {
            const int k = !m.empty() && c.chance(2, 3) ? m[c.below(m.size())] : static_cast<int>(c.below(4));
            const auto cnt = static_cast<std::size_t>(std::count(m.begin(), m.end(), k));
            NOTE(c, "erase value %d", k);
            std::size_t got = 0;
            if constexpr (K == Kind::LIST)
            {
                if (c.chance(1, 2))
                {
                    // remove(); the value may be one of the list's own elements
                    const auto p = std::find(m.begin(), m.end(), k);
                    if (p != m.end() && c.chance(1, 2))
                    {
                        NOTE(c, "  via remove(own element)");
                        c.label("remove own element");
                        const T& r = *cit(x, static_cast<std::size_t>(p - m.begin()));
                        got = ON(x.remove(r));
                    }
                    else
                    {
                        NOTE(c, "  via remove()");
                        const T v = E::make(k);
                        got = ON(x.remove(v));
                    }
                }
                else
                {
                    const T v = E::make(k);
                    got = ON(erase(x, v));
                }
            }
            else
            {
                const T v = E::make(k);
                got = ON(erase(x, v));
            }
            m.erase(std::remove(m.begin(), m.end(), k), m.end());
            CHECK(c, got == cnt, "erase by value reported %zu erased, expected %zu", got, cnt);
            break;
        }
        case ERASEIF:
        {
            const int mod = 2 + static_cast<int>(c.below(3));
            const int rem = static_cast<int>(c.below(static_cast<std::uint64_t>(mod)));
            NOTE(c, "erase_if(%% %d == %d)", mod, rem);
            auto pm = [=](int k) { return k % mod == rem; };
            auto pr = [=](const T& t) { return pm(E::key(t)); };
            const auto cnt = static_cast<std::size_t>(std::count_if(m.begin(), m.end(), pm));
            std::size_t got = 0;
            if constexpr (K == Kind::LIST)
            {
                if (c.chance(1, 2)) got = ON(x.remove_if(pr));
                else got = ON(erase_if(x, pr));
            }
            else
            {
                got = ON(erase_if(x, pr));
            }
            m.erase(std::remove_if(m.begin(), m.end(), pm), m.end());
            CHECK(c, got == cnt, "erase_if reported %zu erased, expected %zu", got, cnt);
            break;
        }
        case WRITE:
        {
            if (m.empty()) return;
            const std::size_t i = c.edge(m.size() - 1);
            const int k = fresh(c);
            NOTE(c, "write #%zu = %d", i, k);
            T v = E::make(k);
            const std::size_t how = c.below(6);
            if (how == 1) { x.front() = std::move(v); m.front() = k; break; }
            if (how == 2) { x.back() = std::move(v); m.back() = k; break; }
            if constexpr (RA)
            {
                if (how == 3) { x[i] = std::move(v); m[i] = k; break; }
                if (how == 4) { x.at(i) = std::move(v); m[i] = k; break; }
                if constexpr (K == Kind::VEC)
                {
                    if (how == 5) { x.data()[i] = std::move(v); m[i] = k; break; }
                }
            }
            *mit(x, i) = std::move(v);
            m[i] = k;
            break;
        }
        case ALGO:
        {
            if (c.chance(1, 6)) return churn(c, x, m);
            if (c.chance(1, 3)) return compare_with_another(c, x, m);
            switch (c.below(5))
            {
            case 4:
                if constexpr (K == Kind::VEC)
                {
                    const std::size_t n = c.edge(cap);
                    NOTE(c, "reserve(%zu)", n);
                    ON(x.reserve(n));
                }
                break;
            case 0:
                NOTE(c, "std::reverse");
                ON(std::reverse(x.begin(), x.end()));
                std::reverse(m.begin(), m.end());
                break;
            case 1:
                if constexpr (RA)
                {
                    NOTE(c, "std::sort");
                    ON(std::sort(x.begin(), x.end()));
                    std::sort(m.begin(), m.end());
                }
                break;
            case 2:
            {
                if (m.empty()) return;
                const std::size_t i = c.below(m.size());
                NOTE(c, "std::rotate #%zu", i);
                const auto p = mit(x, i);
                ON(std::rotate(x.begin(), p, x.end()));
                std::rotate(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(i), m.end());
                break;
            }
            default:
            {
                if (m.empty()) return;
                const std::size_t i = c.below(m.size());
                const std::size_t j = c.below(m.size());
                NOTE(c, "iter_swap #%zu #%zu", i, j);
                std::iter_swap(mit(x, i), mit(x, j));
                std::swap(m[i], m[j]);
                break;
            }
            }
            break;
        }
        case FILL:
        {
            if (cap > 64 && !c.chance(1, 2)) return;
            NOTE(c, "fill to capacity at back");
            while (m.size() < cap)
            {
                const int k = ++counter % 200;
                T v = E::make(k);
                ON(x.push_back(std::move(v)));
                m.push_back(k);
            }
            break;
        }
        default:
        {
            const std::size_t keep = c.edge(m.size());
            NOTE(c, "drain to %zu", keep);
            while (m.size() > keep)
            {
                if constexpr (FRONT)
                {
                    ON(x.pop_front());
                    m.erase(m.begin());
                }
                else
                {
                    ON(x.pop_back());
                    m.pop_back();
                }
            }
            break;
        }
        }
    }

    static void compare_with_another(Ctx& c, const C& x, const M& m)
    {
        if constexpr (std::equality_comparable<T> && cap <= 400)
        {
            M o = m;
            const std::size_t how = c.below(4);
            if (how == 1 && !o.empty()) o[c.edge(o.size() - 1)] = fresh(c);
            if (how == 2) o.resize(c.edge(o.size()));
            if (how == 3 && o.size() < cap) o.push_back(fresh(c));
            NOTE(c, "compare with %s", show(o).c_str());
            const auto py = std::make_unique<C>();
            for (const int k : o) py->push_back(E::make(k));
            const C& y = *py;
            const std::vector<T> a = build(m), b = build(o);
            CHECK(c, ON(x == y) == (a == b) && ON(y == x) == (a == b) && ON(x != y) == (a != b), "==, != with %s are wrong", show(o).c_str());
            if constexpr (std::three_way_comparable<T>)
            {
                CHECK(c, ON(x <=> y) == (a <=> b) && ON(y <=> x) == (b <=> a), "<=> with %s is wrong", show(o).c_str());
                CHECK(c, ON(x < y) == (a < b) && ON(x <= y) == (a <= b) && ON(x > y) == (a > b) && ON(x >= y) == (a >= b), "<, <=, >, >= with %s are wrong", show(o).c_str());
            }
        }
    }
    // A long stretch of insertions paired with erasures: the contents stay small, the storage is gone through many times
    static void churn(Ctx& c, C& x, M& m)
    {
        if (cap == 0 || cap > 400) return;
        std::size_t n = 1 + c.below(std::size_t{8} << c.below(10));
        if (std::is_trivially_copyable_v<T> && c.chance(1, 12)) n *= 16;
        const std::size_t how = c.below(FRONT ? 4 : 2);
        NOTE(c, "churn %zu times: %s", n, how == 0 ? "push_back, pop_back" : how == 1 ? "insert, erase" : how == 2 ? "push_back, pop_front" : "push_front, pop_back");
        c.label("long churn");
        std::uint32_t r = static_cast<std::uint32_t>(n) * 2654435761u;
        for (std::size_t i = 0; i < n; i++)
        {
            if (m.size() == cap)
            {
                if (how == 2)
                {
                    if constexpr (FRONT) ON(x.pop_front());
                    m.erase(m.begin());
                }
                else if (how == 1)
                {
                    const std::size_t at = (r >> 8) % m.size();
                    ON(x.erase(std::next(x.cbegin(), static_cast<std::ptrdiff_t>(at))));
                    m.erase(m.begin() + static_cast<std::ptrdiff_t>(at));
                }
                else
                {
                    ON(x.pop_back());
                    m.pop_back();
                }
            }
            const int k = fresh_plain();
            T v = E::make(k);
            if (how == 3)
            {
                if constexpr (FRONT) ON(x.push_front(std::move(v)));
                m.insert(m.begin(), k);
            }
            else if (how == 1)
            {
                r = r * 1664525u + 1013904223u;
                const std::size_t at = (r >> 8) % (m.size() + 1);
                ON(x.insert(std::next(x.cbegin(), static_cast<std::ptrdiff_t>(at)), std::move(v)));
                m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), k);
            }
            else
            {
                ON(x.push_back(std::move(v)));
                m.push_back(k);
            }
            CHECK(c, x.size() == m.size() && E::key(x.front()) == m.front() && E::key(x.back()) == m.back(), "churn: round %zu: size %zu, front %d, back %d, expected %zu, %d, %d", i,
                  static_cast<std::size_t>(x.size()), E::key(x.front()), E::key(x.back()), m.size(), m.front(), m.back());
        }
    }

    static void pop(Ctx& c, C& x, M& m)
    {
        if (m.empty()) return;
        if constexpr (FRONT)
        {
            if (c.chance(1, 2))
            {
                NOTE(c, "pop_front()");
                ON(x.pop_front());
                m.erase(m.begin());
                return;
            }
        }
        NOTE(c, "pop_back()");
        ON(x.pop_back());
        m.pop_back();
    }

    static void push(Ctx& c, C& x, M& m, bool front)
    {
        const std::size_t how = c.weighted({3, copyable ? 3u : 0u, 3, copyable && cap > 0 ? 1u : 0u, copyable ? 1u : 0u});
        const int k = fresh(c);
        auto put = [&](int kk)
        {
            if (front) model_push_front(m, kk);
            else model_push_back(m, kk);
        };
        switch (how)
        {
        case 0:
        {
            NOTE(c, "push_%s(T&& %d)", front ? "front" : "back", k);
            T v = E::make(k);
            if constexpr (FRONT)
            {
                if (front) ON(x.push_front(std::move(v)));
                else ON(x.push_back(std::move(v)));
            }
            else ON(x.push_back(std::move(v)));
            put(k);
            return;
        }
        case 1:
            if constexpr (copyable)
            {
                NOTE(c, "push_%s(const T& %d)", front ? "front" : "back", k);
                const T v = E::make(k);
                if constexpr (FRONT)
                {
                    if (front) ON(x.push_front(v));
                    else ON(x.push_back(v));
                }
                else ON(x.push_back(v));
                CHECK(c, E::key(v) == k, "push modified its const argument");
                put(k);
            }
            return;
        case 2:
        {
            NOTE(c, "emplace_%s(%d)", front ? "front" : "back", k);
            if constexpr (FRONT)
            {
                if (front)
                {
                    T& r = ON(x.emplace_front(k));
                    put(k);
                    CHECK(c, std::addressof(r) == std::addressof(x.front()), "emplace_front did not return a reference to the new front");
                    return;
                }
            }
            T& r = ON(x.emplace_back(k));
            put(k);
            CHECK(c, std::addressof(r) == std::addressof(x.back()), "emplace_back did not return a reference to the new back");
            return;
        }
        default:
            if constexpr (copyable)
            {
                // argument refers to an own element
                if (m.empty())
                {
                    const T v = E::make(k);
                    ON(x.push_back(v));
                    model_push_back(m, k);
                    return;
                }
                const std::size_t j = c.edge(m.size() - 1);
                const int kk = m[j];
                c.label("push own element");
                const T& r = *cit(x, j);
                NOTE(c, "%s_%s(own #%zu)", how == 3 ? "push" : "emplace", front ? "front" : "back", j);
                if constexpr (FRONT)
                {
                    if (front)
                    {
                        if (how == 3) ON(x.push_front(r));
                        else ON(x.emplace_front(r));
                        put(kk);
                        return;
                    }
                }
                if (how == 3) ON(x.push_back(r));
                else ON(x.emplace_back(r));
                put(kk);
            }
            return;
        }
    }

    static void insert1(Ctx& c, C& x, M& m)
    {
        if (!can_add(m)) return pop(c, x, m);
        const std::size_t pos = c.edge(m.size());
        const std::size_t how = c.weighted({3, copyable ? 3u : 0u, 3, copyable ? 2u : 0u, copyable ? 2u : 0u});
        const int k = fresh(c);
        const bool full = m.size() == cap;
        c.label(pos == m.size() ? "insert at end" : "insert inside");
        if (CIRC && full) c.label(pos == 0 ? "insert at begin when full" : "insert when full");
        switch (how)
        {
        case 0:
        {
            NOTE(c, "insert(#%zu, T&& %d)", pos, k);
            T v = E::make(k);
            const auto p = cit(x, pos);
            auto it = ON(x.insert(p, std::move(v)));
            const std::size_t e = model_insert(m, pos, {k});
            check_ret(c, x, it, m, e, "insert(pos, T&&)");
            return;
        }
        case 1:
            if constexpr (copyable)
            {
                NOTE(c, "insert(#%zu, const T& %d)", pos, k);
                const T v = E::make(k);
                const auto p = cit(x, pos);
                auto it = ON(x.insert(p, v));
                const std::size_t e = model_insert(m, pos, {k});
                check_ret(c, x, it, m, e, "insert(pos, const T&)");
            }
            return;
        case 2:
        {
            NOTE(c, "emplace(#%zu, %d)", pos, k);
            const auto p = cit(x, pos);
            auto it = ON(x.emplace(p, k));
            const std::size_t e = model_insert(m, pos, {k});
            check_ret(c, x, it, m, e, "emplace(pos, ...)");
            return;
        }
        default:
            if constexpr (copyable)
            {
                if (m.empty()) return;
                const std::size_t j = c.edge(m.size() - 1);
                const int kk = m[j];
                c.label("insert own element");
                NOTE(c, "%s(#%zu, own #%zu)", how == 3 ? "insert" : "emplace", pos, j);
                const T& r = *cit(x, j);
                const auto p = cit(x, pos);
                typename C::iterator it{};
                if (how == 3) it = ON(x.insert(p, r));
                else it = ON(x.emplace(p, r));
                const std::size_t e = model_insert(m, pos, {kk});
                check_ret(c, x, it, m, e, "insert/emplace(pos, own element)");
            }
            return;
        }
    }

    static void insert_range(Ctx& c, C& x, M& m)
    {
        const std::size_t pos = c.edge(m.size());
        const std::size_t max_n = CIRC ? (cap == 0 ? 0 : 2 * cap + 1) : cap - m.size();
        const std::size_t n = c.edge(std::min<std::size_t>(max_n, 40));
        if (n == 0) c.label("insert empty range");
        else c.label(pos == m.size() ? "insert range at end" : "insert range inside");
        if (n > 0 && n + m.size() == cap) c.label("insert range filling exactly");
        if (CIRC && n + m.size() > cap) c.label("insert range overflowing");
        const std::vector<int> keys = fresh_keys(c, n);
        NOTE(c, "insert(#%zu, range %s)", pos, show(keys).c_str());
        const auto p = cit(x, pos);
        typename C::iterator it{};
        with_range(
            c,
            keys,
            [&](auto a, auto b) { it = ON(x.insert(p, a, b)); },
            [&](auto l) { it = ON(x.insert(p, l)); });
        const std::size_t e = model_insert(m, pos, keys);
        check_ret(c, x, it, m, e, "insert(pos, range)");
    }

    static void check_addresses(Ctx& c, C& x)
    {
        const auto* lo = reinterpret_cast<const char*>(std::addressof(x));
        for (const auto& t : x)
        {
            const auto* p = reinterpret_cast<const char*>(std::addressof(t));
            CHECK_HARD(c, p >= lo && p + sizeof(T) <= lo + sizeof(C), "an element lies outside the container object");
        }
    }

    // ---- deep comparison ----------------------------------------------------------------------------
    static void check(Ctx& c, C& x, const M& m)
    {
        const C& cx = x;
        const std::size_t n = m.size();
        NOTE(c, "    model: %s", show(m).c_str());
        CHECK(c, ON(cx.size()) == n, "size() is %zu, expected %zu", cx.size(), n);
        CHECK(c, ON(cx.empty()) == (n == 0), "empty() is wrong");
        CHECK(c, ON(is_full(cx)) == (n == cap), "is_full() is wrong");
        CHECK(c, cx.max_size() == cap && C::static_max_size() == cap, "max_size() is wrong");
        std::size_t i = 0;
        for (auto it = ON(cx.begin()); it != ON(cx.end()); ++it, ++i)
        {
            CHECK(c, i < n, "const iteration runs past %zu elements", n);
            CHECK(c, E::key(*it) == m[i], "element #%zu is %d, expected %d", i, E::key(*it), m[i]);
        }
        CHECK(c, i == n, "const iteration visits %zu of %zu elements", i, n);
        i = n;
        for (auto it = ON(x.rbegin()); it != ON(x.rend()); ++it)
        {
            CHECK(c, i > 0, "reverse iteration runs past %zu elements", n);
            --i;
            CHECK(c, E::key(*it) == m[i], "reverse iteration: element #%zu is %d, expected %d", i, E::key(*it), m[i]);
        }
        CHECK(c, i == 0, "reverse iteration stops with %zu elements left", i);
        i = 0;
        for (auto& t : x)
        {
            CHECK(c, i < n && E::key(t) == m[i], "mutable iteration: element #%zu is wrong", i);
            ++i;
        }
        CHECK(c, i == n, "mutable iteration visits %zu of %zu elements", i, n);
        if (n > 0)
        {
            CHECK(c, E::key(cx.front()) == m.front() && std::addressof(x.front()) == std::addressof(*x.begin()), "front() is wrong");
            CHECK(c, E::key(cx.back()) == m.back() && std::addressof(x.back()) == std::addressof(*std::prev(x.end())), "back() is wrong");
        }
        if constexpr (RA)
        {
            for (i = 0; i < n; i++)
            {
                CHECK(c, E::key(cx[i]) == m[i], "operator[](%zu) is %d, expected %d", i, E::key(cx[i]), m[i]);
                CHECK(c, std::addressof(x.at(i)) == std::addressof(x[i]) && std::addressof(cx.at(i)) == std::addressof(x[i]), "at(%zu) and operator[] differ", i);
            }
        }
        if constexpr (K == Kind::VEC)
        {
            CHECK(c, cx.capacity() == cap, "capacity() is wrong");
            if constexpr (cap > 0)
            {
                for (i = 0; i < n; i++)
                {
                    CHECK(c, cx.data() + i == std::addressof(cx[i]) && x.data() + i == std::addressof(x[i]), "data()+%zu is not element %zu", i, i);
                }
            }
        }
        if constexpr (tracked)
        {
            const auto* lo = reinterpret_cast<const char*>(std::addressof(x));
            for (const auto& t : cx)
            {
                const auto* p = reinterpret_cast<const char*>(std::addressof(t));
                CHECK(c, p >= lo && p + sizeof(T) <= lo + sizeof(C), "an element lies outside the container object");
            }
        }
    }
};

template <class T, std::size_t N>
using VecD = SeqDriver<Kind::VEC, fixed_containers::FixedVector<T, N>, T>;
template <class T, std::size_t N>
using DeqD = SeqDriver<Kind::DEQ, fixed_containers::FixedDeque<T, N>, T>;
template <class T, std::size_t N>
using CircD = SeqDriver<Kind::CIRC, fixed_containers::FixedCircularDeque<T, N>, T>;
template <class T, std::size_t N>
using ListD = SeqDriver<Kind::LIST, fixed_containers::FixedList<T, N>, T>;
}  // namespace drv
