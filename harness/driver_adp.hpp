// Model-based driver for FixedStack, FixedQueue, FixedCircularQueue.
#pragma once
#include "elements.hpp"

#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"

#include <algorithm>
#include <list>
#include <string>
#include <vector>

namespace drv
{
using pbt::Ctx;
enum class Adp
{
    STACK,
    QUEUE,
    CQUEUE,
};
template <Adp A, class CT, class T>
struct AdpDriver
{
    using C = CT;
    using M = std::vector<int>;  // front/bottom first
    using E = el::El<T>;
    static constexpr std::size_t cap = C::static_max_size();
    static constexpr bool copyable = E::copyable;
    static constexpr bool tracked = E::tracked;
    static constexpr bool CIRC = A == Adp::CQUEUE;
    static inline HTLS int counter = 0;
    static void begin_case(Ctx&) { counter = 0; }
    static std::size_t live(const M& m) { return m.size(); }
    static int fresh(Ctx& c)
    {
        if (c.chance(1, 6)) return static_cast<int>(c.below(3));
        return 3 + ++counter % (E::max_key - 8);
    }
    static std::string show(const M& m)
    {
        std::string s = "[";
        for (std::size_t i = 0; i < m.size() && i < 40; i++) s += (i != 0 ? " " : "") + std::to_string(m[i]);
        return s + "]";
    }
    static void model_push(M& m, int k)
    {
        if (CIRC && m.size() == cap) m.erase(m.begin());
        m.push_back(k);
    }
    static void model_pop(M& m)
    {
        if (A == Adp::STACK) m.pop_back();
        else m.erase(m.begin());
    }
    static C* construct(Ctx& c, void* mem, M& m)
    {
        m.clear();
        if (c.chance(1, 2))
        {
            NOTE(c, "default construct");
            return ON(new (mem) C());
        }
        const std::size_t n = c.edge(std::min<std::size_t>(CIRC && cap > 0 ? 2 * cap + 1 : cap, 40));
        std::vector<int> keys;
        std::vector<T> src;
        for (std::size_t i = 0; i < n; i++)
        {
            keys.push_back(fresh(c));
            src.push_back(E::make(keys.back()));
        }
        NOTE(c, "construct(range %s)", show(keys).c_str());
        for (const int k : keys) model_push(m, k);
        if constexpr (copyable)
        {
            switch (c.below(4))
            {
            case 0: return ON(new (mem) C(src.begin(), src.end()));
            case 1:
            {
                NOTE(c, "  from input iterators");
                typename el::InIt<T>::Shared s{src.data(), src.size(), 0};
                return ON(new (mem) C(el::InIt<T>{&s, 0, false}, el::InIt<T>{&s, 0, true}));
            }
            case 2: return ON(new (mem) C(el::FwIt<T>{src.data()}, el::FwIt<T>{src.data() + src.size()}));
            default: break;
            }
        }
        return ON(new (mem) C(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end())));
    }
    static void mutate(Ctx& c, C& x, M& m)
    {
        c.ops();
        const bool can = cap > 0 && (CIRC || m.size() < cap);
        switch (c.weighted({8, 6, 6, 10, 3, 2, 3}))
        {
        case 0:
        {
            if (!can) return;
            if (m.size() == cap) c.label("push when full");
            const int k = fresh(c);
            NOTE(c, "push(T&& %d)", k);
            T v = E::make(k);
            ON(x.push(std::move(v)));
            model_push(m, k);
            break;
        }
        case 1:
            if constexpr (copyable)
            {
                if (!can) return;
                if (!m.empty() && c.chance(1, 4))
                {
                    const bool top = A == Adp::STACK || c.chance(1, 2);
                    const int k = top ? m.back() : m.front();
                    NOTE(c, "push(own %s)", top ? "back/top" : "front");
                    const T* r = nullptr;
                    if constexpr (A == Adp::STACK) r = std::addressof(x.top());
                    else r = top ? std::addressof(x.back()) : std::addressof(x.front());
                    ON(x.push(*r));
                    model_push(m, k);
                    break;
                }
                const int k = fresh(c);
                NOTE(c, "push(const T& %d)", k);
                const T v = E::make(k);
                ON(x.push(v));
                CHECK(c, E::key(v) == k, "push modified its argument");
                model_push(m, k);
            }
            break;
        case 2:
        {
            if (!can) return;
            const int k = fresh(c);
            NOTE(c, "emplace(%d)", k);
            T& r = ON(x.emplace(k));
            model_push(m, k);
            if constexpr (A == Adp::STACK) CHECK(c, std::addressof(r) == std::addressof(x.top()), "emplace does not return a reference to the new element");
            else CHECK(c, std::addressof(r) == std::addressof(x.back()), "emplace does not return a reference to the new element");
            break;
        }
        case 3:
            if (m.empty()) return;
            NOTE(c, "pop()");
            ON(x.pop());
            model_pop(m);
            break;
        case 4:
        {
            if (m.empty()) return;
            const int k = fresh(c);
            T v = E::make(k);
            if constexpr (A == Adp::STACK)
            {
                NOTE(c, "top() = %d", k);
                x.top() = std::move(v);
                m.back() = k;
            }
            else if (c.chance(1, 2))
            {
                NOTE(c, "front() = %d", k);
                x.front() = std::move(v);
                m.front() = k;
            }
            else
            {
                NOTE(c, "back() = %d", k);
                x.back() = std::move(v);
                m.back() = k;
            }
            break;
        }
        case 5:
        {
            // swap with another of random contents, twice
            M m2;
            C y{};
            const std::size_t n = c.edge(std::min<std::size_t>(cap, 12));
            for (std::size_t i = 0; i < n; i++)
            {
                const int k = fresh(c);
                y.push(E::make(k));
                m2.push_back(k);
            }
            NOTE(c, "swap with %s", show(m2).c_str());
            ON(std::swap(x, y));
            std::swap(m, m2);
            drain(c, y, m2);
            break;
        }
        default:
        {
            NOTE(c, "cycle through the storage");
            const std::size_t n = c.chance(1, 30) ? c.below(std::size_t{64} << c.below(11)) : c.below(cap > 40 ? 40 : 2 * cap + 2);
            for (std::size_t i = 0; i < n && cap > 0; i++)
            {
                if (!CIRC && m.size() == cap)
                {
                    ON(x.pop());
                    model_pop(m);
                }
                const int k = fresh(c);
                ON(x.push(E::make(k)));
                model_push(m, k);
            }
            break;
        }
        }
    }
    static void look(Ctx& c, C& x, const M& m)
    {
        const C& cx = x;
        const std::size_t n = m.size();
        CHECK(c, ON(cx.size()) == n, "size() is %zu, expected %zu", cx.size(), n);
        CHECK(c, ON(cx.empty()) == (n == 0), "empty() is wrong");
        CHECK(c, ON(is_full(cx)) == (n == cap), "is_full() is wrong");
        CHECK(c, cx.max_size() == cap, "max_size() is wrong");
        if (n == 0) return;
        if constexpr (A == Adp::STACK)
        {
            CHECK(c, E::key(ON(cx.top())) == m.back() && E::key(ON(x.top())) == m.back(), "top() is %d, expected %d", E::key(cx.top()), m.back());
        }
        else
        {
            CHECK(c, E::key(ON(cx.front())) == m.front() && E::key(ON(x.front())) == m.front(), "front() is %d, expected %d", E::key(cx.front()), m.front());
            CHECK(c, E::key(ON(cx.back())) == m.back() && E::key(ON(x.back())) == m.back(), "back() is %d, expected %d", E::key(cx.back()), m.back());
        }
    }
    static void drain(Ctx& c, C& y, M m)
    {
        look(c, y, m);
        while (!m.empty())
        {
            ON(y.pop());
            model_pop(m);
            look(c, y, m);
        }
    }
    static void check_addresses(Ctx& c, C& x)
    {
        if (x.empty()) return;
        const auto* lo = reinterpret_cast<const char*>(std::addressof(x));
        const char* p = nullptr;
        if constexpr (A == Adp::STACK) p = reinterpret_cast<const char*>(std::addressof(x.top()));
        else p = reinterpret_cast<const char*>(std::addressof(x.front()));
        CHECK_HARD(c, p >= lo && p + sizeof(T) <= lo + sizeof(C), "an element lies outside the container object");
    }
    static void check(Ctx& c, C& x, const M& m)
    {
        NOTE(c, "    model: %s", show(m).c_str());
        look(c, x, m);
        if constexpr (copyable)
        {
            if (cap <= 64 || c.chance(1, 8))
            {
                C y(static_cast<const C&>(x));
                CHECK(c, ON(y == x), "a copy does not compare equal");
                drain(c, y, m);
            }
        }
        else if (c.chance(1, 4))
        {
            C y(std::move(x));
            // drain, then refill: contents of a move-only adapter can only be seen by popping
            std::vector<int> order;
            M mm = m;
            std::vector<T> out;
            while (!mm.empty())
            {
                look(c, y, mm);
                if constexpr (A == Adp::STACK) out.push_back(std::move(y.top()));
                else out.push_back(std::move(y.front()));
                ON(y.pop());
                model_pop(mm);
            }
            if constexpr (A == Adp::STACK) std::reverse(out.begin(), out.end());
            x = C(std::make_move_iterator(out.begin()), std::make_move_iterator(out.end()));
        }
    }
};
template <class T, std::size_t N>
using StackD = AdpDriver<Adp::STACK, fixed_containers::FixedStack<T, N>, T>;
template <class T, std::size_t N>
using QueueD = AdpDriver<Adp::QUEUE, fixed_containers::FixedQueue<T, N>, T>;
template <class T, std::size_t N>
using CQueueD = AdpDriver<Adp::CQUEUE, fixed_containers::FixedCircularQueue<T, N>, T>;
}  // namespace drv
