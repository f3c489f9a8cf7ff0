// Model-based driver for FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet.
#pragma once
#include "elements.hpp"

#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"

#include <algorithm>
#include <iterator>
#include <list>
#include <concepts>
#include <new>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

namespace drv
{
using pbt::Ctx;

struct Probe
{
    int k;
};
// a probe that is equivalent to every key in [lo, hi]
struct Span
{
    int lo, hi;
};
template <class K>
int keyof(const K& k)
{
    if constexpr (std::is_same_v<K, Probe>) return k.k;
    else return el::El<K>::key(k);
}
inline int fdiv(int a, int d) { return a / d; }  // keys are non-negative

// Stateful comparator: order by key/div, ascending or descending. Counts its calls.
struct CmpState
{
    static inline HTLS int cur_dir = 0;   // what newly constructed containers get
    static inline HTLS int cur_div = 1;
    static inline HTLS std::uint64_t calls = 0;
};
template <class K, bool TRANSPARENT>
struct Cmp;
template <class K>
struct Cmp<K, false>
{
    int dir = 0;
    int div = 1;
    bool operator()(const K& a, const K& b) const
    {
        ++CmpState::calls;
        const int x = fdiv(keyof(a), div), y = fdiv(keyof(b), div);
        return dir != 0 ? y < x : x < y;
    }
};
template <class K>
struct Cmp<K, true>
{
    using is_transparent = void;
    int dir = 0;
    int div = 1;
    template <class A, class B>
    bool operator()(const A& a, const B& b) const
    {
        ++CmpState::calls;
        if constexpr (std::is_same_v<A, Span>) return dir != 0 ? fdiv(keyof(b), div) < fdiv(a.lo, div) : fdiv(a.hi, div) < fdiv(keyof(b), div);
        else if constexpr (std::is_same_v<B, Span>) return dir != 0 ? fdiv(b.hi, div) < fdiv(keyof(a), div) : fdiv(keyof(a), div) < fdiv(b.lo, div);
        else return order(a, b);
    }
    template <class A, class B>
    bool order(const A& a, const B& b) const
    {
        const int x = fdiv(keyof(a), div), y = fdiv(keyof(b), div);
        return dir != 0 ? y < x : x < y;
    }
};
// Stateful adversarial hash over key/div
inline std::uint64_t mix(std::uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline std::uint64_t adversarial_hash(int mode, std::uint64_t k)
{
    switch (mode)
    {
    case 0: return k << 8;                       // consecutive buckets, fingerprint 0
    case 1: return 0;                            // everything collides
    case 2: return k;                            // one bucket, differing fingerprints
    case 3: return mix(k);                       // well spread
    case 4: return (k % 2) << 8;                 // two adjacent runs
    case 5: return ((k % 3) << 8) | (k % 2);     // short runs with two fingerprints
    case 6: return ~0ull - (k << 8);             // descending, from the last bucket backwards
    case 7: return ((k / 2) << 8) | (mix(k) & 1);
    case 8: return (mix(k) << 8) | 0xFF;         // spread, one fingerprint
    default: return (~0ull << 8) | (mix(k) & 3); // one high bucket
    }
}
inline constexpr int N_HASH_MODES = 10;
struct HashState
{
    static inline HTLS int cur_mode = 0;
    static inline HTLS int cur_div = 1;
};
template <class K>
struct AdvHash
{
    int mode = 3;
    int div = 1;
    std::uint64_t operator()(const K& k) const { return adversarial_hash(mode, static_cast<std::uint64_t>(fdiv(keyof(k), div))); }
};
template <class K>
struct CoarseEq
{
    int div = 1;
    bool operator()(const K& a, const K& b) const { return fdiv(keyof(a), div) == fdiv(keyof(b), div); }
};

// ---- policies: how keys compare -----------------------------------------------------------------------
struct PolLess  // std::less / default hash
{
    static constexpr bool custom = false;
    static constexpr bool is_enum = false;
    static constexpr bool transparent = false;
    static void begin_case(Ctx&) {}
    static bool lt(int a, int b) { return a < b; }
};
struct PolGreater
{
    static constexpr bool custom = false;
    static constexpr bool is_enum = false;
    static constexpr bool transparent = true;  // std::greater<>
    static void begin_case(Ctx&) {}
    static bool lt(int a, int b) { return b < a; }
};
struct PolEnum  // enum keys, numbered by position in the enum's list of values
{
    static constexpr bool custom = false;
    static constexpr bool is_enum = true;
    static constexpr bool transparent = false;
    static void begin_case(Ctx&) {}
    static bool lt(int a, int b) { return a < b; }
};
template <bool TR>
struct PolCmp
{
    static constexpr bool custom = true;
    static constexpr bool is_enum = false;
    static constexpr bool transparent = TR;
    static void begin_case(Ctx& c)
    {
        CmpState::cur_dir = static_cast<int>(c.below(2));
        CmpState::cur_div = c.chance(1, 3) ? 3 : 1;
        NOTE(c, "comparator: %s, keys equivalent when equal /%d", CmpState::cur_dir != 0 ? "descending" : "ascending", CmpState::cur_div);
    }
    static bool lt(int a, int b)
    {
        const int x = fdiv(a, CmpState::cur_div), y = fdiv(b, CmpState::cur_div);
        return CmpState::cur_dir != 0 ? y < x : x < y;
    }
};
struct PolHash
{
    static constexpr bool custom = true;
    static constexpr bool is_enum = false;
    static constexpr bool transparent = false;
    static void begin_case(Ctx& c)
    {
        HashState::cur_mode = static_cast<int>(c.below(N_HASH_MODES));
        HashState::cur_div = c.chance(1, 3) ? 3 : 1;
        NOTE(c, "hash mode %d, keys equal when equal /%d", HashState::cur_mode, HashState::cur_div);
    }
    static bool lt(int a, int b) { return fdiv(a, HashState::cur_div) < fdiv(b, HashState::cur_div); }
};

using KV = std::pair<int, int>;
inline std::string show(const std::vector<KV>& m)
{
    std::string s = "{";
    for (std::size_t i = 0; i < m.size() && i < 30; i++)
    {
        s += (i != 0 ? " " : "") + std::to_string(m[i].first) + ":" + std::to_string(m[i].second);
    }
    if (m.size() > 30) s += " ...";
    return s + "}";
}

template <bool MAP, bool ORD, class CT, class K, class V, class Pol>
struct AssocDriver
{
    using C = CT;
    using M = std::vector<KV>;  // sorted by Pol::lt
    using EK = el::El<K>;
    using EV = el::El<V>;
    static constexpr std::size_t cap = C::static_max_size();
    static constexpr bool is_map = MAP;
    static constexpr bool ordered = ORD;
    static constexpr bool kcopy = EK::copyable;
    static constexpr bool vcopy = EV::copyable;
    static constexpr bool copyable = kcopy && (!MAP || vcopy);
    static constexpr bool tracked = EK::tracked || (MAP && EV::tracked);
    static inline HTLS int domain = 1;
    static inline HTLS int counter = 0;

    static void begin_case(Ctx& c)
    {
        counter = 0;
        Pol::begin_case(c);
        // key domains: about the capacity, twice the capacity, or wide
        const int small = static_cast<int>(cap) + 1;
        switch (c.below(3))
        {
        case 0: domain = 2 * small + 4; break;
        case 1: domain = small + small / 4 + 1; break;
        default: domain = 8 * small + 40; break;
        }
        domain = std::min(domain, EK::max_key);
    }
    // what a container carries besides its contents (comparator / hash state)
    struct State
    {
        int dir, div, mode, hdiv;
    };
    static State get_state() { return {CmpState::cur_dir, CmpState::cur_div, HashState::cur_mode, HashState::cur_div}; }
    static void set_state(const State& s)
    {
        CmpState::cur_dir = s.dir;
        CmpState::cur_div = s.div;
        HashState::cur_mode = s.mode;
        HashState::cur_div = s.hdiv;
    }
    static std::size_t live(const M& m)
    {
        return m.size() * ((EK::tracked ? 1u : 0u) + (MAP && EV::tracked ? 1u : 0u));
    }
    static int pick_key(Ctx& c, const M& m)
    {
        if (!m.empty() && c.chance(1, 3)) return m[c.edge(m.size() - 1)].first;
        return static_cast<int>(c.below(static_cast<std::uint64_t>(domain)));
    }
    static int pick_new_key(Ctx& c) { return static_cast<int>(c.below(static_cast<std::uint64_t>(domain))); }
    static int pick_val(Ctx& /*c*/)
    {
        ++counter;
        return 1 + counter % 20000 % (EV::max_key - 2);
    }
    // ---- model ------------------------------------------------------------------------------------
    static std::size_t lb(const M& m, int k)
    {
        return static_cast<std::size_t>(std::lower_bound(m.begin(), m.end(), k, [](const KV& a, int b) { return Pol::lt(a.first, b); }) - m.begin());
    }
    static std::size_t ub(const M& m, int k)
    {
        return static_cast<std::size_t>(std::upper_bound(m.begin(), m.end(), k, [](int a, const KV& b) { return Pol::lt(a, b.first); }) - m.begin());
    }
    static bool has(const M& m, int k) { return lb(m, k) != ub(m, k); }
    static bool ok_to_insert(const M& m, int k) { return m.size() < cap || has(m, k); }
    // returns {index, inserted}
    static std::pair<std::size_t, bool> model_insert(M& m, int k, int v, bool assign = false)
    {
        const std::size_t i = lb(m, k);
        if (i != ub(m, k))
        {
            if (assign) m[i].second = v;
            return {i, false};
        }
        m.insert(m.begin() + static_cast<std::ptrdiff_t>(i), KV{k, v});
        return {i, true};
    }

    // ---- element access ---------------------------------------------------------------------------
    template <class It>
    static int itkey(It it)
    {
        if constexpr (MAP) return EK::key(it->first);
        else return EK::key(*it);
    }
    template <class It>
    static int itval(It it)
    {
        if constexpr (MAP) return EV::key((*it).second);
        else return 0;
    }
    static int mval(const KV& e)
    {
        if constexpr (MAP) return e.second;
        else return 0;
    }
    template <class Cont, class It>
    static void check_at(Ctx& c, Cont& x, It it, const M& m, std::size_t idx, const char* what)
    {
        if (idx >= m.size())
        {
            CHECK(c, it == x.end(), "%s: expected end()", what);
            return;
        }
        CHECK(c, it != x.end(), "%s: got end(), expected %d", what, m[idx].first);
        CHECK(c, itkey(it) == m[idx].first, "%s: iterator refers to key %d, expected %d", what, itkey(it), m[idx].first);
        CHECK(c, itval(it) == mval(m[idx]), "%s: iterator refers to value %d, expected %d", what, itval(it), mval(m[idx]));
    }
    template <class R>
    static void check_ins(Ctx& c, C& x, const R& r, const M& m, std::pair<std::size_t, bool> e, const char* what)
    {
        if constexpr (requires { r.second; r.first; })
        {
            CHECK(c, r.second == e.second, "%s reported inserted=%d, expected %d", what, static_cast<int>(r.second), static_cast<int>(e.second));
            check_at(c, x, r.first, m, e.first, what);
        }
        else
        {
            check_at(c, x, r, m, e.first, what);
        }
    }
    // iterator to the element with the model index i, reached by iteration (independent of find)
    static typename C::iterator it_of(Ctx& c, C& x, const M& m, std::size_t i)
    {
        if (i >= m.size()) return x.end();
        for (auto it = x.begin(); it != x.end(); ++it)
        {
            if (itkey(it) == m[i].first) return it;
        }
        c.fail("key %d is not reached by iteration", m[i].first);
    }

    // ---- construction -----------------------------------------------------------------------------
    template <class... A>
    static C* make(void* mem, A&&... a)
    {
        if constexpr (!Pol::custom)
        {
            return ON(new (mem) C(std::forward<A>(a)...));
        }
        else if constexpr (ORD)
        {
            using Compare = Cmp<K, Pol::transparent>;
            return ON(new (mem) C(std::forward<A>(a)..., Compare{CmpState::cur_dir, CmpState::cur_div}));
        }
        else
        {
            return ON(new (mem) C(std::forward<A>(a)..., AdvHash<K>{HashState::cur_mode, HashState::cur_div}, CoarseEq<K>{HashState::cur_div}));
        }
    }
    using Elem = std::conditional_t<MAP, std::pair<const K, V>, K>;
    static Elem elem(int k, int v)
    {
        if constexpr (MAP) return Elem(EK::make(k), EV::make(v));
        else return EK::make(k);
    }
    template <class F, class FI>
    static void with_range(Ctx& c, const std::vector<KV>& in, F&& f, FI&& fi)
    {
        std::list<Elem> src;
        for (const auto& [k, v] : in)
        {
            if constexpr (MAP) src.emplace_back(EK::make(k), EV::make(v));
            else src.emplace_back(EK::make(k));
        }
        if constexpr (!copyable)
        {
            if constexpr (kcopy || !MAP) f(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
            else c.fail("harness: range of non-copyable keys");
        }
        else
        {
            switch (c.below(4))
            {
            case 0: f(src.cbegin(), src.cend()); break;
            case 1:
            {
                NOTE(c, "  range kind: single-pass input iterators");
                std::vector<Elem> v2(src.begin(), src.end());
                typename el::InIt<Elem>::Shared s{v2.data(), v2.size(), 0};
                f(el::InIt<Elem>{&s, 0, false}, el::InIt<Elem>{&s, 0, true});
                CHECK(c, s.pos == v2.size(), "an input range was not consumed completely");
                break;
            }
            case 2:
                if (in.size() <= 3)
                {
                    NOTE(c, "  range kind: initializer_list");
                    auto b = src.begin();
                    if (in.empty()) fi(std::initializer_list<Elem>{});
                    else if (in.size() == 1) fi(std::initializer_list<Elem>{*b});
                    else if (in.size() == 2) fi(std::initializer_list<Elem>{*b, *std::next(b)});
                    else fi(std::initializer_list<Elem>{*b, *std::next(b), *std::next(b, 2)});
                    break;
                }
                [[fallthrough]];
            default: f(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end())); break;
            }
        }
    }
    // A list of entries (duplicates allowed) whose insertion stays within capacity
    static std::vector<KV> draw_entries(Ctx& c, const M& m, std::size_t max_n)
    {
        M sim = m;
        std::vector<KV> in;
        const std::size_t n = c.edge(max_n);
        for (std::size_t i = 0; i < n; i++)
        {
            const int k = pick_key(c, sim);
            if (!ok_to_insert(sim, k)) continue;
            const int v = pick_val(c);
            in.push_back({k, v});
            model_insert(sim, k, v);
        }
        return in;
    }
    static constexpr bool range_ok = copyable || kcopy || !MAP;

    static C* construct(Ctx& c, void* mem, M& m)
    {
        m.clear();
        if constexpr (range_ok)
        {
            if (c.chance(1, 3))
            {
                const std::vector<KV> in = draw_entries(c, m, std::min<std::size_t>(cap, 20));
                NOTE(c, "construct(range %s)", show(in).c_str());
                C* x = nullptr;
                with_range(
                    c, in, [&](auto a, auto b) { x = make(mem, a, b); }, [&](auto l) { x = make(mem, l); });
                for (const auto& [k, v] : in) model_insert(m, k, v);
                return x;
            }
        }
        NOTE(c, "default construct");
        return make(mem);
    }

    // ---- operations -------------------------------------------------------------------------------
    static void mutate(Ctx& c, C& x, M& m)
    {
        c.ops();
        switch (c.weighted({20, 4, 6, 6, 4, 1, 3, 3, 2, 2}))
        {
        case 0: insert_one(c, x, m); break;
        case 1:
        {
            if constexpr (range_ok)
            {
                const std::vector<KV> in = draw_entries(c, m, std::min<std::size_t>(cap, 16));
                NOTE(c, "insert(range %s)", show(in).c_str());
                with_range(
                    c, in, [&](auto a, auto b) { ON(x.insert(a, b)); }, [&](auto l) { ON(x.insert(l)); });
                for (const auto& [k, v] : in) model_insert(m, k, v);
            }
            break;
        }
        case 2:  // erase(key)
        {
            const int k = pick_key(c, m);
            const std::size_t i = lb(m, k);
            const bool present = has(m, k);
            std::size_t got = 0;
            if (present && c.chance(1, 4))
            {
                NOTE(c, "erase(own key %d)", m[i].first);
                c.label("erase(own key)");
                const K& r = key_ref(it_of(c, x, m, i));
                got = ON(x.erase(r));
            }
            else
            {
                NOTE(c, "erase(key %d)", k);
                const K kk = EK::make(k);
                got = ON(x.erase(kk));
            }
            CHECK(c, got == (present ? 1u : 0u), "erase(key %d) returned %zu", k, got);
            if (present) m.erase(m.begin() + static_cast<std::ptrdiff_t>(i));
            c.label(present ? "erase present key" : "erase absent key");
            break;
        }
        case 3:  // erase(iterator)
        {
            if (m.empty()) return;
            const std::size_t i = c.edge(m.size() - 1);
            NOTE(c, "erase(iterator at %d)", m[i].first);
            const auto p = it_of(c, x, m, i);
            int nk = -1;
            {
                auto q = std::next(p);
                if (q != x.end()) nk = itkey(q);
            }
            typename C::iterator r{};
            if (c.chance(1, 2)) r = ON(x.erase(p));
            else
            {
                const typename C::const_iterator cp = p;
                r = ON(x.erase(cp));
            }
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(i));
            if (nk == -1) CHECK(c, r == x.end(), "erase(iterator) of the last element did not return end()");
            else CHECK(c, r != x.end() && itkey(r) == nk, "erase(iterator) did not return the following element");
            if constexpr (ORD) check_at(c, x, r, m, i, "erase(iterator)");
            break;
        }
        case 4:  // erase(range)
        {
            const std::size_t a = c.edge(m.size());
            const std::size_t n = c.edge(m.size() - a);
            c.label(n == 0 ? "erase empty range" : "erase range");
            // positions along the iteration order
            typename C::const_iterator f = std::next(x.cbegin(), static_cast<std::ptrdiff_t>(a));
            typename C::const_iterator l = std::next(f, static_cast<std::ptrdiff_t>(n));
            std::vector<int> gone;
            for (auto it = f; it != l; ++it) gone.push_back(itkey(it));
            const int nk = l == x.cend() ? -1 : itkey(l);
            NOTE(c, "erase(range #%zu..#%zu)", a, a + n);
            auto r = ON(x.erase(f, l));
            for (const int k : gone)
            {
                m.erase(std::find_if(m.begin(), m.end(), [&](const KV& e) { return e.first == k; }));
            }
            if (nk == -1) CHECK(c, r == x.end(), "erase(range) to the end did not return end()");
            else CHECK(c, r != x.end() && itkey(r) == nk, "erase(range) did not return the element after the range");
            break;
        }
        case 5:
            NOTE(c, "clear()");
            ON(x.clear());
            m.clear();
            break;
        case 6:  // erase_if
        {
            const int mod = 2 + static_cast<int>(c.below(3));
            const int rem = static_cast<int>(c.below(static_cast<std::uint64_t>(mod)));
            NOTE(c, "erase_if(key %% %d == %d)", mod, rem);
            std::size_t seen = 0;
            const std::size_t got = ON(erase_if(x,
                                                [&](const auto& e)
                                                {
                                                    ++seen;
                                                    if constexpr (MAP) return EK::key(e.first) % mod == rem;
                                                    else return EK::key(e) % mod == rem;
                                                }));
            CHECK(c, seen == m.size(), "erase_if asked its predicate %zu times for %zu elements", seen, m.size());
            const std::size_t want = static_cast<std::size_t>(std::erase_if(m, [&](const KV& e) { return e.first % mod == rem; }));
            CHECK(c, got == want, "erase_if reported %zu erased, expected %zu", got, want);
            break;
        }
        case 7:  // write through an iterator
            if constexpr (MAP)
            {
                if (m.empty()) return;
                const std::size_t i = c.edge(m.size() - 1);
                const int v = pick_val(c);
                NOTE(c, "write [%d] = %d through iterator", m[i].first, v);
                auto it = it_of(c, x, m, i);
                V t = EV::make(v);
                if (c.chance(1, 2)) it->second = std::move(t);
                else (*it).second = std::move(t);
                m[i].second = v;
            }
            break;
        case 8:  // fill
        {
            if (cap > 64 && !c.chance(1, 3)) return;
            const bool up = c.chance(1, 2);
            NOTE(c, "fill with %s keys", up ? "ascending" : "descending");
            for (int j = 0; j < domain && m.size() < cap; j++)
            {
                const int k = up ? j : domain - 1 - j;
                const int v = pick_val(c);
                put(c, x, k, v);
                model_insert(m, k, v);
            }
            break;
        }
        default:  // drain
        {
            if (c.chance(1, 4)) return churn(c, x, m);
            if (c.chance(1, 3)) return compare_with_another(c, x, m);
            const std::size_t keep = c.edge(m.size());
            const std::size_t how = c.below(3);
            NOTE(c, "drain to %zu (%s)", keep, how == 0 ? "from the front" : how == 1 ? "from the back" : "scattered");
            while (m.size() > keep)
            {
                const std::size_t i = how == 0 ? 0 : how == 1 ? m.size() - 1 : (m.size() * 5 / 8) % m.size();
                const K kk = EK::make(m[i].first);
                CHECK(c, ON(x.erase(kk)) == 1, "erase of the present key %d returned 0", m[i].first);
                m.erase(m.begin() + static_cast<std::ptrdiff_t>(i));
            }
            break;
        }
        }
    }
    // The other container holds the same elements, or one value, one key or one element more or less differs
    static void compare_with_another(Ctx& c, const C& x, const M& m)
    {
        if constexpr (std::equality_comparable<K> && (!MAP || std::equality_comparable<V>) && cap <= 400)
        {
            M o = m;
            bool same = true;
            const std::size_t how = c.below(4);
            if (how == 1 && MAP && !o.empty())
            {
                auto& e = o[c.edge(o.size() - 1)];
                const int was = e.second;
                e.second = pick_val(c);
                same = EV::make(e.second) == EV::make(was);
            }
            if (how == 2 && !o.empty()) o.erase(o.begin() + static_cast<std::ptrdiff_t>(c.edge(o.size() - 1))), same = false;
            if (how == 3)
            {
                if (!o.empty() && c.chance(1, 2)) o.erase(o.begin() + static_cast<std::ptrdiff_t>(c.edge(o.size() - 1))), same = false;
                const int k = pick_new_key(c);
                if (o.size() < cap && !has(m, k)) model_insert(o, k, pick_val(c)), same = false;
            }
            NOTE(c, "compare with %s", show(o).c_str());
            struct Free { void operator()(C* p) const { p->~C(); ::operator delete(p, std::align_val_t{alignof(C)}); } };
            const std::unique_ptr<C, Free> py(make(::operator new(sizeof(C), std::align_val_t{alignof(C)})));
            const std::size_t from = c.below(o.size() + 1);
            for (std::size_t i = 0; i < o.size(); i++)
            {
                const auto& e = o[(from + i) % o.size()];
                put(c, *py, e.first, e.second);
            }
            const C& y = *py;
            CHECK(c, ON(x == y) == same && ON(y == x) == same && ON(x != y) == !same, "==, != with %s are wrong", show(o).c_str());
        }
    }
    // A long stretch of insertions and erasures of pseudo-random keys
    static void churn(Ctx& c, C& x, M& m)
    {
        if (cap == 0 || cap > 400) return;
        const std::size_t n = 1 + c.below(std::size_t{8} << c.below(EK::tracked || EV::tracked ? 7 : 10));
        std::uint32_t r = static_cast<std::uint32_t>(n) * 2654435761u + static_cast<std::uint32_t>(c.below(8));
        const bool fifo = c.chance(1, 3);
        NOTE(c, "churn: %zu insertions or erasures of %s keys", n, fifo ? "cycling" : "scattered");
        c.label("long churn");
        for (std::size_t i = 0; i < n; i++)
        {
            r = r * 1664525u + 1013904223u;
            int k = fifo ? static_cast<int>(i % static_cast<std::size_t>(domain)) : static_cast<int>((r >> 9) % static_cast<std::uint32_t>(domain));
            const bool had = has(m, k);
            const K probe = EK::make(k);
            CHECK(c, ON(x.contains(probe)) == had, "churn: round %zu: contains(%d) is not %d", i, k, had ? 1 : 0);
            if (!had && m.size() == cap) k = fifo ? (m.front().first) : m[(r >> 7) % m.size()].first;
            if (has(m, k))
            {
                const K kk = EK::make(k);
                CHECK(c, ON(x.erase(kk)) == 1, "churn: round %zu: erase of the present key %d returned 0", i, k);
                m.erase(m.begin() + static_cast<std::ptrdiff_t>(lb(m, k)));
            }
            else
            {
                const int v = pick_val(c);
                put(c, x, k, v);
                model_insert(m, k, v);
            }
            CHECK(c, x.size() == m.size(), "churn: round %zu: size %zu, expected %zu", i, static_cast<std::size_t>(x.size()), m.size());
        }
    }
    static void put(Ctx& /*c*/, C& x, int k, int v)
    {
        K kk = EK::make(k);
        if constexpr (MAP)
        {
            V vv = EV::make(v);
            ON(x.try_emplace(std::move(kk), std::move(vv)));
        }
        else ON(x.insert(std::move(kk)));
    }
    template <class It>
    static const K& key_ref(It it)
    {
        if constexpr (MAP) return (*it).first;
        else return *it;
    }
    static typename C::const_iterator hint(Ctx& c, C& x, const M& m)
    {
        return std::next(x.cbegin(), static_cast<std::ptrdiff_t>(c.below(m.size() + 1)));
    }

    static void insert_one(Ctx& c, C& x, M& m)
    {
        int k = pick_key(c, m);
        if (!ok_to_insert(m, k))
        {
            if (m.empty()) return;  // capacity 0
            k = m[c.below(m.size())].first;
        }
        const int v = pick_val(c);
        const bool present = has(m, k);
        c.label(present ? "insert present key" : "insert new key");
        if (!present && m.size() + 1 == cap) c.label("insert fills to capacity");
        if constexpr (!MAP)
        {
            switch (c.below(7))
            {
            case 0:
            {
                NOTE(c, "insert(K&& %d)", k);
                K kk = EK::make(k);
                auto r = ON(x.insert(std::move(kk)));
                check_ins(c, x, r, m, model_insert(m, k, 0), "insert(K&&)");
                return;
            }
            case 1:
                if constexpr (kcopy)
                {
                    NOTE(c, "insert(const K& %d)", k);
                    const K kk = EK::make(k);
                    auto r = ON(x.insert(kk));
                    check_ins(c, x, r, m, model_insert(m, k, 0), "insert(const K&)");
                    return;
                }
                [[fallthrough]];
            case 2:
            {
                NOTE(c, "emplace(%d)", k);
                if constexpr (std::is_constructible_v<K, int> && !std::is_same_v<K, unsigned char>)
                {
                    auto r = ON(x.emplace(k));
                    check_ins(c, x, r, m, model_insert(m, k, 0), "emplace");
                }
                return;
            }
            case 3:
                if constexpr (kcopy)
                {
                    NOTE(c, "insert(hint, const K& %d)", k);
                    const K kk = EK::make(k);
                    const auto h = hint(c, x, m);
                    auto r = ON(x.insert(h, kk));
                    check_ins(c, x, r, m, model_insert(m, k, 0), "insert(hint, const K&)");
                    return;
                }
                [[fallthrough]];
            case 4:
            {
                NOTE(c, "insert(hint, K&& %d)", k);
                K kk = EK::make(k);
                const auto h = hint(c, x, m);
                auto r = ON(x.insert(h, std::move(kk)));
                check_ins(c, x, r, m, model_insert(m, k, 0), "insert(hint, K&&)");
                return;
            }
            case 5:
            {
                NOTE(c, "emplace_hint(%d)", k);
                const auto h = hint(c, x, m);
                if constexpr (std::is_constructible_v<K, int> && !std::is_same_v<K, unsigned char>)
                {
                    auto r = ON(x.emplace_hint(h, k));
                    check_ins(c, x, r, m, model_insert(m, k, 0), "emplace_hint");
                }
                return;
            }
            default:
                if constexpr (!ORD)
                {
                    NOTE(c, "try_emplace(K&& %d)", k);
                    K kk = EK::make(k);
                    auto r = ON(x.try_emplace(std::move(kk)));
                    check_ins(c, x, r, m, model_insert(m, k, 0), "try_emplace");
                }
                return;
            }
        }
        else
        {
            K kk = EK::make(k);
            switch (c.below(14))
            {
            case 0:
            {
                NOTE(c, "try_emplace(K&& %d, %d)", k, v);
                V vv = EV::make(v);
                auto r = ON(x.try_emplace(std::move(kk), std::move(vv)));
                auto e = model_insert(m, k, v);
                check_ins(c, x, r, m, e, "try_emplace(K&&)");
                if (!e.second)
                {
                    CHECK(c, EV::key(vv) == v, "try_emplace moved from its argument although the key was present");
                    CHECK(c, EK::key(kk) == k, "try_emplace moved from its key although the key was present");
                }
                return;
            }
            case 1:
                if constexpr (kcopy)
                {
                    NOTE(c, "try_emplace(const K& %d, args)", k);
                    const K& ck = kk;
                    if constexpr (std::is_constructible_v<V, int>)
                    {
                        auto r = ON(x.try_emplace(ck, v));
                        check_ins(c, x, r, m, model_insert(m, k, v), "try_emplace(const K&)");
                    }
                    return;
                }
                [[fallthrough]];
            case 2:
            {
                NOTE(c, "insert_or_assign(K&& %d, V&& %d)", k, v);
                V vv = EV::make(v);
                auto r = ON(x.insert_or_assign(std::move(kk), std::move(vv)));
                check_ins(c, x, r, m, model_insert(m, k, v, true), "insert_or_assign(K&&, V&&)");
                return;
            }
            case 3:
                if constexpr (kcopy && vcopy)
                {
                    NOTE(c, "insert_or_assign(const K& %d, const V& %d)", k, v);
                    const K& ck = kk;
                    const V vv = EV::make(v);
                    auto r = ON(x.insert_or_assign(ck, vv));
                    check_ins(c, x, r, m, model_insert(m, k, v, true), "insert_or_assign(const K&, const V&)");
                    CHECK(c, EV::key(vv) == v && EK::key(ck) == k, "insert_or_assign changed its arguments");
                    return;
                }
                [[fallthrough]];
            case 4:
            {
                NOTE(c, "insert_or_assign(hint, %d, %d)", k, v);
                V vv = EV::make(v);
                const auto h = hint(c, x, m);
                if constexpr (kcopy)
                {
                    if (c.chance(1, 2))
                    {
                        const K& ck = kk;
                        auto r = ON(x.insert_or_assign(h, ck, std::move(vv)));
                        check_ins(c, x, r, m, model_insert(m, k, v, true), "insert_or_assign(hint, const K&)");
                        return;
                    }
                }
                auto r = ON(x.insert_or_assign(h, std::move(kk), std::move(vv)));
                check_ins(c, x, r, m, model_insert(m, k, v, true), "insert_or_assign(hint, K&&)");
                return;
            }
            case 5:
                if constexpr (kcopy && vcopy)
                {
                    NOTE(c, "insert(const value_type& %d:%d)", k, v);
                    const Elem e = elem(k, v);
                    auto r = ON(x.insert(e));
                    check_ins(c, x, r, m, model_insert(m, k, v), "insert(const value_type&)");
                    CHECK(c, EV::key(e.second) == v && EK::key(e.first) == k, "insert changed its argument");
                    return;
                }
                [[fallthrough]];
            case 6:
                if constexpr (kcopy)
                {
                    NOTE(c, "insert(value_type&& %d:%d)", k, v);
                    Elem e = elem(k, v);
                    auto r = ON(x.insert(std::move(e)));
                    check_ins(c, x, r, m, model_insert(m, k, v), "insert(value_type&&)");
                    return;
                }
                [[fallthrough]];
            case 7:
            {
                NOTE(c, "emplace(K&& %d, V&& %d)", k, v);
                V vv = EV::make(v);
                auto r = ON(x.emplace(std::move(kk), std::move(vv)));
                check_ins(c, x, r, m, model_insert(m, k, v), "emplace(k, v)");
                return;
            }
            case 8:
                if constexpr (kcopy && vcopy)
                {
                    NOTE(c, "emplace(pair %d:%d)", k, v);
                    std::pair<K, V> p(EK::make(k), EV::make(v));
                    if (c.chance(1, 2))
                    {
                        const auto& cp = p;
                        auto r = ON(x.emplace(cp));
                        check_ins(c, x, r, m, model_insert(m, k, v), "emplace(const pair&)");
                        CHECK(c, EK::key(p.first) == k && EV::key(p.second) == v, "emplace(const pair&) changed its argument");
                    }
                    else
                    {
                        auto r = ON(x.emplace(std::move(p)));
                        check_ins(c, x, r, m, model_insert(m, k, v), "emplace(pair&&)");
                    }
                    return;
                }
                [[fallthrough]];
            case 9:
            {
                NOTE(c, "emplace_hint(%d, %d)", k, v);
                V vv = EV::make(v);
                const auto h = hint(c, x, m);
                auto r = ON(x.emplace_hint(h, std::move(kk), std::move(vv)));
                check_ins(c, x, r, m, model_insert(m, k, v), "emplace_hint(k, v)");
                return;
            }
            case 10:
                if constexpr (kcopy && vcopy)
                {
                    NOTE(c, "emplace(piecewise %d, %d)", k, v);
                    auto r = ON(x.emplace(std::piecewise_construct, std::forward_as_tuple(kk), std::make_tuple(EV::make(v))));
                    check_ins(c, x, r, m, model_insert(m, k, v), "emplace(piecewise)");
                    return;
                }
                [[fallthrough]];
            case 11:
                if constexpr (EV::dflt)
                {
                    NOTE(c, "[%d] (value %d)", k, v);
                    const bool assign = c.chance(1, 2);
                    V* r = nullptr;
                    if (kcopy && c.chance(1, 2))
                    {
                        if constexpr (kcopy)
                        {
                            const K& ck = kk;
                            r = std::addressof(ON(x[ck]));
                        }
                    }
                    else
                    {
                        r = std::addressof(ON(x[std::move(kk)]));
                    }
                    const std::size_t i = model_insert(m, k, 0).first;
                    CHECK(c, EV::key(*r) == m[i].second, "operator[](%d) refers to value %d, expected %d", k, EV::key(*r), m[i].second);
                    if (assign)
                    {
                        *r = EV::make(v);
                        m[i].second = v;
                    }
                    return;
                }
                [[fallthrough]];
            case 12:
            {
                NOTE(c, "try_emplace(hint, %d, %d)", k, v);
                V vv = EV::make(v);
                const auto h = hint(c, x, m);
                auto r = ON(x.try_emplace(h, std::move(kk), std::move(vv)));
                check_ins(c, x, r, m, model_insert(m, k, v), "try_emplace(hint)");
                return;
            }
            default:
                if constexpr (kcopy && vcopy)
                {
                    // the value argument is one of the map's own values, the key one of its own keys
                    if (m.empty()) return;
                    const std::size_t j = c.below(m.size());
                    const int own = m[j].second;
                    NOTE(c, "insert_or_assign(%d, own value of %d)", k, m[j].first);
                    const auto jt = it_of(c, x, m, j);
                    const V& ov = (*jt).second;
                    auto r = ON(x.insert_or_assign(kk, ov));
                    check_ins(c, x, r, m, model_insert(m, k, own, true), "insert_or_assign(k, own value)");
                }
                return;
            }
        }
    }

    static void check_addresses(Ctx& c, C& x)
    {
        const auto* lo = reinterpret_cast<const char*>(std::addressof(x));
        for (auto it = x.begin(); it != x.end(); ++it)
        {
            if constexpr (!Pol::is_enum)
            {
                const auto* p = reinterpret_cast<const char*>(std::addressof(key_ref(it)));
                CHECK_HARD(c, p >= lo && p + sizeof(K) <= lo + sizeof(C), "a key lies outside the container object");
            }
            if constexpr (MAP)
            {
                const auto* p = reinterpret_cast<const char*>(std::addressof((*it).second));
                CHECK_HARD(c, p >= lo && p + sizeof(V) <= lo + sizeof(C), "a value lies outside the container object");
            }
        }
    }

    // ---- deep comparison ----------------------------------------------------------------------------
    template <class P>
    static void lookups(Ctx& c, C& x, const M& m, const P& p, int k)
    {
        const C& cx = x;
        const bool present = has(m, k);
        const std::size_t l = lb(m, k), u = ub(m, k);
        check_at(c, cx, ON(cx.find(p)), m, present ? l : m.size(), "find() const");
        check_at(c, x, ON(x.find(p)), m, present ? l : m.size(), "find()");
        CHECK(c, ON(cx.contains(p)) == present, "contains(%d) is %d", k, static_cast<int>(!present));
        if constexpr (!Pol::is_enum || MAP) CHECK(c, ON(cx.count(p)) == (present ? 1u : 0u), "count(%d) is wrong", k);
        if constexpr (ORD && !Pol::is_enum)
        {
            check_at(c, cx, ON(cx.lower_bound(p)), m, l, "lower_bound() const");
            check_at(c, x, ON(x.lower_bound(p)), m, l, "lower_bound()");
            check_at(c, cx, ON(cx.upper_bound(p)), m, u, "upper_bound() const");
            check_at(c, x, ON(x.upper_bound(p)), m, u, "upper_bound()");
            auto e = ON(cx.equal_range(p));
            check_at(c, cx, e.first, m, l, "equal_range().first");
            check_at(c, cx, e.second, m, u, "equal_range().second");
            auto e2 = ON(x.equal_range(p));
            check_at(c, x, e2.first, m, l, "mutable equal_range().first");
            check_at(c, x, e2.second, m, u, "mutable equal_range().second");
        }
    }
    static void check(Ctx& c, C& x, const M& m)
    {
        const C& cx = x;
        const std::size_t n = m.size();
        NOTE(c, "    model: %s", show(m).c_str());
        CHECK(c, ON(cx.size()) == n, "size() is %zu, expected %zu", cx.size(), n);
        CHECK(c, ON(cx.empty()) == (n == 0), "empty() is wrong");
        CHECK(c, ON(is_full(cx)) == (n == cap), "is_full() is wrong");
        CHECK(c, cx.max_size() == cap, "max_size() is wrong");
        if constexpr (ORD)
        {
            std::size_t i = 0;
            for (auto it = ON(cx.begin()); it != ON(cx.end()); ++it, ++i)
            {
                CHECK(c, i < n, "iteration runs past %zu elements", n);
                CHECK(c, itkey(it) == m[i].first && itval(it) == mval(m[i]), "element #%zu is %d:%d, expected %d:%d", i, itkey(it), itval(it), m[i].first, mval(m[i]));
            }
            CHECK(c, i == n, "iteration visits %zu of %zu elements", i, n);
            i = n;
            for (auto it = ON(x.rbegin()); it != ON(x.rend()); ++it)
            {
                CHECK(c, i > 0, "reverse iteration runs past %zu elements", n);
                --i;
                CHECK(c, itkey(it) == m[i].first && itval(it) == mval(m[i]), "reverse iteration: element #%zu is %d, expected %d", i, itkey(it), m[i].first);
            }
            CHECK(c, i == 0, "reverse iteration stops with %zu elements left", i);
            i = n;
            for (auto it = x.end(); it != x.begin();)
            {
                --it;
                CHECK(c, i > 0, "decrementing from end() runs past the beginning");
                --i;
                CHECK(c, itkey(it) == m[i].first, "decrementing from end(): element #%zu is %d, expected %d", i, itkey(it), m[i].first);
            }
        }
        else
        {
            // each element exactly once, in any order; const and mutable iteration agree
            std::vector<KV> got;
            auto it2 = x.begin();
            for (auto it = ON(cx.begin()); it != ON(cx.end()); ++it, ++it2)
            {
                CHECK(c, got.size() < n, "iteration runs past %zu elements", n);
                CHECK(c, it2 != x.end() && itkey(it2) == itkey(it), "const and mutable iteration differ");
                got.push_back({itkey(it), itval(it)});
            }
            CHECK(c, it2 == x.end(), "const and mutable iteration differ");
            std::sort(got.begin(), got.end());
            M want = m;
            if constexpr (!MAP) for (auto& e : want) e.second = 0;
            std::sort(want.begin(), want.end());
            CHECK(c, got == want, "iteration visits %s, expected %s", show(got).c_str(), show(want).c_str());
        }
        // lookups: every contained key (all of them while small), and some others
        const std::size_t stride = n > 48 ? n / 24 : 1;
        for (std::size_t i = n > 48 ? c.below(stride) : 0; i < n; i += stride)
        {
            const K kk = EK::make(m[i].first);
            if constexpr (!ORD)
            {
                check_at(c, cx, ON(cx.find(kk)), m, i, "find() const");
                check_at(c, x, ON(x.find(kk)), m, i, "find()");
            }
            else check_at(c, x, ON(x.find(kk)), m, i, "find()");
            if constexpr (MAP)
            {
                CHECK(c, EV::key(ON(x.at(kk))) == m[i].second && EV::key(ON(cx.at(kk))) == m[i].second, "at(%d) is wrong", m[i].first);
                CHECK(c, std::addressof(x.at(kk)) == std::addressof((*x.find(kk)).second), "at() and find() denote different objects");
            }
        }
        for (int q = 0; q < 3; q++)
        {
            const int k = pick_new_key(c);
            const K kk = EK::make(k);
            lookups(c, x, m, kk, k);
            if constexpr (Pol::transparent && Pol::custom)
            {
                const Probe p{k};
                lookups(c, x, m, p, k);
                const Span s{k, k + static_cast<int>(c.below(12))};
                const Cmp<K, true> before{CmpState::cur_dir, CmpState::cur_div};
                std::size_t l = 0, u = 0;
                for (const auto& e : m)
                {
                    if (before(EK::make(e.first), s)) ++l, ++u;
                    else if (!before(s, EK::make(e.first))) ++u;
                }
                if (u - l > 1) c.label("probe equivalent to several keys");
                CHECK(c, ON(cx.contains(s)) == (l < u), "contains([%d, %d]) is %d", s.lo, s.hi, static_cast<int>(l == u));
                CHECK(c, ON(cx.count(s)) == u - l, "count([%d, %d]) is %zu, expected %zu", s.lo, s.hi, cx.count(s), u - l);
                check_at(c, cx, ON(cx.lower_bound(s)), m, l, "lower_bound(keys) const");
                check_at(c, x, ON(x.lower_bound(s)), m, l, "lower_bound(keys)");
                check_at(c, cx, ON(cx.upper_bound(s)), m, u, "upper_bound(keys) const");
                check_at(c, x, ON(x.upper_bound(s)), m, u, "upper_bound(keys)");
                auto ce = ON(cx.equal_range(s));
                check_at(c, cx, ce.first, m, l, "equal_range(keys).first");
                check_at(c, cx, ce.second, m, u, "equal_range(keys).second");
                auto me = ON(x.equal_range(s));
                check_at(c, x, me.first, m, l, "mutable equal_range(keys).first");
                check_at(c, x, me.second, m, u, "mutable equal_range(keys).second");
                auto f = ON(cx.find(s));
                CHECK(c, (f == cx.end()) == (l == u), "find([%d, %d]) is wrong", s.lo, s.hi);
                if (l < u)
                {
                    const K& fk = key_ref(f);
                    CHECK(c, !before(fk, s) && !before(s, fk), "find([%d, %d]) finds a key outside", s.lo, s.hi);
                }
            }
        }
        if constexpr (tracked && !Pol::is_enum)
        {
            const auto* lo = reinterpret_cast<const char*>(std::addressof(x));
            for (auto it = cx.begin(); it != cx.end(); ++it)
            {
                const auto* p = reinterpret_cast<const char*>(std::addressof(key_ref(it)));
                CHECK(c, p >= lo && p + sizeof(K) <= lo + sizeof(C), "a key lies outside the container object");
            }
        }
    }
};

namespace fc = fixed_containers;
using fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
inline constexpr auto EMB = RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
inline constexpr auto DED = RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
template <class T, std::size_t N>
using Pool = fc::FixedIndexBasedPoolStorage<T, N>;
template <class T, std::size_t N>
using Contig = fc::FixedIndexBasedContiguousStorage<T, N>;

// plain map/set, std::less
template <class K, class V, std::size_t N>
using MapD = AssocDriver<true, true, fc::FixedMap<K, V, N>, K, V, PolLess>;
template <class K, std::size_t N>
using SetD = AssocDriver<false, true, fc::FixedSet<K, N>, K, int, PolLess>;
// stateful comparator, any layout
template <class K, class V, std::size_t N, bool TR, RedBlackTreeNodeColorCompactness CC, template <class, std::size_t> typename ST>
using MapCD = AssocDriver<true, true, fc::FixedMap<K, V, N, Cmp<K, TR>, CC, ST>, K, V, PolCmp<TR>>;
template <class K, std::size_t N, bool TR, RedBlackTreeNodeColorCompactness CC, template <class, std::size_t> typename ST>
using SetCD = AssocDriver<false, true, fc::FixedSet<K, N, Cmp<K, TR>, CC, ST>, K, int, PolCmp<TR>>;
template <class K, class V, std::size_t N>
using MapGD = AssocDriver<true, true, fc::FixedMap<K, V, N, std::greater<>>, K, V, PolGreater>;
template <class K, std::size_t N>
using SetGD = AssocDriver<false, true, fc::FixedSet<K, N, std::greater<>>, K, int, PolGreater>;
// unordered
template <class K, class V, std::size_t N>
using UMapD = AssocDriver<true, false, fc::FixedUnorderedMap<K, V, N>, K, V, PolLess>;
template <class K, std::size_t N>
using USetD = AssocDriver<false, false, fc::FixedUnorderedSet<K, N>, K, int, PolLess>;
template <class K, class V, std::size_t N, std::size_t B>
using UMapHD = AssocDriver<true, false, fc::FixedUnorderedMap<K, V, N, AdvHash<K>, CoarseEq<K>, B>, K, V, PolHash>;
template <class K, std::size_t N, std::size_t B>
using USetHD = AssocDriver<false, false, fc::FixedUnorderedSet<K, N, AdvHash<K>, CoarseEq<K>, B>, K, int, PolHash>;
}  // namespace drv
