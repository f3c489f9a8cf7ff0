// C24: comparator calls per operation of ordered maps and sets over long, structured histories. -DPART=0..7
#include "../engine.hpp"

#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <memory>
#include <vector>

namespace fc = fixed_containers;
using pbt::Ctx;
using Compact = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
constexpr auto EMB = Compact::EMBEDDED_COLOR;
constexpr auto DED = Compact::DEDICATED_COLOR;
template <class T, std::size_t N>
using Pool = fc::FixedIndexBasedPoolStorage<T, N>;
template <class T, std::size_t N>
using Contig = fc::FixedIndexBasedContiguousStorage<T, N>;

using Key = std::uint32_t;
inline std::uint64_t calls = 0;   // comparator calls
inline std::uint64_t visits = 0;  // runs of calls with the same other operand: nodes looked at
inline Key probed = 0, last = 0;
template <bool REV>
struct Count
{
    bool operator()(Key a, Key b) const
    {
        ++calls;
        const Key other = a == probed ? b : a;
        if (other != last) ++visits;
        last = other;
        return REV ? b < a : a < b;
    }
};

// wrong results are other checks' subject: the case is abandoned
#define ASIDE(c, cond)                     \
    do                                     \
    {                                      \
        if (!(cond)) [[unlikely]]          \
        {                                  \
            (c).aside = true;              \
            (c).fail("wrong result");     \
        }                                  \
    } while (false)

#ifdef STATS
struct Stat { const char* op; double ratio; };
inline std::vector<Stat> stats;
#endif

// A red-black tree of n keys has at most 2*log2(n+1) levels, and a three-way decision takes two calls.
inline double lg(std::size_t n) { return std::log2(static_cast<double>(n) + 1.0); }

struct Meter
{
    Ctx& c;
    const char* op;
    std::size_t n;
    double factor;
    Meter(Ctx& ctx, const char* o, Key k, std::size_t size, double f) : c(ctx), op(o), n(size), factor(f)
    {
        calls = visits = 0;
        probed = k;
        last = ~k;
    }
    void stop() const
    {
        const auto used = static_cast<double>(calls);
        const auto seen = static_cast<double>(visits);
        const double bound = factor * (4 * lg(n) + 4), seen_bound = factor * (2 * lg(n) + 2);
#ifdef STATS
        bool found = false;
        const double r = std::max(used / (4 * lg(n) + 4), seen / (2 * lg(n) + 2));
        for (auto& s : stats)
            if (s.op == op) { found = true; if (r > s.ratio) { s.ratio = r; { static FILE* f = std::fopen("/tmp/w/stats.txt", "a"); std::fprintf(f, "%s;%f;%zu\n", op, r, n); std::fflush(f); } } }
        if (!found) stats.push_back({op, r});
#endif
        CHECK(c, used <= bound, "%s: %.0f comparator calls with %zu keys in the container, more than %.1f", op, used, n, bound);
        CHECK(c, seen <= seen_bound, "%s: %.0f stored keys were looked at with %zu keys in the container, more than %.1f", op, seen, n, seen_bound);
    }
};
constexpr double LOOKUP = 1, UPDATE = 2;  // an update may look its key up twice

template <class C, std::size_t N>
void balance(Ctx& c)
{
    constexpr bool MAP = requires { typename C::mapped_type; };
    auto owner = std::make_unique<C>();
    C& x = *owner;
    std::vector<Key> keys;  // ascending
    auto at = [&](std::size_t i) { return std::next(keys.begin(), static_cast<std::ptrdiff_t>(i)); };
    std::uint64_t total = 0;
    constexpr std::uint64_t BUDGET = N > 2000 ? 60000 : N > 300 ? 12000 : 3000;

    auto add = [&](Key k)
    {
        if (keys.size() >= N) return;
        const auto it = std::lower_bound(keys.begin(), keys.end(), k);
        const bool isnew = it == keys.end() || *it != k;
        const std::size_t n = keys.size();
        if (isnew) keys.insert(it, k);
        total++;
        const unsigned form = static_cast<unsigned>(total % 7);
        Meter m{c, "insertion", k, n, UPDATE};
        bool ok = true;
        if constexpr (MAP)
        {
            if (form == 0)
                x[k] = 1;
            else if (form == 1)
                ok = x.insert_or_assign(k, 2).second == isnew;
            else if (form == 2)
                ok = x.insert({k, 3}).second == isnew;
            else
                ok = x.try_emplace(k, 4).second == isnew;
        }
        else
        {
            ok = form == 0 ? x.emplace(k).second == isnew : x.insert(k).second == isnew;
        }
        m.stop();
        ASIDE(c, ok);
    };
    auto del = [&](std::size_t i)
    {
        if (keys.empty()) return;
        const Key k = keys[i];
        const std::size_t n = keys.size();
        keys.erase(at(i));
        total++;
        if (total % 5 == 0)
        {
            const auto it = x.find(k);
            if (it == x.end()) return;
            Meter m{c, "erasure by position", k, n, UPDATE};
            x.erase(it);
            m.stop();
        }
        else
        {
            Meter m{c, "erasure by key", k, n, UPDATE};
            x.erase(k);
            m.stop();
        }
    };
    // a key that is not yet there, next to the i-th one (or outside, at the ends)
    auto gap = [&](std::size_t i) -> Key
    {
        const std::uint64_t lo = i == 0 ? 0 : keys[i - 1];
        const std::uint64_t hi = i == keys.size() ? 0xFFFFFFFFULL : keys[i];
        if (i == keys.size()) return static_cast<Key>(lo + std::min<std::uint64_t>(1 << 16, (hi - lo) / 2));
        if (i == 0) return static_cast<Key>(hi - std::min<std::uint64_t>(1 << 16, hi / 2));
        return static_cast<Key>(lo + (hi - lo) / 2);
    };
    auto probe = [&](Key k)
    {
        const std::size_t n = keys.size();
        const bool in = std::binary_search(keys.begin(), keys.end(), k);
        {
            Meter m{c, "find", k, n, LOOKUP};
            const bool got = x.find(k) != x.end();
            m.stop();
            ASIDE(c, got == in);
        }
        {
            Meter m{c, "contains", k, n, LOOKUP};
            const bool got = x.contains(k);
            m.stop();
            ASIDE(c, got == in);
        }
        {
            Meter m{c, "count", k, n, 2 * LOOKUP};
            const bool got = std::as_const(x).count(k) == 1;
            m.stop();
            ASIDE(c, got == in);
        }
        {
            Meter m{c, "lower_bound", k, n, LOOKUP};
            (void)x.lower_bound(k);
            m.stop();
        }
        {
            Meter m{c, "upper_bound", k, n, LOOKUP};
            (void)std::as_const(x).upper_bound(k);
            m.stop();
        }
        {
            Meter m{c, "equal_range", k, n, 2 * LOOKUP};
            (void)x.equal_range(k);
            m.stop();
        }
        if constexpr (MAP)
        {
            if (in)
            {
                Meter m{c, "at", k, n, 2 * LOOKUP};
                (void)x.at(k);
                m.stop();
            }
        }
    };
    auto sweep = [&]
    {
        const std::size_t n = keys.size();
        probe(0);
        probe(0xFFFFFFFFU);
        const std::size_t step = n <= 300 ? 1 : n / 150;
        for (std::size_t i = 0; i < n; i += step)
        {
            probe(keys[i]);
            if (i % 4 == 0) probe(keys[i] + 1);
        }
        for (std::size_t i = 0; i < std::min<std::size_t>(n, 5); i++)
        {
            probe(keys[i]);
            probe(keys[n - 1 - i]);
        }
    };

    std::uint64_t rnd = c.below(1U << 30) * 2 + 1;
    auto random = [&](std::size_t n) -> std::size_t
    {
        rnd ^= rnd << 13;
        rnd ^= rnd >> 7;
        rnd ^= rnd << 17;
        return n == 0 ? 0 : rnd % n;
    };
    auto l = c.loop(24);
    std::size_t phases = 0, largest = 0;
    while (c.more(l) && total < BUDGET)
    {
        phases++;
        const std::size_t n = keys.size();
        const unsigned kind = static_cast<unsigned>(c.weighted({5, 4, 5}));
        const std::size_t pattern = c.below(7);
        const unsigned amount = c.below(4);
        std::size_t count = amount == 0 ? c.below(12) + 1 : amount == 1 ? N / 4 + 1 : amount == 2 ? N / 2 + 1 : N;
        if (kind == 2) count *= 2;
        count = std::min<std::size_t>(count, 2 * N);
        // where the next insertion (of n+1 gaps) or erasure (of n keys) takes place
        auto place = [&](std::size_t i, std::size_t size, std::size_t pat) -> std::size_t
        {
            if (size == 0) return 0;
            switch (pat)
            {
            case 0: return size - 1;                                   // ascending / largest first
            case 1: return 0;                                          // descending / smallest first
            case 2: return random(size);                               // anywhere
            case 3: return size / 2;                                   // middle
            case 4: return i % 2 == 0 ? 0 : size - 1;                  // both ends
            case 5: return std::min(size - 1, size / 4 + i % 3);       // one cluster
            default: return (i * 2) % size;                            // every other one
            }
        };
        NOTE(c, "%s x%zu, pattern %zu, from %zu keys", kind == 0 ? "insert" : kind == 1 ? "erase" : "replace", count, pattern, n);
        const std::size_t pattern2 = kind == 2 ? c.below(7) : 0;
        if (kind == 2) NOTE(c, "  erasing with pattern %zu", pattern2);
        for (std::size_t i = 0; i < count && total < BUDGET; i++)
        {
            if (kind == 0 || kind == 2)
            {
                if (keys.empty())
                    add(1U << 31);
                else if (kind == 0 || keys.size() < std::max<std::size_t>(1, N * 3 / 4) || i % 2 == 0)
                    add(pattern == 2 ? static_cast<Key>(random(0xFFFFFFFFU)) : gap(place(i, keys.size() + 1, pattern)));
            }
            if (kind == 1 || kind == 2)
            {
                if (!keys.empty() && !(kind == 2 && keys.size() < N / 2)) del(place(i, keys.size(), pattern2 + (kind == 1 ? pattern : 0)));
            }
            largest = std::max(largest, keys.size());
            if (N <= 40) sweep();
        }
        c.ops(count);
        if (N > 40) sweep();
    }
    if (phases >= 2 && largest >= 7) c.nontrivial();
}
#define B_(NAME, W, ...) REGISTER(NAME, (balance<__VA_ARGS__>), W)
template <std::size_t N, Compact CC, template <class, std::size_t> class ST, bool REV = false>
using M = fc::FixedMap<Key, int, N, Count<REV>, CC, ST>;
template <std::size_t N, Compact CC, template <class, std::size_t> class ST, bool REV = false>
using S = fc::FixedSet<Key, N, Count<REV>, CC, ST>;
#if PART == 0
B_("map 20 pool", 1, M<20, EMB, Pool>, 20); B_("map 40 contiguous", 1, M<40, EMB, Contig>, 40);
#elif PART == 1
B_("map 200 pool", 1, M<200, EMB, Pool>, 200); B_("map 200 contiguous", 1, M<200, DED, Contig>, 200);
#elif PART == 2
B_("map 1500 pool", 1, M<1500, EMB, Pool>, 1500); B_("map 1500 contiguous", 1, M<1500, EMB, Contig>, 1500);
#elif PART == 3
B_("map 9000 pool", 1, M<9000, DED, Pool>, 9000);
#elif PART == 4
B_("set 20 pool", 1, S<20, DED, Pool>, 20); B_("set 40 contiguous", 1, S<40, DED, Contig>, 40); B_("set 30 reversed", 1, S<30, EMB, Pool, true>, 30);
#elif PART == 5
B_("set 200 pool", 1, S<200, EMB, Pool>, 200); B_("set 200 contiguous", 1, S<200, DED, Contig>, 200);
#elif PART == 6
B_("set 1500 reversed", 1, S<1500, EMB, Pool, true>, 1500); B_("set 1500 contiguous", 1, S<1500, EMB, Contig>, 1500);
#else
B_("set 9000 contiguous", 1, S<9000, EMB, Contig>, 9000); B_("set 60000 pool", 0.2, S<60000, EMB, Pool>, 60000);
#endif
