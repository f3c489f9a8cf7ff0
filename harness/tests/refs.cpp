// Maps from keys to references (V = int& or const int&): which object each key is bound to. -DFAM=0 FixedMap, 2 FixedUnorderedMap, 5 EnumMap
#include "../modes.hpp"

#include "../enums.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"

#include <algorithm>
#include <cstdint>
#include <optional>
#include <utility>
#include <vector>
using namespace pbt;
namespace fc = fixed_containers;

namespace
{
int g_obj[64];

// hash and comparator objects with a state, which whole-container operations have to carry over
struct Salted
{
    std::uint64_t salt{0};
    std::uint64_t operator()(int k) const { return (static_cast<std::uint64_t>(k) + salt) * 0x9E3779B97F4A7C15ULL; }
};
struct SaltedEq
{
    int salt{0};
    bool operator()(int a, int b) const { return a + salt == b + salt; }
};
struct Dir
{
    bool down{false};
    bool operator()(int a, int b) const { return down ? b < a : a < b; }
};
template <class M>
constexpr bool DIRECTED = std::is_constructible_v<M, Dir>;
template <class M, class... A>
void build(std::optional<M>& m, int st, A&&... a)
{
    if constexpr (DIRECTED<M>) m.emplace(std::forward<A>(a)..., Dir{(st & 1) != 0});
    else if constexpr (std::is_constructible_v<M, Salted, SaltedEq>) m.emplace(std::forward<A>(a)..., Salted{static_cast<std::uint64_t>(st) * 77777}, SaltedEq{st});
    else m.emplace(std::forward<A>(a)...);
}

template <class M>
struct Bind
{
    using V = typename M::mapped_type;  // a reference
    using K = typename M::key_type;
    std::optional<M> m;
    std::vector<std::pair<int, int>> model;  // key number -> object number
    int st = 0;                              // of the hash or comparator
};

template <class M, class KeyOf, int NKEYS, bool ORDERED, int CAP>
void history(Ctx& c)
{
    using V = typename M::mapped_type;
    for (int i = 0; i < 64; i++) g_obj[i] = i % 3;  // equal values in different objects
    Bind<M> s[3];
    const auto key = [](int k) { return KeyOf::make(k); };
    const auto find = [](auto& mod, int k) { return std::find_if(mod.begin(), mod.end(), [k](auto& p) { return p.first == k; }); };
    const auto check = [&](Bind<M>& b, const char* after) {
        const M& m = *b.m;
        CHECK(c, m.size() == b.model.size() && m.empty() == b.model.empty(), "after %s: size %zu, expected %zu", after, m.size(), b.model.size());
        for (int k = 0; k < NKEYS; k++)
        {
            auto it = find(b.model, k);
            const bool in = it != b.model.end();
            CHECK(c, m.contains(key(k)) == in, "after %s: contains(key %d) is %d", after, k, !in);
            CHECK(c, (m.find(key(k)) != m.end()) == in, "after %s: find(key %d)", after, k);
            if (in)
            {
                CHECK(c, &m.at(key(k)) == &g_obj[it->second], "after %s: key %d is bound to another object", after, k);
                CHECK(c, &m.find(key(k))->second == &g_obj[it->second], "after %s: find(key %d) refers to another object", after, k);
                CHECK(c, &b.m->at(key(k)) == &g_obj[it->second], "after %s: at(key %d) refers to another object", after, k);
            }
        }
        std::size_t n = 0;
        const bool down = DIRECTED<M> && (b.st & 1) != 0;
        int last = down ? 1000 : -1;
        for (auto it = m.begin(); it != m.end(); ++it)
        {
            const int k = KeyOf::number(it->first);
            auto w = find(b.model, k);
            CHECK(c, w != b.model.end() && &it->second == &g_obj[w->second], "after %s: iteration, key %d", after, k);
            if constexpr (ORDERED) CHECK(c, down ? k < last : k > last, "after %s: iteration out of order", after);
            last = k;
            CHECK(c, ++n <= b.model.size(), "after %s: iteration visits too many", after);
        }
        CHECK(c, n == b.model.size(), "after %s: iteration visits %zu of %zu", after, n, b.model.size());
    };
    const auto fresh = [&](Bind<M>& b) { build(b.m, b.st = static_cast<int>(c.below(4))); };
    for (auto& b : s) fresh(b);
    int values_changed = 0;
    auto l = c.loop(50);
    int done = 0, whole = 0;
    while (c.more(l))
    {
        auto& b = s[c.below(3)];
        M& m = *b.m;
        const int k = static_cast<int>(c.below(NKEYS)), o = static_cast<int>(c.below(64));
        auto at = find(b.model, k);
        const bool in = at != b.model.end();
        const bool room = in || b.model.size() < static_cast<std::size_t>(CAP);
        const char* name = "";
        switch (c.weighted({4, 4, 3, 4, 2, 1, 2, 2, 2, 1, 1, 2, 1}))
        {
        case 0:
        {
            if (!room) break;
            name = "insert";
            std::pair<typename M::iterator, bool> r = m.insert({key(k), g_obj[o]});
            CHECK(c, r.second == !in, "insert(key %d) reports %d", k, r.second);
            if (!in) b.model.emplace_back(k, o);
            CHECK(c, KeyOf::number(r.first->first) == k && &r.first->second == &g_obj[find(b.model, k)->second], "insert(key %d) returns another position", k);
            break;
        }
        case 1:
        {
            if (!room) break;
            name = "emplace";
            auto r = m.emplace(key(k), g_obj[o]);
            CHECK(c, r.second == !in, "emplace(key %d) reports %d", k, r.second);
            if (!in) b.model.emplace_back(k, o);
            break;
        }
        case 2:
        {
            if (!room) break;
            name = "try_emplace";
            auto r = m.try_emplace(key(k), g_obj[o]);
            CHECK(c, r.second == !in, "try_emplace(key %d) reports %d", k, r.second);
            if (!in) b.model.emplace_back(k, o);
            break;
        }
        case 3:
            name = "erase(key)";
            CHECK(c, m.erase(key(k)) == (in ? 1U : 0U), "erase(key %d)", k);
            if (in) b.model.erase(at);
            break;
        case 4:
            if (!in) break;
            name = "erase(iterator)";
            m.erase(m.find(key(k)));
            b.model.erase(at);
            break;
        case 5:
            name = "clear";
            m.clear();
            b.model.clear();
            break;
        case 6:
        {
            name = "copy construction";
            auto& d = s[c.below(3)];
            if (&d == &b) break;
            d.m.emplace(std::as_const(m));
            d.model = b.model;
            d.st = b.st;
            check(d, name);
            whole++;
            break;
        }
        case 7:
        {
            name = "copy assignment";
            auto& d = s[c.below(3)];
            *d.m = std::as_const(m);
            d.model = b.model;
            d.st = b.st;
            check(d, name);
            whole++;
            break;
        }
        case 8:
        {
            name = "move assignment";
            auto& d = s[c.below(3)];
            if (&d == &b) break;
            *d.m = std::move(m);
            d.model = std::move(b.model);
            d.st = b.st;
            fresh(b);
            b.model.clear();
            check(d, name);
            whole++;
            break;
        }
        case 9:
        {
            name = "move construction";
            auto& d = s[c.below(3)];
            if (&d == &b) break;
            d.m.emplace(std::move(m));
            d.model = std::move(b.model);
            d.st = b.st;
            fresh(b);
            b.model.clear();
            check(d, name);
            whole++;
            break;
        }
        case 10:
        {
            name = "construction from a list";
            const int k2 = static_cast<int>(c.below(NKEYS)), o2 = static_cast<int>(c.below(64));
            if (k2 != k && CAP < 2) break;
            b.st = static_cast<int>(c.below(4));
            build(b.m, b.st, std::initializer_list<typename M::value_type>{{key(k), g_obj[o]}, {key(k2), g_obj[o2]}});
            b.model.assign(1, {k, o});
            if (k2 != k) b.model.emplace_back(k2, o2);
            break;
        }
        case 11:
            if (!in) break;
            name = "change of the referred object";
            g_obj[at->second] = static_cast<int>(c.below(5));
            CHECK(c, m.at(key(k)) == g_obj[at->second], "the map does not see its object change");
            if constexpr (!std::is_const_v<std::remove_reference_t<V>>)
            {
                m.at(key(k)) = 1000 + ++values_changed;
                CHECK(c, g_obj[at->second] == 1000 + values_changed, "writing through the map does not reach the object");
            }
            break;
        default:
        {
            name = "erase(range)";
            if constexpr (ORDERED)
            {
                auto first = m.begin();
                std::size_t i = c.below(b.model.size() + 1), j = i + c.below(b.model.size() - i + 1);
                std::sort(b.model.begin(), b.model.end());
                if (DIRECTED<M> && (b.st & 1) != 0) std::reverse(b.model.begin(), b.model.end());
                b.model.erase(b.model.begin() + static_cast<long>(i), b.model.begin() + static_cast<long>(j));
                std::advance(first, i);
                m.erase(first, std::next(first, static_cast<long>(j - i)));
            }
            break;
        }
        }
        if (name[0] == 0) continue;
        done++;
        NOTE(c, "object %d: %s key %d object %d", static_cast<int>(&b - s), name, k, o);
        for (auto& x : s) check(x, name);
    }
    if (done >= 4 && whole > 0) c.nontrivial();
    c.ops(static_cast<std::uint64_t>(done));
    c.label(ORDERED ? "references, ordered" : "references, unordered");
}

struct IntKey
{
    static int make(int k) { return k * 7 - 20; }
    static int number(int k) { return (k + 20) / 7; }
};
template <class E>
struct EnumKey
{
    static E make(int k) { return en::T<E>::values[static_cast<std::size_t>(k)]; }
    static int number(const E& e)
    {
        int i = 0;
        while (!(en::T<E>::values[static_cast<std::size_t>(i)] == e)) i++;
        return i;
    }
};

#if FAM == 0
template <class V, std::size_t N, auto C, template <class, std::size_t> class S>
using FM = fc::FixedMap<int, V, N, std::less<int>, C, S>;
using drv::RedBlackTreeNodeColorCompactness;
constexpr auto EMB = RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
constexpr auto DED = RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
REGISTER("FixedMap<int, const int&, 5>", (history<FM<const int&, 5, EMB, fc::FixedIndexBasedPoolStorage>, IntKey, 8, true, 5>), 1);
REGISTER("FixedMap<int, const int&, 9>, dedicated colour", (history<FM<const int&, 9, DED, fc::FixedIndexBasedPoolStorage>, IntKey, 12, true, 9>), 1);
REGISTER("FixedMap<int, const int&, 7>, contiguous storage", (history<FM<const int&, 7, EMB, fc::FixedIndexBasedContiguousStorage>, IntKey, 10, true, 7>), 1);
REGISTER("FixedMap<int, const int&, 5>, stateful comparator", (history<fc::FixedMap<int, const int&, 5, Dir>, IntKey, 8, true, 5>), 1);
#elif FAM == 2
REGISTER("FixedUnorderedMap<int, const int&, 6>, stateful hash and equality", (history<fc::FixedUnorderedMap<int, const int&, 6, Salted, SaltedEq>, IntKey, 9, false, 6>), 1);
REGISTER("FixedUnorderedMap<int, const int&, 5>", (history<fc::FixedUnorderedMap<int, const int&, 5>, IntKey, 8, false, 5>), 1);
REGISTER("FixedUnorderedMap<int, const int&, 1>", (history<fc::FixedUnorderedMap<int, const int&, 1>, IntKey, 3, false, 1>), 1);
#else
REGISTER("EnumMap<Dense, const int&>", (history<fc::EnumMap<en::Dense, const int&>, EnumKey<en::Dense>, 7, true, 7>), 1);
REGISTER("EnumMap<Rich, const int&>", (history<fc::EnumMap<en::Rich, const int&>, EnumKey<en::Rich>, 5, true, 5>), 1);
#endif
}  // namespace
