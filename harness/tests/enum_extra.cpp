// -DFAM=0: enum map factories, builder, comparison; -DFAM=1: enum set factories/comparison and enum array.
#include "../enums.hpp"
#include "../modes.hpp"
#include "configs.hpp"
#include <map>
#include <set>
using namespace pbt;
using namespace en;
namespace fc = fixed_containers;

namespace
{
template <class K>
K kth(std::size_t i) { return T<K>::values[i]; }
template <class K>
constexpr std::size_t N = T<K>::values.size();

template <class K>
std::vector<std::size_t> draw_subset(Ctx& c)   // in random order, without duplicates
{
    std::vector<std::size_t> v;
    for (std::size_t i = 0; i < N<K>; i++)
        if (c.chance(1, 2)) v.push_back(i);
    if (c.chance(1, 6)) v.clear();
    if (c.chance(1, 6))
    {
        v.clear();
        for (std::size_t i = 0; i < N<K>; i++) v.push_back(i);
    }
    for (std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.below(i)]);
    return v;
}

#if FAM == 0
template <class K, class V>
void expect_map(Ctx& c, const fc::EnumMap<K, V>& x, const std::map<std::size_t, int>& m, const char* what)
{
    CHECK(c, x.size() == m.size(), "%s: size %zu, expected %zu", what, x.size(), m.size());
    auto it = x.begin();
    for (const auto& [i, v] : m)
    {
        CHECK(c, it != x.end(), "%s: iteration ends early", what);
        CHECK(c, (*it).first == kth<K>(i) && el::El<V>::key((*it).second) == v, "%s: wrong entry for enumerator %zu", what, i);
        ++it;
    }
    CHECK(c, it == x.end(), "%s: too many entries", what);
    for (std::size_t i = 0; i < N<K>; i++)
        CHECK(c, x.contains(kth<K>(i)) == (m.count(i) != 0), "%s: contains(%zu) is wrong", what, i);
}

template <class K, class V>
void map_extra(Ctx& c)
{
    using Map = fc::EnumMap<K, V>;
    using P = std::pair<const K, V>;
    using E = el::El<V>;
    el::Registry::reset();
    {
        std::vector<Map> keep;
        std::vector<std::map<std::size_t, int>> models;
        keep.reserve(4);
        const std::size_t rounds = 2 + c.below(3);
        for (std::size_t r = 0; r < rounds; r++)
        {
            std::map<std::size_t, int> m;
            const auto sub = draw_subset<K>(c);
            if (!sub.empty() && sub.size() < N<K>) c.nontrivial();
            switch (c.below(4))
            {
            case 0:
            {
                const int v = static_cast<int>(c.below(3));
                NOTE(c, "create_with_keys of %zu keys, value %d", sub.size(), v);
                std::vector<K> ks;
                for (auto i : sub)
                {
                    ks.push_back(kth<K>(i));
                    m[i] = v;
                    if (c.chance(1, 5)) ks.push_back(kth<K>(i));
                }
                const V val = E::make(v);
                if (E::dflt && v == 0 && c.chance(1, 2))
                {
                    if constexpr (E::dflt) keep.push_back(Map::create_with_keys(ks));
                }
                else keep.push_back(Map::create_with_keys(ks, val));
                break;
            }
            case 1:
            {
                NOTE(c, "create_with_all_entries");
                std::vector<std::size_t> order;
                for (std::size_t i = 0; i < N<K>; i++) order.push_back(i);
                for (std::size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.below(i)]);
                std::vector<P> ps;
                for (auto i : order)
                {
                    const int v = static_cast<int>(c.below(3));
                    m[i] = v;
                    ps.push_back(P(kth<K>(i), E::make(v)));
                }
                keep.push_back(Map::create_with_all_entries(ps));
                break;
            }
            case 2:
            {
                NOTE(c, "Builder with %zu", sub.size());
                typename Map::Builder b{};
                std::vector<P> ps;
                for (auto i : sub)
                {
                    const int v = static_cast<int>(c.below(3));
                    ps.push_back(P(kth<K>(i), E::make(v)));
                    m.emplace(i, v);
                    if (c.chance(1, 4)) ps.push_back(P(kth<K>(i), E::make(v + 50)));   // must be ignored
                }
                std::size_t done = 0;
                while (done < ps.size())
                {
                    const std::size_t k = 1 + c.below(ps.size() - done);
                    const auto from = ps.begin() + static_cast<std::ptrdiff_t>(done);
                    const auto to = from + static_cast<std::ptrdiff_t>(k);
                    const bool rv = c.chance(1, 2);
                    using B = typename Map::Builder;
                    const B* same = &b;
                    const std::size_t how = c.below(4);
                    if (how == 3) same = rv ? &static_cast<const B&>(std::move(b).insert(from, to)) : &b.insert(from, to);
                    else
                        for (auto it = from; it != to; ++it)
                        {
                            if (how == 0) same = rv ? &static_cast<const B&>(std::move(b).insert(*it)) : &b.insert(*it);
                            else if (how == 1) same = rv ? &static_cast<const B&>(std::move(b).insert(P(*it))) : &b.insert(P(*it));
                            else
                            {
                                const std::initializer_list<P> il{*it, *it};
                                same = rv ? &static_cast<const B&>(std::move(b).insert(il)) : &b.insert(il);
                            }
                        }
                    CHECK(c, same == &b, "a builder's call returns another builder");
                    done += k;
                }
                if (c.chance(1, 2)) keep.push_back(b.build());
                else keep.push_back(std::move(b).build());
                break;
            }
            default:
            {
                NOTE(c, "range/at/[] construction with %zu", sub.size());
                Map x{};
                for (auto i : sub)
                {
                    const int v = static_cast<int>(c.below(3));
                    if constexpr (E::dflt) x[kth<K>(i)] = E::make(v);
                    else x.try_emplace(kth<K>(i), v);
                    m[i] = v;
                }
                for (auto i : draw_subset<K>(c))
                {
                    if (c.chance(1, 2)) continue;
                    x.erase(kth<K>(i));
                    m.erase(i);
                }
                keep.push_back(std::move(x));
                break;
            }
            }
            models.push_back(m);
            c.ops();
            expect_map(c, keep.back(), m, "factory");
        }
        for (std::size_t i = 0; i < keep.size(); i++)
            for (std::size_t j = 0; j < keep.size(); j++)
            {
                const bool want = models[i] == models[j];
                CHECK(c, (keep[i] == keep[j]) == want && (keep[i] != keep[j]) != want, "== of two enum maps is wrong (expected %d)", want);
            }
    }
    if constexpr (E::tracked) CHECK(c, el::Registry::live == 0, "lifetime: elements leak");
}
#define R(K, V, W) REGISTER("enum map factories " #K " " #V, (map_extra<K, V>), W)
#if PART == 0
R(Dense, int, 1);
R(Sparse, Trk, 1);
#elif PART == 1
R(Rich, Trk, 1);
R(RichNd, Big, 0.5);
#else
R(Custom, TDtor, 0.5);
R(Wide, el_uchar, 0.5);
#endif
#else
template <class K>
void expect_set(Ctx& c, const fc::EnumSet<K>& x, const std::set<std::size_t>& m, const char* what)
{
    CHECK(c, x.size() == m.size() && x.empty() == m.empty() && is_full(x) == (m.size() == N<K>), "%s: size %zu, expected %zu", what, x.size(), m.size());
    auto it = x.begin();
    for (const auto i : m)
    {
        CHECK(c, it != x.end() && *it == kth<K>(i), "%s: wrong iteration at enumerator %zu", what, i);
        ++it;
    }
    CHECK(c, it == x.end(), "%s: too many keys", what);
    for (std::size_t i = 0; i < N<K>; i++)
        CHECK(c, x.contains(kth<K>(i)) == (m.count(i) != 0), "%s: contains(%zu) is wrong", what, i);
}
template <class K>
void set_extra(Ctx& c)
{
    using Set = fc::EnumSet<K>;
    std::vector<Set> keep;
    std::vector<std::set<std::size_t>> models;
    const std::size_t rounds = 2 + c.below(4);
    for (std::size_t r = 0; r < rounds; r++)
    {
        const auto sub = draw_subset<K>(c);
        if (!sub.empty() && sub.size() < N<K>) c.nontrivial();
        std::set<std::size_t> m(sub.begin(), sub.end());
        std::vector<K> ks;
        for (auto i : sub) ks.push_back(kth<K>(i));
        switch (c.below(9))
        {
        case 0:
            NOTE(c, "all");
            keep.push_back(Set::all());
            m.clear();
            for (std::size_t i = 0; i < N<K>; i++) m.insert(i);
            break;
        case 1:
            NOTE(c, "none");
            keep.push_back(Set::none());
            m.clear();
            break;
        case 2:
        case 3:
        {
            const bool of_set = c.chance(1, 2);
            NOTE(c, "complement_of %zu keys%s", ks.size(), of_set ? " (set)" : "");
            if (of_set) keep.push_back(Set::complement_of(Set::copy_of(ks)));
            else keep.push_back(Set::complement_of(ks));
            std::set<std::size_t> inv;
            for (std::size_t i = 0; i < N<K>; i++)
                if (m.count(i) == 0) inv.insert(i);
            m = inv;
            break;
        }
        case 4:
            NOTE(c, "copy_of %zu keys", ks.size());
            keep.push_back(Set::copy_of(ks));
            break;
        case 5:
            NOTE(c, "range constructor, %zu keys", ks.size());
            keep.push_back(Set(ks.begin(), ks.end()));
            break;
        case 6:
        {
            NOTE(c, "copy then erase");
            Set x = keep.empty() ? Set{} : keep[c.below(keep.size())];
            std::set<std::size_t> mm;
            for (std::size_t i = 0; i < N<K>; i++)
                if (x.contains(kth<K>(i))) mm.insert(i);
            for (auto i : sub)
            {
                CHECK(c, x.erase(kth<K>(i)) == mm.erase(i), "erase(key) result is wrong");
            }
            m = mm;
            keep.push_back(x);
            break;
        }
        default:
        {
            NOTE(c, "Builder with %zu", ks.size());
            typename Set::Builder b{};
            using B = typename Set::Builder;
            const B* same = &b;
            std::size_t done = 0;
            while (done < ks.size())
            {
                const std::size_t k = 1 + c.below(ks.size() - done);
                const auto from = ks.begin() + static_cast<std::ptrdiff_t>(done);
                const auto to = from + static_cast<std::ptrdiff_t>(k);
                const bool rv = c.chance(1, 2);
                const std::vector<K> part(from, to);
                const std::size_t how = c.below(4);
                if (how == 3) same = rv ? &static_cast<const B&>(std::move(b).insert(from, to)) : &b.insert(from, to);
                else if (how == 2) same = rv ? &static_cast<const B&>(std::move(b).insert(part)) : &b.insert(part);
                else
                    for (const K& key : part)
                    {
                        const std::initializer_list<K> il{key, key};
                        if (how == 0) same = rv ? &static_cast<const B&>(std::move(b).insert(key)) : &b.insert(key);
                        else same = rv ? &static_cast<const B&>(std::move(b).insert(il)) : &b.insert(il);
                    }
                CHECK(c, same == &b, "a builder's call returns another builder");
                done += k;
            }
            for (auto i : draw_subset<K>(c))
            {
                if (c.chance(1, 2)) continue;
                if (c.chance(1, 2)) b.erase(kth<K>(i));
                else std::move(b).erase(kth<K>(i));
                m.erase(i);
            }
            if (c.chance(1, 2)) keep.push_back(b.build());
            else keep.push_back(std::move(b).build());
            break;
        }
        }
        models.push_back(m);
        c.ops();
        expect_set(c, keep.back(), m, "factory");
        if (c.chance(1, 3))
        {
            const std::size_t a = c.below(keep.size());
            const std::size_t b = c.below(keep.size());
            NOTE(c, "swap %zu %zu", a, b);
            std::swap(keep[a], keep[b]);
            std::swap(models[a], models[b]);
        }
    }
    for (std::size_t i = 0; i < keep.size(); i++)
    {
        expect_set(c, keep[i], models[i], "later");
        for (std::size_t j = 0; j < keep.size(); j++)
        {
            const bool want = models[i] == models[j];
            CHECK(c, (keep[i] == keep[j]) == want && (keep[i] != keep[j]) != want, "== of two enum sets is wrong (expected %d)", want);
            std::vector<K> a, b;
            for (auto q : models[i]) a.push_back(kth<K>(q));
            for (auto q : models[j]) b.push_back(kth<K>(q));
            const auto o = std::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end());
            CHECK(c, (keep[i] <=> keep[j]) == o, "<=> of two enum sets is wrong");
            CHECK(c, (keep[i] < keep[j]) == (o < 0) && (keep[i] <= keep[j]) == (o <= 0) && (keep[i] > keep[j]) == (o > 0) && (keep[i] >= keep[j]) == (o >= 0),
                  "ordering of two enum sets is wrong");
        }
    }
}

// ---- enum array ---------------------------------------------------------------------------------
template <class K, class V>
struct ArrD
{
    using A = fc::EnumArray<K, V>;
    using E = el::El<V>;
    static constexpr std::size_t n = N<K>;
    using M = std::array<int, n>;
    static void check(Ctx& c, A& x, const M& m)
    {
        const A& cx = x;
        CHECK(c, cx.size() == n && cx.max_size() == n && cx.empty() == (n == 0), "size() is wrong");
        CHECK(c, cx.labels().size() == n, "labels() has the wrong length");
        CHECK(c, static_cast<std::size_t>(cx.end() - cx.begin()) == n && static_cast<std::size_t>(x.rend() - x.rbegin()) == n, "iteration length is wrong");
        std::set<const void*> addr;
        for (std::size_t i = 0; i < n; i++)
        {
            const K k = kth<K>(i);
            CHECK(c, cx.labels()[i] == k, "labels()[%zu] is wrong", i);
            CHECK(c, E::key(cx[k]) == m[i], "[%zu] is %d, expected %d", i, E::key(cx[k]), m[i]);
            CHECK(c, std::addressof(cx.at(k)) == std::addressof(cx[k]) && std::addressof(x.at(k)) == std::addressof(x[k]) && std::addressof(cx[k]) == std::addressof(x[k]), "at/[] disagree for %zu", i);
            CHECK(c, cx.data() + i == std::addressof(cx[k]) && x.data() + i == std::addressof(x[k]), "data() does not follow the enumerators' order");
            CHECK(c, std::addressof(*(cx.begin() + static_cast<std::ptrdiff_t>(i))) == std::addressof(cx[k]) && std::addressof(*(x.begin() + static_cast<std::ptrdiff_t>(i))) == std::addressof(cx[k]), "iteration order is wrong");
            CHECK(c, std::addressof(*(cx.crbegin() + static_cast<std::ptrdiff_t>(n - 1 - i))) == std::addressof(cx[k]) && std::addressof(*(x.rbegin() + static_cast<std::ptrdiff_t>(n - 1 - i))) == std::addressof(cx[k]), "reverse iteration order is wrong");
            addr.insert(std::addressof(cx[k]));
        }
        CHECK(c, addr.size() == n, "two enumerators share an element");
        CHECK(c, std::addressof(cx.front()) == std::addressof(cx[kth<K>(0)]) && std::addressof(x.back()) == std::addressof(cx[kth<K>(n - 1)]), "front/back are wrong");
        CHECK(c, std::addressof(x.front()) == std::addressof(cx.front()) && std::addressof(x.back()) == std::addressof(cx.back()), "front/back are wrong");
    }
    template <std::size_t... I>
    static A strict(const M& m, std::index_sequence<I...>)
    {
        const std::pair<const K, V> list[n] = {std::pair<const K, V>(kth<K>(I), E::make(m[I]))...};
        return A(list);
    }
    static A make(Ctx& c, M& m)
    {
        m.fill(0);
        if constexpr (E::dflt)
        {
            std::vector<std::pair<K, V>> ps;
            const std::size_t cnt = c.below(2 * n + 1);
            for (std::size_t i = 0; i < cnt; i++)
            {
                const std::size_t k = c.below(n);
                const int v = static_cast<int>(c.below(3));
                ps.emplace_back(kth<K>(k), E::make(v));
                m[k] = v;   // the last one wins
            }
            if (cnt == 0) return A{};
            if (cnt == 1) return A{{ps[0].first, ps[0].second}};
            if (cnt == 2) return A{{ps[0].first, ps[0].second}, {ps[1].first, ps[1].second}};
            return A(fc::std_transition::from_range, ps);
        }
        else
        {
            for (auto& v : m) v = static_cast<int>(c.below(3));
            return strict(m, std::make_index_sequence<n>{});
        }
    }
    static void run(Ctx& c)
    {
        el::Registry::reset();
        {
            M ma, mb;
            A a = make(c, ma);
            A b = make(c, mb);
            check(c, a, ma);
            check(c, b, mb);
            auto l = c.loop(30);
            std::size_t ops = 0;
            while (c.more(l))
            {
                c.ops();
                ++ops;
                const std::size_t i = c.below(n);
                const int v = static_cast<int>(c.below(4));
                switch (c.below(9))
                {
                case 0: a[kth<K>(i)] = E::make(v); ma[i] = v; break;
                case 1: a.at(kth<K>(i)) = E::make(v); ma[i] = v; break;
                case 2: *(a.begin() + static_cast<std::ptrdiff_t>(i)) = E::make(v); ma[i] = v; break;
                case 3: { const V val = E::make(v); b.fill(val); mb.fill(v); break; }
                case 4: a.swap(b); std::swap(ma, mb); break;
                case 5: a.front() = E::make(v); ma.front() = v; b.back() = E::make(v); mb.back() = v; break;
                case 6: std::swap(a, b); std::swap(ma, mb); break;
                case 7: b = a; mb = ma; break;
                default: { A t(b); a = std::move(t); ma = mb; break; }
                }
                check(c, a, ma);
                check(c, b, mb);
                CHECK(c, (a == b) == (ma == mb) && (a != b) == (ma != mb), "== of two enum arrays is wrong");
                CHECK(c, (a <=> b) == (ma <=> mb) && (a < b) == (ma < mb) && (a >= b) == (ma >= mb), "ordering of two enum arrays is wrong");
            }
            if (ops >= 3) c.nontrivial();
        }
        if constexpr (E::tracked) CHECK(c, el::Registry::live == 0, "lifetime: elements leak");
    }
};
#define RS(K, W) REGISTER("enum set factories " #K, (set_extra<K>), W)
#define RA(K, V, W) REGISTER("enum array " #K " " #V, (ArrD<K, V>::run), W)
#if PART == 0
RS(Dense, 1);
RS(Custom, 1);
RS(RichNd, 1);
RA(Dense, int, 1);
RA(Custom, TDtor, 1);
#elif PART == 1
RS(Sparse, 1);
RS(Rich, 1);
RA(Sparse, Trk, 1);
RA(Rich, Big, 0.5);
#else
RS(Wide, 0.5);
RS(Unscoped, 1);
RA(RichNd, int, 0.5);
RA(Unscoped, Trk, 1);
#endif
#endif
}  // namespace
