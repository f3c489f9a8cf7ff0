// C21: addresses, references and iterators of untouched elements. -DPART=0..7
#include "../modes.hpp"
#include "configs.hpp"

#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <algorithm>
#include <list>
#include <map>
#include <vector>

namespace fc = fixed_containers;
using pbt::Ctx;
template <class T>
int key(const T& t)
{
    return el::El<T>::key(t);
}
template <class T>
T make(int k)
{
    return el::El<T>::make(k);
}

// the same insertion by each of the calls that make it
template <class T, class C>
void append(Ctx& c, C& x, int v)
{
    const std::size_t how = c.below(3);
    if (how == 0) x.push_back(make<T>(v));
    else if (how == 1) x.emplace_back(v);
    else
    {
        const T t = make<T>(v);
        if constexpr (el::El<T>::copyable) x.push_back(t);
        else x.push_back(make<T>(v));
    }
}
template <class T, class C>
void prepend(Ctx& c, C& x, int v)
{
    const std::size_t how = c.below(3);
    if (how == 0) x.push_front(make<T>(v));
    else if (how == 1) x.emplace_front(v);
    else
    {
        const T t = make<T>(v);
        if constexpr (el::El<T>::copyable) x.push_front(t);
        else x.push_front(make<T>(v));
    }
}
template <class T, class C>
typename C::iterator put_at(Ctx& c, C& x, typename C::const_iterator pos, int v)
{
    const std::size_t how = c.below(3);
    if (how == 0) return x.insert(pos, make<T>(v));
    if (how == 1) return x.emplace(pos, v);
    const T t = make<T>(v);
    if constexpr (el::El<T>::copyable) return x.insert(pos, t);
    else return x.insert(pos, make<T>(v));
}
template <class T, class C>
typename C::iterator put_range(Ctx& c, C& x, typename C::const_iterator pos, const std::vector<T>& es)
{
    if (c.chance(1, 3))
    {
        typename el::InIt<T>::Shared sh{es.data(), es.size(), 0};
        return x.insert(pos, el::InIt<T>{std::addressof(sh), 0, false}, el::InIt<T>{});
    }
    if (es.size() == 2 && c.chance(1, 2)) return x.insert(pos, {es[0], es[1]});
    return x.insert(pos, es.begin(), es.end());
}

// ------------------------------------------------------------------------------------------------ list
template <class T, std::size_t N>
void list_test(Ctx& c)
{
    using C = fc::FixedList<T, N>;
    el::Registry::reset();
    struct Node
    {
        int v;
        T* addr;
        typename C::iterator it;
        typename C::const_iterator cit;
    };
    mode::Block<C> blk(c);
    C* x = new (blk.mem) C();
    std::list<Node> m;
    int counter = 0;
    auto fresh = [&] { return c.chance(1, 4) ? static_cast<int>(c.below(3)) : 4 + ++counter % (el::El<T>::max_key - 8); };
    auto adopt = [&](typename std::list<Node>::iterator before, typename C::iterator it, int v)
    { m.insert(before, Node{v, std::addressof(*it), it, typename C::const_iterator(it)}); };
    auto l = c.loop(60);
    std::size_t survivors = 0;
    while (c.more(l))
    {
        c.ops();
        const std::size_t n = m.size();
        const std::size_t p = c.edge(n);
        auto mp = std::next(m.begin(), static_cast<std::ptrdiff_t>(p));
        // a position, taken either from a stored iterator or by walking
        auto pos = [&](std::size_t i) -> typename C::const_iterator
        {
            if (i == m.size()) return x->cend();
            return std::next(m.begin(), static_cast<std::ptrdiff_t>(i))->cit;
        };
        const bool room = n < N;
        switch (c.below(13))
        {
        case 0:
        case 1:
            if (room)
            {
                const int v = fresh();
                NOTE(c, "push_back %d", v);
                append<T>(c, *x, v);
                adopt(m.end(), std::prev(x->end()), v);
            }
            break;
        case 2:
            if (room)
            {
                const int v = fresh();
                NOTE(c, "push_front %d", v);
                prepend<T>(c, *x, v);
                adopt(m.begin(), x->begin(), v);
            }
            break;
        case 3:
        case 4:
            if (room)
            {
                const int v = fresh();
                NOTE(c, "insert %d at %zu", v, p);
                const auto it = put_at<T>(c, *x, pos(p), v);
                adopt(mp, it, v);
            }
            break;
        case 5:
        {
            if constexpr (el::El<T>::copyable)
            {
                const std::size_t k = c.below(N - n + 1);
                std::vector<int> vs;
                std::vector<T> es;
                for (std::size_t i = 0; i < k; i++)
                {
                    vs.push_back(fresh());
                    es.push_back(make<T>(vs.back()));
                }
                NOTE(c, "insert a range of %zu at %zu", k, p);
                auto it = put_range(c, *x, pos(p), es);
                for (std::size_t i = 0; i < k; i++)
                {
                    adopt(mp, it, vs[i]);
                    ++it;
                }
            }
            break;
        }
        case 6:
        case 7:
            if (p < n)
            {
                NOTE(c, "erase at %zu", p);
                x->erase(pos(p));
                m.erase(mp);
            }
            break;
        case 8:
        {
            const std::size_t q = p + c.edge(n - p);
            NOTE(c, "erase [%zu, %zu)", p, q);
            x->erase(pos(p), pos(q));
            m.erase(mp, std::next(mp, static_cast<std::ptrdiff_t>(q - p)));
            break;
        }
        case 9:
            if (n > 0)
            {
                const bool front = c.chance(1, 2);
                NOTE(c, "pop_%s", front ? "front" : "back");
                if (front)
                {
                    x->pop_front();
                    m.pop_front();
                }
                else
                {
                    x->pop_back();
                    m.pop_back();
                }
            }
            break;
        case 10:
        {
            const int v = static_cast<int>(c.below(4));
            NOTE(c, "remove_if == %d", v);
            if (c.chance(1, 2)) x->remove_if([v](const T& t) { return key(t) == v; });
            else fc::erase_if(*x, [v](const T& t) { return key(t) == v; });
            m.remove_if([v](const Node& d) { return d.v == v; });
            break;
        }
        case 11:
            if constexpr (el::El<T>::copyable)
            {
                const std::size_t k = c.edge(N);
                const int v = fresh();
                NOTE(c, "resize to %zu", k);
                x->resize(k, make<T>(v));
                while (m.size() > k) m.pop_back();
                for (std::size_t i = m.size(); i < k; i++) adopt(m.end(), std::next(x->begin(), static_cast<std::ptrdiff_t>(i)), v);
            }
            break;
        default:
            if (n > 0 && p < n)
            {
                const int v = fresh();
                NOTE(c, "write %d through a stored iterator at %zu", v, p);
                *mp->it = make<T>(v);
                mp->v = v;
            }
            break;
        }
        // watched elements
        CHECK(c, x->size() == m.size(), "size %zu, expected %zu", x->size(), m.size());
        auto walk = x->begin();
        std::size_t i = 0;
        for (auto& d : m)
        {
            CHECK(c, std::addressof(*d.it) == d.addr && std::addressof(*d.cit) == d.addr, "a stored iterator no longer refers to its element (now at position %zu)", i);
            CHECK(c, std::addressof(*walk) == d.addr, "the element now at position %zu changed its address", i);
            CHECK(c, key(*d.addr) == d.v, "the element now at position %zu reads %d through a stored reference, expected %d", i, key(*d.addr), d.v);
            CHECK(c, walk == d.it && d.it == walk && typename C::const_iterator(walk) == d.cit, "a stored iterator does not compare equal to the current one at position %zu", i);
            auto nx = d.it;
            ++nx;
            auto want = walk;
            ++want;
            CHECK(c, nx == want, "a stored iterator cannot be advanced (position %zu)", i);
            ++walk;
            ++i;
        }
        survivors += m.size();
    }
    if (survivors > 10) c.nontrivial();
    x->~C();
}

// ------------------------------------------------------------------------------------------------ maps, sets
template <class C, bool MAP, class K, class V, std::size_t N, int UNIVERSE = static_cast<int>(N + N / 2 + 2)>
void assoc_test(Ctx& c)
{
    el::Registry::reset();
    struct Node
    {
        int v;
        const K* ka;
        const V* va;
        typename C::iterator it;
        typename C::const_iterator cit;
    };
    mode::Block<C> blk(c);
    C* x = new (blk.mem) C();
    std::map<int, Node> m;
    int counter = 0;
    auto fresh = [&] { return ++counter % 250; };
    auto kref = [](auto&& it) -> const K*
    {
        if constexpr (MAP) return std::addressof((*it).first);
        else return std::addressof(*it);
    };
    auto vref = [](auto&& it) -> const V*
    {
        if constexpr (MAP) return std::addressof((*it).second);
        else return nullptr;
    };
    auto adopt = [&](int k, typename C::iterator it, int v) { m.insert_or_assign(k, Node{v, kref(it), vref(it), it, typename C::const_iterator(it)}); };
    auto l = c.loop(60);
    std::size_t survivors = 0;
    while (c.more(l))
    {
        c.ops();
        const std::size_t n = m.size();
        const int k = static_cast<int>(c.below(UNIVERSE));
        const int v = fresh();
        auto mit = m.find(k);
        const bool has = mit != m.end();
        const bool ok = has || n < N;
        switch (c.below(10))
        {
        case 0:
        case 1:
        case 2:
            if (ok)
            {
                NOTE(c, "insert %d", k);
                auto it = [&]
                {
                    const std::size_t how = c.below(4);
                    if constexpr (MAP)
                    {
                        if constexpr (el::El<K>::copyable && el::El<V>::copyable)
                        {
                            const typename C::value_type pair(make<K>(k), make<V>(v));
                            if (how == 1) return x->insert(pair).first;
                            if (how == 2)
                            {
                                x->insert(std::addressof(pair), std::addressof(pair) + 1);
                                return x->find(pair.first);
                            }
                        }
                        return x->insert({make<K>(k), make<V>(v)}).first;
                    }
                    else
                    {
                        if constexpr (el::El<K>::copyable)
                        {
                            const K kk = make<K>(k);
                            if (how == 1) return x->insert(kk).first;
                            if (how == 2) return x->insert(x->cend(), kk);
                            if (how == 3)
                            {
                                x->insert({kk});
                                return x->find(kk);
                            }
                        }
                        return x->insert(make<K>(k)).first;
                    }
                }();
                if (!has) adopt(k, it, v);
            }
            break;
        case 3:
            if (ok)
            {
                NOTE(c, "emplace %d", k);
                auto it = [&]
                {
                    if constexpr (MAP)
                    {
                        const std::size_t how = c.below(4);
                        if (how == 1) return x->emplace(make<K>(k), make<V>(v)).first;
                        if constexpr (el::El<K>::copyable)
                        {
                            const K kk = make<K>(k);
                            if (how == 2) return x->try_emplace(kk, make<V>(v)).first;
                            if constexpr (std::is_default_constructible_v<V>)
                            {
                                if (how == 3)
                                {
                                    const bool was = x->contains(kk);
                                    V& r = (*x)[kk];
                                    if (!was) r = make<V>(v);
                                    return x->find(kk);
                                }
                            }
                        }
                        return x->try_emplace(make<K>(k), make<V>(v)).first;
                    }
                    else return x->emplace(make<K>(k)).first;
                }();
                if (!has) adopt(k, it, v);
            }
            break;
        case 4:
            if constexpr (MAP)
            {
                if (ok)
                {
                    NOTE(c, "insert_or_assign %d", k);
                    auto it = x->insert_or_assign(make<K>(k), make<V>(v)).first;
                    if (!has) adopt(k, it, v);
                    else mit->second.v = v;
                }
            }
            break;
        case 5:
        case 6:
        {
            NOTE(c, "erase key %d", k);
            x->erase(make<K>(k));
            m.erase(k);
            break;
        }
        case 7:
            if (n > 0)
            {
                auto e = std::next(m.begin(), static_cast<std::ptrdiff_t>(c.below(n)));
                NOTE(c, "erase %d through its stored iterator", e->first);
                if (c.chance(1, 2)) x->erase(e->second.it);
                else x->erase(e->second.cit);
                m.erase(e);
            }
            break;
        case 8:
        {
            const int d = 2 + static_cast<int>(c.below(4));
            NOTE(c, "erase_if key %% %d == 0", d);
            fc::erase_if(*x, [d](const auto& e)
                         {
                             if constexpr (MAP) return key<K>(e.first) % d == 0;
                             else return key<K>(e) % d == 0;
                         });
            for (auto it = m.begin(); it != m.end();) it = it->first % d == 0 ? m.erase(it) : std::next(it);
            break;
        }
        default:
        {
            // erase a run of elements in iteration order
            std::size_t a = c.edge(n), b = c.edge(n);
            if (a > b) std::swap(a, b);
            NOTE(c, "erase the elements %zu..%zu in iteration order", a, b);
            auto first = std::next(x->cbegin(), static_cast<std::ptrdiff_t>(a));
            auto last = std::next(x->cbegin(), static_cast<std::ptrdiff_t>(b));
            for (auto it = first; it != last; ++it)
            {
                if constexpr (MAP) m.erase(key<K>((*it).first));
                else m.erase(key<K>(*it));
            }
            x->erase(first, last);
            break;
        }
        }
        CHECK(c, x->size() == m.size(), "size %zu, expected %zu", x->size(), m.size());
        for (auto& [kk, d] : m)
        {
            CHECK(c, kref(d.it) == d.ka && vref(d.it) == d.va && kref(d.cit) == d.ka && vref(d.cit) == d.va, "a stored iterator no longer refers to the element with key %d", kk);
            CHECK(c, key<K>(*d.ka) == kk, "a stored reference to key %d now reads %d", kk, key<K>(*d.ka));
            if constexpr (MAP) CHECK(c, key<V>(*d.va) == d.v, "a stored reference to the value of key %d reads %d, expected %d", kk, key<V>(*d.va), d.v);
            auto f = x->find(make<K>(kk));
            CHECK(c, f != x->end(), "key %d is gone", kk);
            CHECK(c, kref(f) == d.ka && vref(f) == d.va, "the element with key %d changed its address", kk);
            CHECK(c, f == d.it && typename C::const_iterator(f) == d.cit, "a stored iterator of key %d does not compare equal to the current one", kk);
            auto a1 = d.it, a2 = f;
            ++a1;
            ++a2;
            CHECK(c, a1 == a2, "a stored iterator of key %d cannot be advanced", kk);
        }
        survivors += m.size();
    }
    if (survivors > 10) c.nontrivial();
    x->~C();
}

// ------------------------------------------------------------------------------------------------ vector, deque
template <class C, class T, std::size_t N, bool CIRC>
void ends_test(Ctx& c)
{
    el::Registry::reset();
    constexpr bool DEQ = requires(C& x) { x.pop_front(); };
    struct Node
    {
        int v;
        T* addr;
    };
    mode::Block<C> blk(c);
    C* x = new (blk.mem) C();
    std::vector<Node> m;
    int counter = 0;
    auto fresh = [&] { return 4 + ++counter % (el::El<T>::max_key - 8); };
    std::size_t survivors = 0;
    auto l = c.loop(60);
    while (c.more(l))
    {
        c.ops();
        const std::size_t n = m.size();
        auto refresh = [&](std::size_t from)  // elements from here on may have moved
        {
            for (std::size_t i = from; i < m.size(); i++) m[i].addr = std::addressof((*x)[i]);
        };
        const std::size_t op = c.below(DEQ ? 8 : 8);
        if (op <= 1 && (n < N || CIRC))
        {
            const int v = fresh();
            NOTE(c, "push_back %d", v);
            append<T>(c, *x, v);
            if (n == N) m.erase(m.begin());
            m.push_back({v, std::addressof(x->back())});
        }
        else if (op == 2 && n > 0)
        {
            NOTE(c, "pop_back");
            x->pop_back();
            m.pop_back();
        }
        else if (op <= 4)
        {
            if constexpr (DEQ)
            {
                if (op == 3 && (n < N || CIRC))
                {
                    const int v = fresh();
                    NOTE(c, "push_front %d", v);
                    prepend<T>(c, *x, v);
                    if (n == N) m.pop_back();
                    m.insert(m.begin(), {v, std::addressof(x->front())});
                }
                else if (n > 0)
                {
                    NOTE(c, "pop_front");
                    x->pop_front();
                    m.erase(m.begin());
                }
            }
        }
        else if (op == 5 && n < N)
        {
            const std::size_t p = c.edge(n);
            const int v = fresh();
            NOTE(c, "insert %d at %zu", v, p);
            put_at<T>(c, *x, std::next(x->cbegin(), static_cast<std::ptrdiff_t>(p)), v);
            m.insert(m.begin() + static_cast<std::ptrdiff_t>(p), {v, nullptr});
            refresh(DEQ && p != n ? 0 : p);  // at the end: nothing else moves
        }
        else if (op == 6)
        {
            std::size_t p = c.edge(n), q = c.edge(n);
            if (p > q) std::swap(p, q);
            NOTE(c, "erase [%zu, %zu)", p, q);
            x->erase(std::next(x->cbegin(), static_cast<std::ptrdiff_t>(p)), std::next(x->cbegin(), static_cast<std::ptrdiff_t>(q)));
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(p), m.begin() + static_cast<std::ptrdiff_t>(q));
            refresh(DEQ && q != n ? 0 : p);
        }
        else if (c.chance(1, 3))
        {
            if constexpr (el::El<T>::copyable)
            {
                const std::size_t k = c.edge(N);
                const int v = fresh();
                NOTE(c, "resize to %zu", k);
                x->resize(k, make<T>(v));
                while (m.size() > k) m.pop_back();
                for (std::size_t i = m.size(); i < k; i++) m.push_back({v, std::addressof((*x)[i])});
            }
        }
        else if (n < N)
        {
            if constexpr (el::El<T>::copyable)
            {
                std::vector<T> es;
                const std::size_t p = DEQ ? n : c.edge(n);
                const std::size_t k = c.below(N - n + 1);
                std::vector<Node> add;
                for (std::size_t i = 0; i < k; i++)
                {
                    const int v = fresh();
                    es.push_back(make<T>(v));
                    add.push_back({v, nullptr});
                }
                NOTE(c, "insert a range of %zu at %zu", k, p);
                put_range(c, *x, std::next(x->cbegin(), static_cast<std::ptrdiff_t>(p)), es);
                m.insert(m.begin() + static_cast<std::ptrdiff_t>(p), add.begin(), add.end());
                refresh(p);
            }
        }
        CHECK(c, x->size() == m.size(), "size %zu, expected %zu", x->size(), m.size());
        for (std::size_t i = 0; i < m.size(); i++)
        {
            CHECK(c, std::addressof((*x)[i]) == m[i].addr, "the element now at index %zu changed its address", i);
            CHECK(c, key(*m[i].addr) == m[i].v, "the element now at index %zu reads %d through a stored reference, expected %d", i, key(*m[i].addr), m[i].v);
        }
        survivors += m.size();
    }
    if (survivors > 10) c.nontrivial();
    x->~C();
}

using fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
inline constexpr auto EMB = RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
inline constexpr auto DED = RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
template <class T, std::size_t N>
using Pool = fc::FixedIndexBasedPoolStorage<T, N>;
template <class K>
struct H  // runs of colliding keys
{
    std::uint64_t operator()(const K& k) const { return static_cast<std::uint64_t>(key(k) / 3) << 8; }
};
enum class Ten { A, B, C, D, E, F, G, H_, I, J };
template <>
struct el::El<Ten>
{
    static Ten make(int k) { return static_cast<Ten>(k); }
    static int key(const Ten& t) { return static_cast<int>(t); }
    static constexpr bool tracked = false, copyable = true, dflt = true;
    static constexpr int max_key = 9;
    static constexpr const char* name = "Ten";
};

#if PART == 0
REGISTER("list<int,6>", (list_test<int, 6>), 1);
REGISTER("list<Trk,5>", (list_test<Trk, 5>), 1);
REGISTER("list<MOnly,4>", (list_test<MOnly, 4>), 0.5);
REGISTER("list<Big,70>", (list_test<Big, 70>), 0.3);
#elif PART == 1
REGISTER("map<int,int,7>", (assoc_test<fc::FixedMap<int, int, 7>, true, int, int, 7>), 1);
REGISTER("map<Trk,Trk,6>", (assoc_test<fc::FixedMap<Trk, Trk, 6>, true, Trk, Trk, 6>), 1);
#elif PART == 2
REGISTER("map<uchar,Big,9,dedicated>", (assoc_test<fc::FixedMap<unsigned char, Big, 9, std::less<unsigned char>, DED, Pool>, true, unsigned char, Big, 9>), 1);
REGISTER("map<int,Trk,30,dedicated>", (assoc_test<fc::FixedMap<int, Trk, 30, std::greater<int>, DED, Pool>, true, int, Trk, 30>), 0.5);
#elif PART == 3
REGISTER("set<int,8>", (assoc_test<fc::FixedSet<int, 8>, false, int, int, 8>), 1);
REGISTER("set<Trk,6,dedicated>", (assoc_test<fc::FixedSet<Trk, 6, std::less<Trk>, DED, Pool>, false, Trk, int, 6>), 1);
REGISTER("set<MOnly,20>", (assoc_test<fc::FixedSet<MOnly, 20>, false, MOnly, int, 20>), 0.5);
#elif PART == 4
REGISTER("umap<int,int,7>", (assoc_test<fc::FixedUnorderedMap<int, int, 7, H<int>, std::equal_to<int>, 8>, true, int, int, 7>), 1);
REGISTER("umap<Trk,Trk,6>", (assoc_test<fc::FixedUnorderedMap<Trk, Trk, 6, H<Trk>>, true, Trk, Trk, 6>), 1);
#elif PART == 5
REGISTER("uset<int,8>", (assoc_test<fc::FixedUnorderedSet<int, 8>, false, int, int, 8>), 1);
REGISTER("uset<Trk,6>", (assoc_test<fc::FixedUnorderedSet<Trk, 6, H<Trk>, std::equal_to<Trk>, 6>, false, Trk, int, 6>), 1);
REGISTER("umap<uchar,Big,40>", (assoc_test<fc::FixedUnorderedMap<unsigned char, Big, 40>, true, unsigned char, Big, 40>), 0.5);
#elif PART == 6
REGISTER("enum_map<Ten,int>", (assoc_test<fc::EnumMap<Ten, int>, true, Ten, int, 10, 10>), 0.5);
REGISTER("enum_map<Ten,Trk>", (assoc_test<fc::EnumMap<Ten, Trk>, true, Ten, Trk, 10, 10>), 0.5);
REGISTER("vector<int,7>", (ends_test<fc::FixedVector<int, 7>, int, 7, false>), 0.5);
REGISTER("vector<Trk,6>", (ends_test<fc::FixedVector<Trk, 6>, Trk, 6, false>), 1);
#else
REGISTER("deque<int,7>", (ends_test<fc::FixedDeque<int, 7>, int, 7, false>), 1);
REGISTER("deque<Trk,6>", (ends_test<fc::FixedDeque<Trk, 6>, Trk, 6, false>), 1);
REGISTER("circular<Trk,5>", (ends_test<fc::FixedCircularDeque<Trk, 5>, Trk, 5, true>), 1);
REGISTER("circular<Big,3>", (ends_test<fc::FixedCircularDeque<Big, 3>, Big, 3, true>), 0.5);
#endif
