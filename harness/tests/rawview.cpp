// C23: raw views against the typed container they look at. -DPART=0..7
#include "../modes.hpp"

#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_deque_raw_view.hpp"
#include "fixed_containers/fixed_doubly_linked_list_raw_view.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_map_raw_view.hpp"
#include "fixed_containers/fixed_red_black_tree_view.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_map_raw_view.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_unordered_set_raw_view.hpp"

#include <cstring>
#include <string>
#include <vector>

namespace fc = fixed_containers;
namespace rbd = fixed_containers::fixed_red_black_tree_detail;
using pbt::Ctx;

// ------------------------------------------------------------------------------------- elements of any size
template <std::size_t S, std::size_t A>
struct Blob
{
    static_assert(S % A == 0);
    alignas(A) unsigned char b[S];
    Blob() = default;
    explicit Blob(int k)
    {
        for (std::size_t i = 0; i < S; i++) b[i] = static_cast<unsigned char>(static_cast<std::size_t>(k) + i * 7);
    }
    friend bool operator==(const Blob& l, const Blob& r) { return std::memcmp(l.b, r.b, S) == 0; }
    friend bool operator<(const Blob& l, const Blob& r) { return std::memcmp(l.b, r.b, S) < 0; }
};
struct Padded  // char, hole, int: size 8, align 4
{
    char a;
    int b;
    Padded() = default;
    explicit Padded(int k) : a(static_cast<char>(k & 1)), b(k) {}
    friend bool operator==(const Padded& l, const Padded& r) { return l.b == r.b; }
    friend bool operator<(const Padded& l, const Padded& r) { return l.b < r.b; }
};
struct Heavy  // not trivially copyable; size 40, align 8
{
    std::string s;
    int k;
    explicit Heavy(int v) : s(static_cast<std::size_t>(v % 30), 'x'), k(v) {}
    friend bool operator==(const Heavy& l, const Heavy& r) { return l.k == r.k; }
    friend bool operator<(const Heavy& l, const Heavy& r) { return l.k < r.k; }
};
template <class T>
struct BHash
{
    std::size_t operator()(const T& t) const
    {
        if constexpr (requires { t.b[0]; })
            return t.b[0] * 0x9E3779B97F4A7C15ULL;
        else if constexpr (requires { t.k; })
            return static_cast<std::size_t>(t.k) % 5;
        else
            return static_cast<std::size_t>(t.b) * 0x9E3779B97F4A7C15ULL;
    }
};

struct Spot
{
    const void* key;
    const void* value;
};

// Compares one pass over the view with the addresses the typed container reports.
template <class View, class Get>
void compare(Ctx& c, const char* what, const View& view, const std::vector<Spot>& want, Get get)
{
    const auto n = static_cast<std::size_t>(view.size());
    CHECK(c, n == want.size(), "%s: size() of the view is %zu, the container holds %zu elements", what, n, want.size());
    std::size_t i = 0;
    decltype(view.begin()) it{};
    decltype(view.begin()) other{};
    CHECK(c, it == other, "%s: two value-initialised iterators of the view differ", what);
    it = view.begin();
    const auto e = view.end();
    for (; it != e && i < want.size(); i++)
    {
        const Spot s = get(*it);
        CHECK(c, s.key == want[i].key, "%s: entry %zu of %zu of the view is %td bytes away from the element", what, i, want.size(),
              static_cast<const char*>(s.key) - static_cast<const char*>(want[i].key));
        CHECK(c, s.value == want[i].value, "%s: value of entry %zu of %zu of the view is %td bytes away from the mapped value", what, i,
              want.size(), static_cast<const char*>(s.value) - static_cast<const char*>(want[i].value));
        if (i % 3 == 0)
            ++it;
        else
        {
            auto old = it++;
            const Spot o = get(*old);
            CHECK(c, o.key == s.key && o.value == s.value, "%s: it++ of the view does not return the old position", what);
            auto again = old;
            ++again;
            CHECK(c, again == it, "%s: two increments of the same position of the view differ", what);
        }
    }
    CHECK(c, i == want.size() && !(it != e) && it == view.end(), "%s: the view ends after %zu of %zu elements", what, i, want.size());
}

template <class C, class Fresh, class Expect>
void observe(Ctx& c, const char* what, const C& x, Fresh&& run, Expect&& expect)
{
    const std::vector<Spot> want = expect();
    std::vector<unsigned char> before(sizeof(C));
    std::memcpy(before.data(), static_cast<const void*>(&x), sizeof(C));
    run(want);
    CHECK(c, std::memcmp(before.data(), static_cast<const void*>(&x), sizeof(C)) == 0, "%s: viewing changed the container", what);
}

auto ptr_of = [](const std::byte* p) { return Spot{p, nullptr}; };
auto entry_of = [](const auto& e) { return Spot{e.key(), e.value()}; };

// ------------------------------------------------------------------------------------- sequences
enum Kind { DEQUE, CDEQUE, LIST };
template <Kind KIND, class T, std::size_t N>
void seq(Ctx& c)
{
    using C = std::conditional_t<KIND == LIST, fc::FixedList<T, N>,
                                 std::conditional_t<KIND == DEQUE, fc::FixedDeque<T, N>, fc::FixedCircularDeque<T, N>>>;
    mode::Block<C> blk(c);
    auto* x = new (blk.mem) C();
    std::size_t nops = 0;
    auto make_view = [&]
    {
        if constexpr (KIND == LIST)
            return fc::fixed_doubly_linked_list_detail::FixedDoublyLinkedListRawView<>(x, sizeof(T), alignof(T), N);
        else
            return fc::FixedDequeRawView<>(x, sizeof(T), alignof(T), N);
    };
    const auto old_view = make_view();
    auto look = [&](const char* what)
    {
        observe(
            c, what, *x,
            [&](const std::vector<Spot>& want)
            {
                compare(c, what, old_view, want, ptr_of);
                compare(c, what, make_view(), want, ptr_of);
            },
            [&]
            {
                std::vector<Spot> v;
                for (const T& t : std::as_const(*x)) v.push_back({std::addressof(t), nullptr});
                return v;
            });
    };
    look("new");
    auto l = c.loop(60);
    while (c.more(l))
    {
        c.ops();
        nops++;
        const std::size_t n = x->size();
        const bool room = n < N || KIND == CDEQUE;
        const int v = static_cast<int>(c.below(200));
        const char* what = "";
        switch (c.below(10))
        {
        case 0:
        case 1:
            what = "push_back";
            if (room) x->push_back(T(v));
            break;
        case 2:
        case 3:
            what = "push_front";
            if (room) x->push_front(T(v));
            break;
        case 4:
            what = "pop_back";
            if (n > 0) x->pop_back();
            break;
        case 5:
            what = "pop_front";
            if (n > 0) x->pop_front();
            break;
        case 6:
            what = "insert";
            if (room) x->insert(std::next(x->begin(), static_cast<std::ptrdiff_t>(c.edge(n))), T(v));
            break;
        case 7:
            what = "erase";
            if (n > 0) x->erase(std::next(x->begin(), static_cast<std::ptrdiff_t>(c.edge(n - 1))));
            break;
        case 8:
        {
            what = "fill and drain";
            const std::size_t k = c.below(2 * N + 1);
            const bool front = c.chance(1, 2);
            for (std::size_t i = 0; i < k; i++)
            {
                if (x->size() == N)
                {
                    if (front)
                        x->pop_back();
                    else
                        x->pop_front();
                }
                if (front)
                    x->push_front(T(v + static_cast<int>(i) % 50));
                else
                    x->push_back(T(v + static_cast<int>(i) % 50));
            }
            break;
        }
        default:
            what = "clear or replace";
            if (c.chance(1, 2))
                x->clear();
            else
            {
                C y(*x);
                if (!y.empty()) y.pop_front();
                *x = y;
            }
        }
        NOTE(c, "%s (%d), size %zu", what, v, x->size());
        look(what);
    }
    if (nops >= 4) c.nontrivial();
    x->~C();
}

// ------------------------------------------------------------------------------------- trees and hash tables
template <class C>
constexpr bool is_map = requires { typename C::mapped_type; };

template <class C, class V>
const void* value_addr(const V& entry)
{
    if constexpr (is_map<C>)
        return std::addressof(entry.second);
    else
        return nullptr;
}

template <class C, class MakeView, class Get>
void assoc(Ctx& c, MakeView make_view_of, Get get)
{
    using K = typename C::key_type;
    mode::Block<C> blk(c);
    auto* x = new (blk.mem) C();
    const std::size_t N = x->max_size();
    std::size_t nops = 0;
    const auto old_view = make_view_of(*x);
    const unsigned range = static_cast<unsigned>(std::min<std::size_t>(200, N + N / 2 + 3));
    auto look = [&](const char* what)
    {
        observe(
            c, what, *x,
            [&](const std::vector<Spot>& want)
            {
                compare(c, what, old_view, want, get);
                compare(c, what, make_view_of(*x), want, get);
            },
            [&]
            {
                std::vector<Spot> v;
                for (auto it = x->cbegin(); it != x->cend(); ++it)
                {
                    if constexpr (is_map<C>)
                        v.push_back({std::addressof(it->first), std::addressof(it->second)});
                    else
                        v.push_back({std::addressof(*it), nullptr});
                }
                return v;
            });
    };
    look("new");
    auto add = [&](int k)
    {
        if (x->size() == N && !x->contains(K(k))) return;
        if constexpr (is_map<C>)
            x->try_emplace(K(k), k / 2);
        else
            x->insert(K(k));
    };
    auto l = c.loop(60);
    while (c.more(l))
    {
        c.ops();
        nops++;
        const int k = static_cast<int>(c.below(range));
        const char* what = "";
        switch (c.below(9))
        {
        case 0:
        case 1:
        case 2:
            what = "insert";
            add(k);
            break;
        case 3:
        case 4:
            what = "erase key";
            x->erase(K(k));
            break;
        case 5:
            what = "erase position";
            if (!x->empty()) x->erase(std::next(x->begin(), static_cast<std::ptrdiff_t>(c.edge(x->size() - 1))));
            break;
        case 6:
        {
            what = "insert many";
            const int step = 1 + static_cast<int>(c.below(5));
            for (int i = 0; i < static_cast<int>(range) / 2; i++) add((k + i * step) % static_cast<int>(range));
            break;
        }
        case 7:
        {
            what = "erase many";
            const int step = 1 + static_cast<int>(c.below(5));
            for (int i = 0; i < static_cast<int>(range) / 3; i++) x->erase(K((k + i * step) % static_cast<int>(range)));
            break;
        }
        default:
            what = "clear or replace";
            if (c.chance(1, 3))
                x->clear();
            else
            {
                C y(*x);
                y.erase(K(k));
                *x = y;
            }
        }
        NOTE(c, "%s (%d), size %zu", what, k, x->size());
        look(what);
    }
    if (nops >= 4) c.nontrivial();
    x->~C();
}

template <class T, std::size_t N>
using Pool = fc::FixedIndexBasedPoolStorage<T, N>;
template <class T, std::size_t N>
using Contig = fc::FixedIndexBasedContiguousStorage<T, N>;
using Compact = rbd::RedBlackTreeNodeColorCompactness;
using StoreKind = rbd::RedBlackTreeStorageType;

template <class K, std::size_t N, Compact CC, bool CONTIG>
void set_test(Ctx& c)
{
    using CP = fc::FixedSet<K, N, std::less<K>, CC, Pool>;
    using CT = fc::FixedSet<K, N, std::less<K>, CC, Contig>;
    using C = std::conditional_t<CONTIG, CT, CP>;
    assoc<C>(
        c,
        [](const C& x)
        { return fc::FixedRedBlackTreeRawView(&x, sizeof(K), N, CC, CONTIG ? StoreKind::FIXED_INDEX_CONTIGUOUS : StoreKind::FIXED_INDEX_POOL); },
        ptr_of);
}
template <class K, class V, std::size_t N, Compact CC, bool CONTIG>
void map_test(Ctx& c)
{
    using CP = fc::FixedMap<K, V, N, std::less<K>, CC, Pool>;
    using CT = fc::FixedMap<K, V, N, std::less<K>, CC, Contig>;
    using C = std::conditional_t<CONTIG, CT, CP>;
    assoc<C>(
        c,
        [](const C& x)
        {
            return fc::FixedMapRawView(&x, sizeof(K), alignof(K), sizeof(V), alignof(V), N, CC,
                                       CONTIG ? StoreKind::FIXED_INDEX_CONTIGUOUS : StoreKind::FIXED_INDEX_POOL);
        },
        entry_of);
}
template <class K, std::size_t N>
void uset_test(Ctx& c)
{
    using C = fc::FixedUnorderedSet<K, N, BHash<K>, std::equal_to<K>>;
    assoc<C>(c, [](const C& x) { return fc::FixedUnorderedSetRawView(&x, sizeof(K), alignof(K), N); }, ptr_of);
}
template <class K, class V, std::size_t N>
void umap_test(Ctx& c)
{
    using C = fc::FixedUnorderedMap<K, V, N, BHash<K>, std::equal_to<K>>;
    assoc<C>(c, [](const C& x) { return fc::FixedUnorderedMapRawView(&x, sizeof(K), alignof(K), sizeof(V), alignof(V), N); }, entry_of);
}

constexpr auto EMB = Compact::EMBEDDED_COLOR;
constexpr auto DED = Compact::DEDICATED_COLOR;
using B1 = Blob<1, 1>;
using B2 = Blob<2, 2>;
using B3 = Blob<3, 1>;
using B4 = Blob<4, 4>;
using B6 = Blob<6, 2>;
using B7 = Blob<7, 1>;
using B8 = Blob<8, 8>;
using B9 = Blob<9, 1>;
using B10 = Blob<10, 2>;
using B12 = Blob<12, 4>;
using B13 = Blob<13, 1>;
using B16a = Blob<16, 16>;
using B20 = Blob<20, 4>;
using B24 = Blob<24, 8>;
using B33 = Blob<33, 1>;
using B64a = Blob<64, 64>;
using B96a = Blob<96, 32>;

#define S_(KIND, T, N) REGISTER("view of " #KIND " " #T " x" #N, (seq<KIND, T, N>), 1)
#define SET_(T, N, CC, G) REGISTER("view of set " #T " x" #N " " #CC " " #G, (set_test<T, N, CC, G>), 1)
#define MAP_(K, V, N, CC, G) REGISTER("view of map " #K "," #V " x" #N " " #CC " " #G, (map_test<K, V, N, CC, G>), 1)
#define US_(T, N) REGISTER("view of unordered set " #T " x" #N, (uset_test<T, N>), 1)
#define UM_(K, V, N) REGISTER("view of unordered map " #K "," #V " x" #N, (umap_test<K, V, N>), 1)
#if PART == 0
S_(LIST, B1, 1); S_(LIST, B1, 3); S_(LIST, B1, 20); S_(LIST, B2, 7); S_(LIST, B3, 5); S_(LIST, B4, 2); S_(LIST, B4, 9); S_(LIST, B6, 4); S_(LIST, B7, 6);
S_(LIST, B8, 1); S_(LIST, B8, 8); S_(LIST, B9, 5); S_(LIST, B10, 3); S_(LIST, B12, 4); S_(LIST, B12, 11);
#elif PART == 1
S_(LIST, B13, 3); S_(LIST, B13, 8); S_(LIST, B16a, 1); S_(LIST, B16a, 5); S_(LIST, B16a, 8); S_(LIST, B20, 3); S_(LIST, B20, 6); S_(LIST, B24, 3);
S_(LIST, B33, 4); S_(LIST, B64a, 3); S_(LIST, B64a, 10); S_(LIST, B96a, 2); S_(LIST, B96a, 7); S_(LIST, Padded, 6); S_(LIST, Heavy, 7);
#elif PART == 2
S_(DEQUE, B1, 1); S_(DEQUE, B1, 3); S_(DEQUE, B1, 20); S_(DEQUE, B2, 7); S_(DEQUE, B3, 5); S_(DEQUE, B4, 2); S_(DEQUE, B4, 9); S_(DEQUE, B6, 4); S_(DEQUE, B7, 6);
S_(DEQUE, B8, 1); S_(DEQUE, B8, 8); S_(DEQUE, B9, 5); S_(DEQUE, B10, 3); S_(DEQUE, B12, 4); S_(DEQUE, B12, 11); S_(DEQUE, B13, 3); S_(DEQUE, B16a, 1);
S_(DEQUE, B16a, 5); S_(DEQUE, B20, 3); S_(DEQUE, B64a, 3); S_(DEQUE, B96a, 7); S_(DEQUE, Padded, 6); S_(DEQUE, Heavy, 7);
S_(CDEQUE, B1, 3); S_(CDEQUE, B3, 5); S_(CDEQUE, B12, 1); S_(CDEQUE, B12, 6); S_(CDEQUE, B16a, 4); S_(CDEQUE, Heavy, 5);
#elif PART == 3
SET_(B1, 1, EMB, false); SET_(B1, 20, EMB, false); SET_(B1, 7, DED, false); SET_(B1, 7, EMB, true); SET_(B1, 7, DED, true);
SET_(B3, 9, EMB, false); SET_(B3, 9, DED, true); SET_(B4, 30, EMB, true); SET_(B4, 13, DED, false); SET_(B8, 12, EMB, false); SET_(B8, 12, DED, true);
SET_(B9, 8, EMB, false); SET_(B9, 8, DED, false); SET_(B12, 10, EMB, true); SET_(B12, 10, DED, false); SET_(B13, 10, DED, true);
SET_(B24, 9, EMB, false); SET_(B24, 9, DED, true); SET_(B33, 9, EMB, true); SET_(B33, 9, DED, false); SET_(Heavy, 11, EMB, false); SET_(Heavy, 11, DED, true);
SET_(Padded, 60, EMB, false); SET_(Padded, 60, DED, true);
#elif PART == 4
MAP_(B1, B1, 1, EMB, false); MAP_(B1, B1, 9, DED, false); MAP_(B1, B8, 9, EMB, false); MAP_(B8, B1, 9, EMB, false); MAP_(B8, B1, 9, DED, true);
MAP_(B1, B8, 9, DED, true); MAP_(B4, B12, 11, EMB, true); MAP_(B12, B4, 11, DED, false); MAP_(B3, B2, 11, EMB, false); MAP_(B2, B3, 11, EMB, true);
MAP_(B3, B4, 7, DED, false); MAP_(B9, B8, 10, EMB, false); MAP_(B9, B2, 10, DED, true); MAP_(Padded, B1, 30, EMB, false);
#elif PART == 5
MAP_(B13, B24, 9, EMB, true); MAP_(B24, B13, 9, DED, false); MAP_(B4, B4, 50, EMB, false); MAP_(B4, B4, 50, DED, true); MAP_(Heavy, B1, 10, EMB, false);
MAP_(B1, Heavy, 10, DED, true); MAP_(Heavy, Heavy, 10, EMB, true); MAP_(B33, B6, 10, EMB, false); MAP_(B6, B33, 10, DED, false); MAP_(B1, B10, 12, EMB, false);
MAP_(B10, B1, 12, DED, true); MAP_(B20, B7, 12, EMB, false); MAP_(B7, B20, 12, EMB, true);
#elif PART == 6
US_(B1, 1); US_(B1, 20); US_(B2, 7); US_(B3, 9); US_(B4, 12); US_(B8, 5); US_(B9, 9); US_(B10, 6); US_(B12, 9); US_(B13, 4); US_(B16a, 6); US_(B20, 7);
US_(B24, 7); US_(B33, 8); US_(B64a, 6); US_(B96a, 5); US_(Padded, 40); US_(Heavy, 12);
#else
UM_(B1, B1, 1); UM_(B1, B1, 20); UM_(B1, B8, 7); UM_(B8, B1, 7); UM_(B4, B8, 9); UM_(B4, B4, 9); UM_(B2, B1, 9); UM_(B3, B2, 9); UM_(B4, B12, 8);
UM_(B12, B4, 8); UM_(B1, B12, 8); UM_(B4, B10, 8); UM_(B9, B9, 8); UM_(B3, B9, 5); UM_(B16a, B1, 6); UM_(B1, B16a, 6); UM_(B24, B3, 6); UM_(B3, B24, 6);
UM_(B64a, B4, 4); UM_(B4, B64a, 4); UM_(Heavy, B1, 9); UM_(B4, Heavy, 9); UM_(Heavy, Heavy, 9); UM_(Padded, Padded, 30); UM_(B20, B12, 7);
#endif
