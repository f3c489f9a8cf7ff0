// C22: comparisons depend only on contents. -DPART=0..5
#include "../modes.hpp"
#include "configs.hpp"

#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <algorithm>
#include <map>
#include <set>
#include <vector>

namespace fc = fixed_containers;
using pbt::Ctx;

// compares by v only; the rest of its bytes is noise
struct Fuzzy
{
    char v = 0;
    int noise = 0;
    friend bool operator==(const Fuzzy& a, const Fuzzy& b) { return a.v == b.v; }
    friend std::strong_ordering operator<=>(const Fuzzy& a, const Fuzzy& b) { return a.v <=> b.v; }
};
template <class T>
T mk(Ctx& c, int k)
{
    if constexpr (std::is_same_v<T, double>) return k == 3 ? (c.chance(1, 2) ? 0.0 : -0.0) : (k - 3) * 1.5;
    else if constexpr (std::is_same_v<T, Fuzzy>) return Fuzzy{static_cast<char>(k), static_cast<int>(c.below(1000))};
    else if constexpr (std::is_same_v<T, char>) return static_cast<char>("a\0bc~\x80\xff"[k % 7]);
    else if constexpr (std::is_same_v<T, signed char>) return static_cast<signed char>(k - 3);
    else return T(k);
}
inline std::string show(const std::vector<int>& v)
{
    std::string s = "[";
    for (int k : v) s += std::to_string(k) + " ";
    return s + "]";
}
// the order of the generated keys under mk
template <class T>
int rank_of(int k)
{
    if constexpr (std::is_same_v<T, char>)
    {
        // std::string order: as unsigned char
        return static_cast<unsigned char>("a\0bc~\x80\xff"[k % 7]);
    }
    else return k;
}
template <class T>
int three_way(const std::vector<int>& a, const std::vector<int>& b)
{
    for (std::size_t i = 0; i < a.size() && i < b.size(); i++)
    {
        const int x = rank_of<T>(a[i]), y = rank_of<T>(b[i]);
        if (x != y) return x < y ? -1 : 1;
    }
    return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
template <class O>
int sgn(O o)
{
    return o < 0 ? -1 : o > 0 ? 1 : 0;
}
// two key sequences, often equal or nearly so
inline void two(Ctx& c, std::size_t na, std::size_t nb, std::vector<int>& a, std::vector<int>& b)
{
    const std::size_t n = c.edge(na);
    const int alpha = c.chance(1, 2) ? 2 : 7;
    for (std::size_t i = 0; i < n; i++) a.push_back(static_cast<int>(c.below(static_cast<unsigned>(alpha))));
    switch (c.below(5))
    {
    case 0: b = a; break;
    case 1:
        b = a;
        b.resize(c.edge(b.size()));
        break;
    case 2:
        b = a;
        if (!b.empty()) b[c.below(b.size())] = static_cast<int>(c.below(7));
        break;
    case 3:
        b = a;
        b.push_back(static_cast<int>(c.below(7)));
        break;
    default:
        for (std::size_t i = c.edge(nb); i > 0; i--) b.push_back(static_cast<int>(c.below(static_cast<unsigned>(alpha))));
        break;
    }
    if (b.size() > nb) b.resize(nb);
    if (a == b && !a.empty()) c.label("equal, not empty");
    else if (!a.empty() && !b.empty() && a[0] == b[0]) c.label("unequal, common prefix");
}

template <class X, class Y>
void judge_eq(Ctx& c, const X& x, const Y& y, bool want, const char* what)
{
    CHECK(c, (x == y) == want, "%s: == is %d, expected %d", what, x == y, want);
    CHECK(c, (y == x) == want, "%s: == (swapped) is %d, expected %d", what, y == x, want);
    CHECK(c, (x != y) == !want, "%s: != is %d, expected %d", what, x != y, !want);
    CHECK(c, (y != x) == !want, "%s: != (swapped) is %d, expected %d", what, y != x, !want);
}
template <class X, class Y>
void judge_order(Ctx& c, const X& x, const Y& y, int w, const char* what)
{
    CHECK(c, sgn(x <=> y) == w, "%s: <=> is %d, expected %d", what, sgn(x <=> y), w);
    CHECK(c, sgn(y <=> x) == -w, "%s: <=> (swapped) is %d, expected %d", what, sgn(y <=> x), -w);
    CHECK(c, (x < y) == (w < 0) && (y > x) == (w < 0), "%s: < is %d, > (swapped) is %d, expected %d", what, x < y, y > x, w < 0);
    CHECK(c, (x > y) == (w > 0) && (y < x) == (w > 0), "%s: > is %d, < (swapped) is %d, expected %d", what, x > y, y < x, w > 0);
    CHECK(c, (x <= y) == (w <= 0) && (y >= x) == (w <= 0), "%s: <= is %d, >= (swapped) is %d, expected %d", what, x <= y, y >= x, w <= 0);
    CHECK(c, (x >= y) == (w >= 0) && (y <= x) == (w >= 0), "%s: >= is %d, <= (swapped) is %d, expected %d", what, x >= y, y <= x, w >= 0);
}

// Reach the contents by a random history
template <class C, class T>
void reach_seq(Ctx& c, C& x, const std::vector<int>& want, std::size_t cap)
{
    constexpr bool FRONT = requires { x.pop_front(); };
    auto at = [&](std::size_t i) { return std::next(x.cbegin(), static_cast<std::ptrdiff_t>(i)); };
    // a random earlier life
    for (std::size_t i = c.below(2 * cap + 2); i > 0; i--)
    {
        if (x.size() < cap && c.chance(2, 3)) x.push_back(mk<T>(c, static_cast<int>(c.below(7))));
        else if (x.size() > 0)
        {
            if constexpr (FRONT)
            {
                if (c.chance(2, 3)) x.pop_front();
                else x.pop_back();
            }
            else x.erase(at(c.below(x.size())));
        }
    }
    if (c.chance(1, 2)) x.clear();
    else
    {
        while (x.size() > 0) x.erase(at(c.below(x.size())));
    }
    // the elements in a random order of insertion, with passing guests
    std::vector<std::size_t> order;
    for (std::size_t i = 0; i < want.size(); i++) order.push_back(i);
    for (std::size_t i = want.size(); i > 1; i--) std::swap(order[i - 1], order[c.below(i)]);
    if (c.chance(1, 2)) std::sort(order.begin(), order.end());
    std::vector<bool> in(want.size(), false);
    for (std::size_t k : order)
    {
        const auto p = static_cast<std::size_t>(std::count(in.begin(), in.begin() + static_cast<std::ptrdiff_t>(k), true));
        if (x.size() + 1 < cap && c.chance(1, 6))
        {
            const std::size_t g = c.below(x.size() + 1);
            x.insert(at(g), mk<T>(c, static_cast<int>(c.below(7))));
            x.erase(at(g));
        }
        if (p == x.size() && c.chance(1, 2)) x.push_back(mk<T>(c, want[k]));
        else x.insert(at(p), mk<T>(c, want[k]));
        in[k] = true;
    }
}
template <template <class, std::size_t> class X, class T, std::size_t N1, std::size_t N2>
void seq_test(Ctx& c)
{
    el::Registry::reset();
    std::vector<int> a, b;
    two(c, N1, N2, a, b);
    NOTE(c, "a = %s (capacity %zu), b = %s (capacity %zu)", show(a).c_str(), N1, show(b).c_str(), N2);
    mode::Block<X<T, N1>> ma(c);
    mode::Block<X<T, N2>> mb(c);
    auto& x = *new (ma.mem) X<T, N1>();
    auto& y = *new (mb.mem) X<T, N2>();
    reach_seq<X<T, N1>, T>(c, x, a, N1);
    reach_seq<X<T, N2>, T>(c, y, b, N2);
    c.ops(12);
    if (a.size() + b.size() > 1) c.nontrivial();
    judge_eq(c, x, y, a == b, "a, b");
    judge_order(c, x, y, three_way<T>(a, b), "a, b");
    judge_eq(c, x, x, true, "a, a");
    judge_order(c, x, x, 0, "a, a");
    if (a.size() <= N2)
    {
        mode::Block<X<T, N2>> m2(c);
        auto& z = *new (m2.mem) X<T, N2>();
        reach_seq<X<T, N2>, T>(c, z, a, N2);
        judge_eq(c, x, z, true, "the same contents twice");
        judge_order(c, x, z, 0, "the same contents twice");
        judge_eq(c, y, z, a == b, "same type");
        judge_order(c, y, z, three_way<T>(b, a), "same type");
        z.~X<T, N2>();
    }
    x.~X<T, N1>();
    y.~X<T, N2>();
}
template <std::size_t N1, std::size_t N2>
void str_test(Ctx& c)
{
    std::vector<int> a, b;
    two(c, N1, N2, a, b);
    NOTE(c, "a = %s (capacity %zu), b = %s (capacity %zu)", show(a).c_str(), N1, show(b).c_str(), N2);
    mode::Block<fc::FixedString<N1>> ma(c);
    mode::Block<fc::FixedString<N2>> mb(c);
    auto& x = *new (ma.mem) fc::FixedString<N1>();
    auto& y = *new (mb.mem) fc::FixedString<N2>();
    reach_seq<fc::FixedString<N1>, char>(c, x, a, N1);
    reach_seq<fc::FixedString<N2>, char>(c, y, b, N2);
    std::string sa, sb;
    for (int k : a) sa += mk<char>(c, k);
    for (int k : b) sb += mk<char>(c, k);
    c.ops(12);
    if (a.size() + b.size() > 1) c.nontrivial();
    const int w = sgn(sa <=> sb);
    judge_eq(c, x, y, sa == sb, "strings");
    judge_order(c, x, y, w, "strings");
    judge_eq(c, x, x, true, "a, a");
    judge_eq(c, x, std::string_view(sb), sa == sb, "string and string_view");
    judge_order(c, x, std::string_view(sb), w, "string and string_view");
    CHECK(c, sgn(x.compare(y)) == w, "compare is %d, expected %d", sgn(x.compare(y)), w);
    if (sb.find('\0') == std::string::npos)
    {
        judge_eq(c, x, sb.c_str(), sa == sb, "string and const char*");
        judge_order(c, x, sb.c_str(), w, "string and const char*");
    }
}
template <template <class, std::size_t> class X, bool QUEUE, std::size_t N1, std::size_t N2>
void adp_test(Ctx& c)
{
    std::vector<int> a, b;
    two(c, N1, N2, a, b);
    NOTE(c, "a = %s (capacity %zu), b = %s (capacity %zu)", show(a).c_str(), N1, show(b).c_str(), N2);
    mode::Block<X<int, N1>> ma(c);
    mode::Block<X<int, N2>> mb(c);
    auto& x = *new (ma.mem) X<int, N1>();
    auto& y = *new (mb.mem) X<int, N2>();
    auto fill = [&](auto& z, const std::vector<int>& v, std::size_t cap)
    {
        for (std::size_t i = c.below(2 * cap + 1); i > 0; i--)
        {
            if (z.size() < cap && c.chance(2, 3)) z.push(static_cast<int>(c.below(7)));
            else if (z.size() > 0) z.pop();
        }
        while (z.size() > 0) z.pop();
        for (int k : v) z.push(k);
    };
    fill(x, a, N1);
    fill(y, b, N2);
    c.ops(12);
    if (a.size() + b.size() > 1) c.nontrivial();
    judge_eq(c, x, y, a == b, "a, b");
    judge_order(c, x, y, three_way<int>(a, b), "a, b");
}

// ---- associative: contents are a set of keys (0..9) with values
template <class C, class K, class V>
void reach_assoc(Ctx& c, C& x, const std::map<int, int>& want, std::size_t cap, int universe)
{
    auto add = [&](int k, int v)
    {
        if constexpr (std::is_void_v<V>) x.insert(static_cast<K>(k));
        else x.insert_or_assign(static_cast<K>(k), mk<V>(c, v));
    };
    for (std::size_t i = c.below(2 * cap + 2); i > 0; i--)
    {
        const int k = static_cast<int>(c.below(static_cast<unsigned>(universe)));
        if (c.chance(1, 2) && (x.size() < cap || x.contains(static_cast<K>(k)))) add(k, static_cast<int>(c.below(7)));
        else x.erase(static_cast<K>(k));
    }
    std::vector<int> order;
    for (auto& [k, v] : want) order.push_back(k);
    for (std::size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.below(i)]);
    if (c.chance(1, 3)) x.clear();
    else
    {
        for (int k = 0; k < universe; k++)
        {
            if (want.count(k) == 0) x.erase(static_cast<K>(k));
        }
    }
    for (int k : order)
    {
        const int g = static_cast<int>(c.below(static_cast<unsigned>(universe)));
        if (want.count(g) == 0 && x.size() + 1 < cap && c.chance(1, 4))
        {
            add(g, 1);
            x.erase(static_cast<K>(g));
        }
        add(k, want.at(k));
    }
}
template <class C1, class C2, class K, class V, bool ORDERED>
void assoc_test(Ctx& c, std::size_t n1, std::size_t n2, int universe)
{
    el::Registry::reset();
    std::map<int, int> a, b;
    for (std::size_t i = c.edge(n1); i > 0; i--) a[static_cast<int>(c.below(static_cast<unsigned>(universe)))] = static_cast<int>(c.below(3));
    switch (c.below(4))
    {
    case 0: b = a; break;
    case 1:
        b = a;
        if (!b.empty()) std::next(b.begin(), static_cast<std::ptrdiff_t>(c.below(b.size())))->second = static_cast<int>(c.below(3));
        break;
    case 2:
        b = a;
        if (!b.empty()) b.erase(std::next(b.begin(), static_cast<std::ptrdiff_t>(c.below(b.size()))));
        if (c.chance(1, 2)) b[static_cast<int>(c.below(static_cast<unsigned>(universe)))] = 0;
        break;
    default:
        for (std::size_t i = c.edge(n2); i > 0; i--) b[static_cast<int>(c.below(static_cast<unsigned>(universe)))] = static_cast<int>(c.below(3));
        break;
    }
    while (b.size() > n2) b.erase(b.begin());
    std::vector<int> ka, kb;
    for (auto& [k, v] : a) ka.push_back(k);
    for (auto& [k, v] : b) kb.push_back(k);
    if (a == b && !a.empty()) c.label("equal, not empty");
    NOTE(c, "keys a = %s, b = %s", show(ka).c_str(), show(kb).c_str());
    mode::Block<C1> ma(c);
    mode::Block<C2> mb(c);
    auto& x = *new (ma.mem) C1();
    auto& y = *new (mb.mem) C2();
    reach_assoc<C1, K, V>(c, x, a, n1, universe);
    reach_assoc<C2, K, V>(c, y, b, n2, universe);
    c.ops(12);
    if (a.size() + b.size() > 1) c.nontrivial();
    const bool want = std::is_void_v<V> ? ka == kb : a == b;
    judge_eq(c, x, y, want, "a, b");
    judge_eq(c, x, x, true, "a, a");
    if constexpr (ORDERED)
    {
        judge_order(c, x, y, three_way<int>(ka, kb), "a, b");
        judge_order(c, x, x, 0, "a, a");
    }
    x.~C1();
    y.~C2();
}
using fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
inline constexpr auto EMB = RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
inline constexpr auto DED = RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
template <class T, std::size_t N>
using Pool = fc::FixedIndexBasedPoolStorage<T, N>;
template <class T, std::size_t N>
using Contig = fc::FixedIndexBasedContiguousStorage<T, N>;
template <class K>
struct BadHash
{
    std::uint64_t operator()(const K& k) const { return static_cast<std::uint64_t>(k % 2) << 8; }
};
template <class T, std::size_t N>
using Vec = fc::FixedVector<T, N>;
template <class T, std::size_t N>
using Deq = fc::FixedDeque<T, N>;
template <class T, std::size_t N>
using Cir = fc::FixedCircularDeque<T, N>;
template <class T, std::size_t N>
using Lst = fc::FixedList<T, N>;
template <class T, std::size_t N>
using Stk = fc::FixedStack<T, N>;
template <class T, std::size_t N>
using Que = fc::FixedQueue<T, N>;
template <class T, std::size_t N>
using CQu = fc::FixedCircularQueue<T, N>;
enum class Eight { A, B, C, D, E, F, G, H };
#define SEQ(X, T, N1, N2) REGISTER(#X "<" #T "," #N1 "/" #N2 ">", (seq_test<X, T, N1, N2>), 1)
#define ASSOC(NAME, C1, C2, K, V, ORD, N1, N2, U) \
    REGISTER(NAME, (+[](Ctx& c) { assoc_test<C1, C2, K, V, ORD>(c, N1, N2, U); }), 1)
#define A_(...) __VA_ARGS__
template <class V, std::size_t N>
using M1 = fc::FixedMap<int, V, N>;
template <class V, std::size_t N>
using M2 = fc::FixedMap<int, V, N, std::less<>, DED, Contig>;
template <std::size_t N>
using S1 = fc::FixedSet<int, N>;
template <std::size_t N>
using S2 = fc::FixedSet<int, N, std::less<>, DED, Contig>;
template <class V, std::size_t N>
using U1 = fc::FixedUnorderedMap<int, V, N>;
template <class V, std::size_t N>
using U2 = fc::FixedUnorderedMap<int, V, N, BadHash<int>, std::equal_to<int>, 16>;
template <std::size_t N>
using T1 = fc::FixedUnorderedSet<int, N>;
template <std::size_t N>
using T2 = fc::FixedUnorderedSet<int, N, BadHash<int>, std::equal_to<int>, 16>;

#if PART == 0
SEQ(Vec, int, 6, 9);
SEQ(Vec, Fuzzy, 5, 5);
SEQ(Vec, double, 4, 7);
SEQ(Vec, Trk, 4, 6);
REGISTER("string<7/7>", (str_test<7, 7>), 1);
REGISTER("string<5/20>", (str_test<5, 20>), 1);
#elif PART == 1
SEQ(Deq, int, 6, 9);
SEQ(Deq, Fuzzy, 5, 5);
SEQ(Deq, Trk, 4, 6);
#elif PART == 2
SEQ(Cir, int, 6, 9);
SEQ(Cir, Fuzzy, 5, 5);
SEQ(Cir, double, 4, 4);
#elif PART == 3
SEQ(Lst, int, 6, 9);
SEQ(Lst, Fuzzy, 5, 5);
SEQ(Lst, Trk, 4, 6);
REGISTER("stack<5/8>", (adp_test<Stk, false, 5, 8>), 0.5);
REGISTER("queue<5/8>", (adp_test<Que, true, 5, 8>), 0.5);
REGISTER("cqueue<6/6>", (adp_test<CQu, true, 6, 6>), 0.5);
#elif PART == 4
ASSOC("map<int>", A_(M1<int, 6>), A_(M1<int, 9>), int, int, false, 6, 9, 8);
ASSOC("map<Fuzzy> same type", A_(M1<Fuzzy, 7>), A_(M1<Fuzzy, 7>), int, Fuzzy, false, 7, 7, 8);
ASSOC("map<int> two layouts", A_(M1<int, 6>), A_(M2<int, 6>), int, int, false, 6, 6, 8);
ASSOC("map<Trk> contiguous", A_(M2<Trk, 5>), A_(M2<Trk, 8>), int, Trk, false, 5, 8, 8);
ASSOC("set", S1<6>, S1<9>, int, void, true, 6, 9, 8);
ASSOC("set same type", S1<7>, S1<7>, int, void, true, 7, 7, 8);
ASSOC("set two layouts", S1<6>, S2<6>, int, void, true, 6, 6, 8);
#else
ASSOC("umap", A_(U1<int, 6>), A_(U1<int, 9>), int, int, false, 6, 9, 8);
ASSOC("umap two hashes", A_(U1<Fuzzy, 6>), A_(U2<Fuzzy, 6>), int, Fuzzy, false, 6, 6, 8);
ASSOC("umap same type", A_(U2<Trk, 7>), A_(U2<Trk, 7>), int, Trk, false, 7, 7, 8);
ASSOC("uset", T1<6>, T1<9>, int, void, false, 6, 9, 8);
ASSOC("uset two hashes", T1<7>, T2<7>, int, void, false, 7, 7, 8);
ASSOC("enum_map", A_(fc::EnumMap<Eight, int>), A_(fc::EnumMap<Eight, int>), Eight, int, false, 8, 8, 8);
ASSOC("enum_map Fuzzy", A_(fc::EnumMap<Eight, Fuzzy>), A_(fc::EnumMap<Eight, Fuzzy>), Eight, Fuzzy, false, 8, 8, 8);
ASSOC("enum_map Trk", A_(fc::EnumMap<Eight, Trk>), A_(fc::EnumMap<Eight, Trk>), Eight, Trk, false, 8, 8, 8);
ASSOC("enum_set", fc::EnumSet<Eight>, fc::EnumSet<Eight>, Eight, void, true, 8, 8, 8);
static void enum_array(Ctx& c)
{
    fc::EnumArray<Eight, Fuzzy> x{}, y{};
    std::vector<int> a, b;
    two(c, 8, 8, a, b);
    a.resize(8);
    b.resize(8);
    for (int i = 0; i < 8; i++)
    {
        x.at(static_cast<Eight>(i)) = mk<Fuzzy>(c, a[static_cast<std::size_t>(i)]);
        y.at(static_cast<Eight>(i)) = mk<Fuzzy>(c, b[static_cast<std::size_t>(i)]);
    }
    c.nontrivial();
    judge_eq(c, x, y, a == b, "enum_array");
    judge_order(c, x, y, three_way<int>(a, b), "enum_array");
}
REGISTER("enum_array", enum_array, 0.5);
#endif
