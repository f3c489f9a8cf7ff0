// C19: what each container's special members are for a given element type, and that it stays usable with it.
#pragma once
#include "fixed_containers/concepts.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <vector>

namespace tr
{
namespace fc = fixed_containers;
inline long copies = 0, moves = 0, copy_assigns = 0;
constexpr void note(long& n)
{
    if (!std::is_constant_evaluated()) n++;
}
inline int current = 0, failed = 0;
inline unsigned long long evaluations = 0;
inline void expect(bool ok, const char* container, const char* what)
{
    evaluations++;
    if (ok) return;
    failed++;
    if (failed < 40) std::printf("FAIL %d %s: %s\n", current, container, what);
}
struct Hash
{
    template <class T>
    constexpr std::uint64_t operator()(const T& t) const { return static_cast<std::uint64_t>(t.v); }
};
enum class Col { RED, GREEN, BLUE };

template <class T, class C>
void traits(const char* n)
{
    constexpr bool TC = std::is_trivially_copyable_v<T>;
    constexpr bool CC = std::is_copy_constructible_v<T>, MC = std::is_move_constructible_v<T>, CA = std::is_copy_assignable_v<T>, MA = std::is_move_assignable_v<T>;
    // retained
    if (TC && CC && MC)
    {
        expect(std::is_trivially_copyable_v<C>, n, "trivially copyable like its elements");
        expect(std::is_trivially_copy_constructible_v<C>, n, "trivially copy constructible like its elements");
    }
    if (TC && MC)
    {
        expect(std::is_trivially_copyable_v<C>, n, "trivially copyable like its (move-only) elements");
        expect(std::is_trivially_move_constructible_v<C>, n, "trivially move constructible like its elements");
        expect(std::is_trivially_destructible_v<C>, n, "trivially destructible like its elements");
        expect(std::is_copy_constructible_v<C> == CC, n, "copy constructible exactly if its trivially copyable elements are");
        expect(std::is_copy_assignable_v<C> == CA, n, "copy assignable exactly if its trivially copyable elements are");
        expect(std::is_move_assignable_v<C> == (MA || CA), n, "move assignable exactly if its trivially copyable elements are");
    }
    if (std::is_trivially_copy_assignable_v<T> && MC) expect(std::is_trivially_copy_assignable_v<C>, n, "trivially copy assignable like its elements");
    if (std::is_trivially_move_assignable_v<T> && MC) expect(std::is_trivially_move_assignable_v<C>, n, "trivially move assignable like its elements");
    if (CC) expect(std::is_copy_constructible_v<C>, n, "copy constructible like its elements");
    if (MC) expect(std::is_move_constructible_v<C>, n, "move constructible like its elements");
    if (CC && CA) expect(std::is_copy_assignable_v<C>, n, "copy assignable like its elements");
    if (MC && MA) expect(std::is_move_assignable_v<C>, n, "move assignable like its elements");
    if (std::is_standard_layout_v<T>) expect(std::is_standard_layout_v<C>, n, "standard layout like its elements");
    expect(std::is_default_constructible_v<C>, n, "default constructible");
    expect(std::is_nothrow_move_constructible_v<C> || !MC || !std::is_nothrow_move_constructible_v<T>, n, "nothrow move constructible");
    expect(std::is_destructible_v<C>, n, "destructible");
    // not invented: bytes of such elements must not be copied
    if (MC)
    {
        expect(TC || !std::is_trivially_copyable_v<C>, n, "not trivially copyable, as its elements are not");
        expect(std::is_trivially_copy_constructible_v<T> || !std::is_trivially_copy_constructible_v<C>, n, "not trivially copy constructible, as its elements are not");
        expect(std::is_trivially_move_constructible_v<T> || !std::is_trivially_move_constructible_v<C>, n, "not trivially move constructible, as its elements are not");
        expect(std::is_trivially_destructible_v<T> || !std::is_trivially_destructible_v<C>, n, "not trivially destructible, as its elements are not");
        if constexpr (MA)
        {
            expect(std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<C>, n, "not trivially copy assignable, as its elements are not");
            expect(std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<C>, n, "not trivially move assignable, as its elements are not");
        }
    }
}
template <class C, class... V>
bool holds(const C& c, V... v)
{
    std::vector<int> want{v...}, got;
    for (const auto& x : c) got.push_back(x.v);
    return got == want && c.size() == want.size();
}
// whole-container assignment of elements whose assignment alone is trivial is a plain copy of the bytes; leave that to the type's author
template <class T>
inline constexpr bool PLAIN = std::is_trivially_copyable_v<T> || !(std::is_trivially_copy_assignable_v<T> || std::is_trivially_move_assignable_v<T>);

// COUNTED: copies are counted and a move constructor exists, so an operation that takes rvalues must not copy; ASSIGNED: same for assignment
template <class T, class S, bool COUNTED, bool ASSIGNED, bool LIST>
void sequence(const char* n)
{
    constexpr bool CC = std::is_copy_constructible_v<T>, MC = std::is_move_constructible_v<T>, CA = std::is_copy_assignable_v<T>, MA = std::is_move_assignable_v<T>;
    const long c0 = copies, a0 = copy_assigns;
    S s;
    expect(s.emplace_back(1).v == 1, n, "emplace_back");
    s.emplace_back(2);
    s.emplace_back(9);
    s.pop_back();
    expect(holds(s, 1, 2), n, "emplace_back and pop_back");
    if constexpr (LIST)
    {
        s.emplace(s.cbegin(), 0);
        s.emplace(std::next(s.cbegin(), 2), 5);
        expect(holds(s, 0, 1, 5, 2), n, "emplace in a list");
        s.erase(std::next(s.cbegin(), 2));
        s.erase(s.cbegin());
        s.emplace_front(7);
        s.pop_front();
        expect(holds(s, 1, 2), n, "erase from a list");
    }
    if constexpr (MC)
    {
        s.push_back(T(3));
        T x(4);
        s.push_back(std::move(x));
        expect(holds(s, 1, 2, 3, 4), n, "push_back of an rvalue");
        if constexpr (MA || LIST)
        {
            s.insert(s.cbegin(), T(5));
            s.insert(std::next(s.cbegin(), 2), T(6));
            expect(holds(s, 5, 1, 6, 2, 3, 4), n, "insert of an rvalue");
            s.erase(std::next(s.cbegin()));
            s.erase(s.cbegin(), std::next(s.cbegin(), 2));
            expect(holds(s, 2, 3, 4), n, "erase");
            s.emplace(std::next(s.cbegin()), 8);
            expect(holds(s, 2, 8, 3, 4), n, "emplace");
            s.erase(std::next(s.cbegin()));
            s.emplace(s.cbegin(), 1);
            expect(holds(s, 1, 2, 3, 4), n, "emplace at the front");
        }
        if constexpr (std::is_default_constructible_v<T>)
        {
            s.resize(5);
            expect(s.size() == 5 && s.back().v == T().v, n, "resize");
            s.resize(4);
        }
        S t(std::move(s));
        expect(holds(t, 1, 2, 3, 4), n, "move construction");
        if constexpr (PLAIN<T> && MA)
        {
            S u;
            u.emplace_back(7);
            u = std::move(t);
            expect(holds(u, 1, 2, 3, 4), n, "move assignment");
            S w;
            w.emplace_back(5);
            using std::swap;
            swap(u, w);
            expect(holds(u, 5) && holds(w, 1, 2, 3, 4), n, "swap");
            t = S{};
            t = std::move(w);
            expect(holds(t, 1, 2, 3, 4), n, "move assignment");
        }
        if constexpr (COUNTED) expect(copies == c0, n, "no copy of an element when values are moved in, shifted or moved with the container");
        if constexpr (ASSIGNED) expect(copy_assigns == a0, n, "no copy assignment of an element when values are moved in, shifted or moved with the container");
        if constexpr (CC)
        {
            const long before = copies;
            const S k(t);
            expect(holds(k, 1, 2, 3, 4) && holds(t, 1, 2, 3, 4), n, "copy construction");
            if constexpr (COUNTED) expect(copies == before + 4, n, "one copy for each element of a copied container");
            if constexpr (PLAIN<T> && CA)
            {
                S z;
                z.emplace_back(6);
                z = k;
                expect(holds(z, 1, 2, 3, 4) && holds(k, 1, 2, 3, 4), n, "copy assignment");
            }
            const T y(8);
            t.push_back(y);
            expect(holds(t, 1, 2, 3, 4, 8), n, "push_back of an lvalue");
        }
        t.clear();
        expect(t.empty(), n, "clear");
    }
    else
    {
        s.clear();
        expect(s.empty(), n, "clear");
    }
}
template <class T>
concept Assignable = std::is_move_assignable_v<T>;

template <class T, class M, bool COUNTED, bool ASSIGNED, class K>
void mapping(const char* n, K k0, K k1, K k2)
{
    constexpr bool CC = std::is_copy_constructible_v<T>, MC = std::is_move_constructible_v<T>, CA = std::is_copy_assignable_v<T>, MA = std::is_move_assignable_v<T>;
    const auto holds_ = [](const M& m, std::initializer_list<std::pair<K, int>> want) {
        if (m.size() != want.size()) return false;
        for (const auto& [k, v] : want)
            if (!m.contains(k) || m.at(k).v != v) return false;
        return true;
    };
    const long c0 = copies, a0 = copy_assigns;
    M m;
    expect(m.try_emplace(k0, 1).second, n, "try_emplace");
    expect(!m.try_emplace(k0, 9).second, n, "try_emplace of a present key");
    m.try_emplace(k1, 2);
    m.try_emplace(k2, 3);
    expect(holds_(m, {{k0, 1}, {k1, 2}, {k2, 3}}), n, "try_emplace");
    if constexpr (MC)
    {
        m.erase(k1);
        expect(holds_(m, {{k0, 1}, {k2, 3}}), n, "erase");
        m.emplace(k1, T(4));
        expect(holds_(m, {{k0, 1}, {k1, 4}, {k2, 3}}), n, "emplace");
        m.erase(m.find(k0));
        m.try_emplace(k0, T(6));
        expect(holds_(m, {{k0, 6}, {k1, 4}, {k2, 3}}), n, "erase and try_emplace");
        if constexpr (MA)
        {
            m.insert_or_assign(k1, T(5));
            m.erase(k2);
            m.insert_or_assign(k2, T(7));
            expect(holds_(m, {{k0, 6}, {k1, 5}, {k2, 7}}), n, "insert_or_assign");
            if constexpr (std::is_default_constructible_v<T>)
            {
                m.erase(k0);
                expect(m[k0].v == T().v, n, "operator[]");
                m[k0] = T(6);
            }
        }
        M t(std::move(m));
        expect(t.size() == 3 && t.at(k0).v == 6, n, "move construction");
        if constexpr (PLAIN<T> && MA)
        {
            M u;
            u.try_emplace(k1, 8);
            u = std::move(t);
            expect(holds_(u, {{k0, 6}, {k1, 5}, {k2, 7}}), n, "move assignment");
            M w(std::move(u));
            t = M{};
            t = std::move(w);
            expect(holds_(t, {{k0, 6}, {k1, 5}, {k2, 7}}), n, "move assignment");
        }
        if constexpr (COUNTED) expect(copies == c0, n, "no copy of a mapped value that is moved in or moved with the container");
        if constexpr (ASSIGNED) expect(copy_assigns == a0, n, "no copy assignment of a mapped value that is moved in or moved with the container");
        if constexpr (CC)
        {
            const long before = copies;
            const M k(t);
            expect(k.size() == 3 && t.size() == 3 && k.at(k0).v == 6, n, "copy construction");
            if constexpr (COUNTED) expect(copies == before + 3, n, "one copy for each mapped value of a copied container");
            if constexpr (PLAIN<T> && CA)
            {
                M z;
                z.try_emplace(k2, 1);
                z = k;
                expect(z.size() == 3 && z.at(k2).v == k.at(k2).v, n, "copy assignment");
            }
        }
        t.clear();
        expect(t.empty(), n, "clear");
    }
}
template <class T, class S, bool COUNTED>
void keyed(const char* n)
{
    constexpr bool CC = std::is_copy_constructible_v<T>, MC = std::is_move_constructible_v<T>;
    const auto has = [](const S& s, std::initializer_list<int> v) {
        if (s.size() != v.size()) return false;
        for (const int x : v)
            if (!s.contains(T(x)) || s.find(T(x))->v != x) return false;
        return true;
    };
    if constexpr (MC)
    {
        const long c0 = copies;
        S s;
        s.insert(T(1));
        s.emplace(2);
        s.insert(T(3));
        s.insert(T(2));
        s.erase(T(1));
        s.insert(T(4));
        expect(has(s, {2, 3, 4}), n, "insert, emplace and erase of a set");
        S t(std::move(s));
        expect(has(t, {2, 3, 4}), n, "move construction of a set");
        if constexpr (COUNTED) expect(copies == c0, n, "no copy of a key that is moved in or moved with the container");
        if constexpr (CC)
        {
            const S k(t);
            expect(has(k, {2, 3, 4}) && has(t, {2, 3, 4}), n, "copy construction of a set");
        }
        t.clear();
        expect(t.empty(), n, "clear");
    }
}
template <class T, class M, bool COUNTED>
void keymap(const char* n)
{
    if constexpr (std::is_move_constructible_v<T>)
    {
        const long c0 = copies;
        M m;
        m.try_emplace(T(1), 10);
        m.emplace(T(2), 20);
        m[T(3)] = 30;
        m.insert_or_assign(T(2), 21);
        m.erase(T(1));
        expect(m.size() == 2 && m.at(T(2)) == 21 && m.at(T(3)) == 30, n, "map with such keys");
        M t(std::move(m));
        expect(t.size() == 2 && t.at(T(2)) == 21, n, "move construction");
        if constexpr (COUNTED) expect(copies == c0, n, "no copy of a key that is moved in or moved with the container");
    }
}
template <class T>
inline constexpr auto EMBED = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
template <class T>
inline constexpr auto DEDIC = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;

// N: capacity for the trait checks; STRUCTURAL: T can be a template parameter
template <class T, std::size_t N, bool COUNTED, bool ASSIGNED, bool STRUCTURAL>
void all(int index)
{
    current = index;
    const int before = failed;
    using Vec = fc::FixedVector<T, N>;
    using Deq = fc::FixedDeque<T, N>;
    using Cir = fc::FixedCircularDeque<T, N>;
    using Lst = fc::FixedList<T, N>;
    using Stk = fc::FixedStack<T, N>;
    using Que = fc::FixedQueue<T, N>;
    using Cqu = fc::FixedCircularQueue<T, N>;
    using Map = fc::FixedMap<int, T, N>;
    using Mde = fc::FixedMap<int, T, N, std::less<int>, DEDIC<T>>;
    using Mco = fc::FixedMap<int, T, N, std::less<int>, EMBED<T>, fc::FixedIndexBasedContiguousStorage>;
    using Set = fc::FixedSet<T, N>;
    using Sco = fc::FixedSet<T, N, std::less<T>, DEDIC<T>, fc::FixedIndexBasedContiguousStorage>;
    using Kmp = fc::FixedMap<T, int, N>;
    using Ump = fc::FixedUnorderedMap<int, T, N>;
    using Ukm = fc::FixedUnorderedMap<T, int, N, Hash>;
    using Ust = fc::FixedUnorderedSet<T, N, Hash>;
    using Emp = fc::EnumMap<Col, T>;
    const auto each = [&]<class C>(std::type_identity<C>, const char* n) {
        traits<T, C>(n);
        if constexpr (STRUCTURAL && std::is_trivially_copyable_v<T>) expect(fc::IsStructuralType<C>, n, "usable as a template parameter like its elements");
        if constexpr (STRUCTURAL) expect(fc::ConstexprDefaultConstructible<C>, n, "default constructible in a constant expression");
    };
#define EACH(C, NAME) each(std::type_identity<C>{}, NAME)
    EACH(Vec, "FixedVector");
    EACH(Deq, "FixedDeque");
    EACH(Cir, "FixedCircularDeque");
    EACH(Lst, "FixedList");
    EACH(Stk, "FixedStack");
    EACH(Que, "FixedQueue");
    EACH(Cqu, "FixedCircularQueue");
    EACH(Map, "FixedMap");
    EACH(Mde, "FixedMap, dedicated color");
    if constexpr (std::is_move_constructible_v<T>) EACH(Mco, "FixedMap, contiguous storage");
    EACH(Set, "FixedSet");
    if constexpr (std::is_move_constructible_v<T>) EACH(Sco, "FixedSet, contiguous storage");
    EACH(Kmp, "FixedMap by such keys");
    EACH(Ump, "FixedUnorderedMap");
    EACH(Ukm, "FixedUnorderedMap by such keys");
    EACH(Ust, "FixedUnorderedSet");
    EACH(Emp, "EnumMap");
#undef EACH
    sequence<T, fc::FixedVector<T, 6>, COUNTED, ASSIGNED, false>("FixedVector");
    sequence<T, fc::FixedDeque<T, 6>, COUNTED, ASSIGNED, false>("FixedDeque");
    sequence<T, fc::FixedCircularDeque<T, 6>, COUNTED, ASSIGNED, false>("FixedCircularDeque");
    sequence<T, fc::FixedList<T, 6>, COUNTED, ASSIGNED, true>("FixedList");
    mapping<T, fc::FixedMap<int, T, 6>, COUNTED, ASSIGNED>("FixedMap", 10, 20, 30);
    // (contiguous storage relocates nodes, so it asks for movable values)
    if constexpr (std::is_move_constructible_v<T>)
        mapping<T, fc::FixedMap<int, T, 6, std::less<int>, DEDIC<T>, fc::FixedIndexBasedContiguousStorage>, COUNTED, ASSIGNED>("FixedMap, contiguous storage", 10, 20, 30);
    mapping<T, fc::FixedUnorderedMap<int, T, 6>, COUNTED, ASSIGNED>("FixedUnorderedMap", 10, 20, 30);
    mapping<T, fc::EnumMap<Col, T>, COUNTED, ASSIGNED>("EnumMap", Col::RED, Col::GREEN, Col::BLUE);
    keyed<T, fc::FixedSet<T, 6>, COUNTED>("FixedSet");
    keyed<T, fc::FixedSet<T, 6, std::less<T>, EMBED<T>, fc::FixedIndexBasedContiguousStorage>, COUNTED>("FixedSet, contiguous storage");
    keyed<T, fc::FixedUnorderedSet<T, 6, Hash>, COUNTED>("FixedUnorderedSet");
    keymap<T, fc::FixedMap<T, int, 6>, COUNTED>("FixedMap by such keys");
    keymap<T, fc::FixedUnorderedMap<T, int, 6, Hash>, COUNTED>("FixedUnorderedMap by such keys");
    (void)before;
}
}  // namespace tr
