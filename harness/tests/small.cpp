// C29: optional references, pairs and pair views, map entries, in/out wrappers, string literals, storage unions, relocation,
// entry visitors and type names against the objects they were built from. -DPART=0..3
#include "../elements.hpp"

#include "fixed_containers/algorithm.hpp"
#include "fixed_containers/arrow_proxy.hpp"
#include "fixed_containers/in_out.hpp"
#include "fixed_containers/map_entry.hpp"
#include "fixed_containers/memory.hpp"
#include "fixed_containers/optional_reference.hpp"
#include "fixed_containers/optional_storage.hpp"
#include "fixed_containers/out.hpp"
#include "fixed_containers/pair.hpp"
#include "fixed_containers/pair_view.hpp"
#include "fixed_containers/random_access_iterator_transformer.hpp"
#include "fixed_containers/string_literal.hpp"
#include "fixed_containers/tuples.hpp"
#include "fixed_containers/type_name.hpp"
#include "fixed_containers/variadic_templates.hpp"

#include <array>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>

namespace fc = fixed_containers;
using pbt::Ctx;
#define CK(...) do { c.ops(); if (!(__VA_ARGS__)) c.fail("line %d: %s", __LINE__, #__VA_ARGS__); } while (0)
namespace
{
// A type whose operator& lies; comparisons are weak (values are compared by v / 2)
struct Weird
{
    int v = 0;
    Weird() = default;
    explicit Weird(int k) : v(k) {}
    Weird* operator&() { std::abort(); }
    const Weird* operator&() const { std::abort(); }
    friend bool operator==(const Weird& a, const Weird& b) { return a.v / 2 == b.v / 2; }
    friend std::weak_ordering operator<=>(const Weird& a, const Weird& b) { return a.v / 2 <=> b.v / 2; }
};
template <class T>
T make(Ctx& c)
{
    if constexpr (std::is_same_v<T, std::string>) return std::string(c.below(40), static_cast<char>('a' + c.below(3)));
    else if constexpr (std::is_same_v<T, double>)
    {
        switch (c.below(8))
        {
        case 0: return -0.0;
        case 1: return std::numeric_limits<double>::quiet_NaN();
        case 2: return std::numeric_limits<double>::infinity();
        default: return static_cast<double>(c.below(4));
        }
    }
    else return T(static_cast<int>(c.below(6)));
}
template <class T>
bool identical(const T& a, const T& b) { return std::addressof(a) == std::addressof(b); }
template <class T, class A, class B>
void six(Ctx& c, const A& a, const B& b, const std::optional<T>& x, const std::optional<T>& y)
{
    CK((a == b) == (x == y));
    CK((a != b) == (x != y));
    CK((b == a) == (y == x));
    CK((a < b) == (x < y));
    CK((a <= b) == (x <= y));
    CK((a > b) == (x > y));
    CK((a >= b) == (x >= y));
    CK((b < a) == (y < x));
    CK((a <=> b) == (x <=> y));
}

#if PART == 0
template <class T>
void optional_reference(Ctx& c)
{
    using O = fc::OptionalReference<T>;
    using OC = fc::OptionalReference<const T>;
    constexpr std::size_t N = 4, M = 3;
    std::vector<T> obj;
    for (std::size_t i = 0; i < N; i++) obj.push_back(make<T>(c));
    const auto addr = [&](int i) { return i < 0 ? nullptr : obj.data() + i; };
    std::vector<O> o(M);
    std::vector<OC> oc(M);
    std::array<int, M> at{-1, -1, -1}, atc{-1, -1, -1};
    const auto check = [&] {
        const auto one = [&](auto& r, int i) {
            const auto& k = r;
            CK(r.has_value() == (i >= 0));
            CK(static_cast<bool>(r) == (i >= 0));
            CK((k == std::nullopt) == (i < 0));
            CK((std::nullopt == k) == (i < 0));
            CK((k != std::nullopt) == (i >= 0));
            CK((k > std::nullopt) == (i >= 0));
            CK((k >= std::nullopt));
            CK(!(k < std::nullopt));
            CK((k <= std::nullopt) == (i < 0));
            if (i >= 0)
            {
                CK(std::addressof(*r) == addr(i));
                CK(std::addressof(*k) == addr(i));
                CK(std::addressof(r.value()) == addr(i));
                CK(std::addressof(k.value()) == addr(i));
                CK(r.operator->() == addr(i));
                CK(k.operator->() == addr(i));
            }
        };
        for (std::size_t i = 0; i < M; i++) { one(o[i], at[i]); one(oc[i], atc[i]); }
    };
    const auto opt = [&](int i) -> std::optional<T> { if (i < 0) return std::nullopt; return obj[static_cast<std::size_t>(i)]; };
    check();
    auto l = c.loop(40);
    std::size_t n = 0;
    while (c.more(l))
    {
        const std::size_t i = c.below(M), j = c.below(M), k = c.below(N);
        n++;
        switch (c.below(20))
        {
        case 0: { T& r = o[i].emplace(obj[k]); CK(identical(r, obj[k])); at[i] = static_cast<int>(k); break; }
        case 1: { const T& r = oc[i].emplace(obj[k]); CK(identical<const T>(r, obj[k])); atc[i] = static_cast<int>(k); break; }
        case 2: o[i] = O(obj[k]); at[i] = static_cast<int>(k); break;
        case 3: o[i] = O(obj.data() + k); at[i] = static_cast<int>(k); break;
        case 4: o[i] = O(static_cast<T*>(nullptr)); at[i] = -1; break;
        case 5: oc[i] = OC(obj[k]); atc[i] = static_cast<int>(k); break;
        case 6: oc[i] = OC(std::as_const(obj[k])); atc[i] = static_cast<int>(k); break;
        case 7: o[i].reset(); at[i] = -1; break;
        case 8: { O& r = (o[i] = std::nullopt); CK(std::addressof(r) == o.data() + i); at[i] = -1; break; }
        case 9: oc[i] = std::nullopt; atc[i] = -1; break;
        case 10: { const O& s = o[j]; O& r = (o[i] = s); CK(std::addressof(r) == o.data() + i); at[i] = at[j]; break; }
        case 11: { O t(o[j]); o[i] = std::move(t); at[i] = at[j]; break; }
        case 12: { oc[i] = oc[j]; atc[i] = atc[j]; break; }
        case 13: { std::swap(o[i], o[j]); std::swap(at[i], at[j]); break; }
        case 14:
            if (at[i] >= 0)
            {
                T v = make<T>(c);
                if constexpr (std::is_same_v<T, double>) { if (v != v) v = 1; }
                *o[i] = v;
                CK(obj[static_cast<std::size_t>(at[i])] == v);
                o[i].value() = v;
                CK(obj[static_cast<std::size_t>(at[i])] == v);
                CK(*o[i].operator->() == v);
            }
            break;
        case 15:
        {
            T d = make<T>(c);
            CK(std::addressof(o[i].value_or(d)) == (at[i] < 0 ? std::addressof(d) : addr(at[i])));
            const T e = make<T>(c);
            CK(std::addressof(oc[i].value_or(e)) == (atc[i] < 0 ? std::addressof(e) : addr(atc[i])));
            CK(std::addressof(std::as_const(o[i]).value_or(d)) == (at[i] < 0 ? std::addressof(d) : addr(at[i])));
            break;
        }
        case 16: six<T>(c, o[i], o[j], opt(at[i]), opt(at[j])); break;
        case 17: six<T>(c, oc[i], oc[j], opt(atc[i]), opt(atc[j])); six<T>(c, o[i], oc[j], opt(at[i]), opt(atc[j])); break;
        case 18:
        {
            const T v = c.chance(1, 2) ? obj[k] : make<T>(c);
            const std::optional<T> x = opt(at[i]);
            CK((o[i] == v) == (x == v));
            CK((v == o[i]) == (v == x));
            CK((o[i] != v) == (x != v));
            CK((o[i] < v) == (x < v));
            CK((o[i] <= v) == (x <= v));
            CK((o[i] > v) == (x > v));
            CK((o[i] >= v) == (x >= v));
            CK((o[i] <=> v) == (x <=> v));
            CK((v < o[i]) == (v < x));
            break;
        }
        default:
        {
            auto p = std::make_unique<T>(obj[k]);
            const fc::OptionalReference<T> r(p);
            CK(r.has_value() && std::addressof(*r) == p.get());
            p.reset();
            const fc::OptionalReference<T> q(p);
            CK(!q.has_value());
            const fc::OptionalReference<T> z(std::nullopt), y;
            CK(!z.has_value() && !y.has_value());
        }
        }
        check();
    }
    if (n >= 4) c.nontrivial();
}
// comparisons between references to different types and checking policies
template <class T, class U>
void mixed_reference(Ctx& c)
{
    T t = make<T>(c);
    U u = make<U>(c);
    const bool a = c.chance(2, 3), b = c.chance(2, 3);
    const fc::OptionalReference<T> x = a ? fc::OptionalReference<T>(t) : fc::OptionalReference<T>();
    const fc::OptionalReference<const U> y = b ? fc::OptionalReference<const U>(u) : fc::OptionalReference<const U>();
    const std::optional<T> p = a ? std::optional<T>(t) : std::nullopt;
    const std::optional<U> q = b ? std::optional<U>(u) : std::nullopt;
    CK((x == y) == (p == q) && (x != y) == (p != q) && (y == x) == (q == p));
    CK((x < y) == (p < q) && (x <= y) == (p <= q) && (x > y) == (p > q) && (x >= y) == (p >= q));
    CK((y < x) == (q < p) && (y <= x) == (q <= p));
    CK((x == u) == (p == u) && (x < u) == (p < u) && (x >= u) == (p >= u));
    CK((y == t) == (q == t) && (y > t) == (q > t) && (y <= t) == (q <= t));
    c.nontrivial();
}
REGISTER("optional references to int and long", (mixed_reference<int, long>), 0.3);
REGISTER("optional references to int and double", (mixed_reference<int, double>), 0.3);
REGISTER("optional reference to int", optional_reference<int>, 1);
REGISTER("optional reference to double", optional_reference<double>, 1);
REGISTER("optional reference to string", optional_reference<std::string>, 1);
REGISTER("optional reference to a type with operator&", optional_reference<Weird>, 1);
static_assert(!std::is_constructible_v<fc::OptionalReference<const int>, int>);
static_assert(std::is_trivially_copyable_v<fc::OptionalReference<std::string>>);

#elif PART == 1
template <class K, class V>
void pair_view(Ctx& c)
{
    using P = fc::PairView<K, V>;
    using PC = fc::PairView<const K, V>;
    using PCC = fc::PairView<const K, const V>;
    using AP = fc::pair_view_detail::AssignablePairView<const K, V>;
    std::vector<K> k;
    std::vector<V> v;
    for (int i = 0; i < 4; i++) { k.push_back(make<K>(c)); v.push_back(make<V>(c)); }
    const auto sees = [&](auto& p, std::size_t i, std::size_t j) {
        const auto& q = p;
        CK(std::addressof(p.first()) == k.data() + i && std::addressof(p.second()) == v.data() + j);
        CK(std::addressof(q.first()) == k.data() + i && std::addressof(q.second()) == v.data() + j);
        CK(std::addressof(p.template get<0>()) == k.data() + i && std::addressof(p.template get<1>()) == v.data() + j);
        CK(std::addressof(q.template get<0>()) == k.data() + i && std::addressof(q.template get<1>()) == v.data() + j);
        static_assert(std::is_const_v<std::remove_reference_t<decltype(q.first())>> && std::is_const_v<std::remove_reference_t<decltype(q.second())>>);
        if constexpr (!std::is_same_v<std::remove_const_t<std::remove_reference_t<decltype(p)>>, AP>)
        {
            CK(std::addressof(std::get<0>(p)) == k.data() + i && std::addressof(std::get<1>(p)) == v.data() + j);
            CK(std::addressof(std::get<0>(q)) == k.data() + i && std::addressof(std::get<1>(q)) == v.data() + j);
            auto&& [a, b] = p;
            CK(std::addressof(a) == k.data() + i && std::addressof(b) == v.data() + j);
            auto [x, y] = p;  // a copy of the view refers to the same objects
            CK(std::addressof(x) == k.data() + i && std::addressof(y) == v.data() + j);
            const auto& [g, h] = q;
            CK(std::addressof(g) == k.data() + i && std::addressof(h) == v.data() + j);
        }
        const std::pair<K, V> s = q;
        CK(s.first == k[i] && s.second == v[j] && std::addressof(s.first) != k.data() + i);
        const std::pair<const K, V> s2 = p;
        CK(s2.first == k[i] && s2.second == v[j]);
        const std::pair<const K&, const V&> s3 = q;
        CK(std::addressof(s3.first) == k.data() + i && std::addressof(s3.second) == v.data() + j);
    };
    std::size_t i = c.below(4), j = c.below(4);
    P p(k.data() + i, v.data() + j);
    AP ap(k.data() + i, v.data() + j);
    std::size_t ai = i, aj = j;
    std::size_t n = 0;
    auto l = c.loop(12);
    while (c.more(l))
    {
        n++;
        const std::size_t x = c.below(4), y = c.below(4);
        const std::vector<K> k0 = k;
        const std::vector<V> v0 = v;
        switch (c.below(6))
        {
        case 0: p = P(k.data() + x, v.data() + y); i = x; j = y; CK(k == k0 && v == v0); break;
        case 1: { const P q(k.data() + x, v.data() + y); p = q; i = x; j = y; CK(k == k0 && v == v0); break; }
        case 2: ap = AP(k.data() + x, v.data() + y); ai = x; aj = y; CK(k == k0 && v == v0); break;
        case 3: { const AP q(k.data() + x, v.data() + y); ap = q; ai = x; aj = y; break; }
        case 4: { const K w = make<K>(c); p.first() = w; CK(k[i] == w); break; }
        default: { const V w = make<V>(c); ap.second() = w; CK(v[aj] == w); p.second() = w; CK(v[j] == w); break; }
        }
        sees(p, i, j);
        sees(ap, ai, aj);
        const PC pc(k.data() + i, v.data() + j);
        sees(pc, i, j);
        PCC pcc(pc), pcp(std::as_const(p));
        sees(pcc, i, j);
        sees(pcp, i, j);
        const P other(k.data() + x, v.data() + y);
        CK((p == other) == (k[i] == k[x] && v[j] == v[y]));
        CK((p != other) == !(k[i] == k[x] && v[j] == v[y]));
        const PC pco(k.data() + x, v.data() + y);
        CK((pc == pco) == (k[i] == k[x] && v[j] == v[y]));
    }
    if (n >= 2) c.nontrivial();
    static_assert(std::is_copy_assignable_v<P> && !std::is_copy_assignable_v<PC> && !std::is_copy_assignable_v<PCC>);
    static_assert(std::is_copy_assignable_v<AP> && std::is_trivially_copyable_v<AP>);
    static_assert(std::tuple_size_v<P> == 2);
}
void pair(Ctx& c)
{
    const int a = static_cast<int>(c.below(100));
    const std::string b = make<std::string>(c);
    fc::Pair<int, std::string> p{a, b};
    CK(p.first == a && p.second == b);
    const std::pair<int, std::string> s = p;
    CK(s.first == a && s.second == b);
    const std::pair<long, std::string> t = std::as_const(p);
    CK(t.first == a && t.second == b);
    const std::pair<const int&, const std::string&> r = std::as_const(p);
    CK(&r.first == &p.first && &r.second == &p.second);
    const std::pair<int&, std::string&> m = p;
    CK(&m.first == &p.first && &m.second == &p.second);
    const fc::Pair q{a, b};
    static_assert(std::is_same_v<decltype(q), const fc::Pair<int, std::string>>);
    auto [x, y] = q;
    CK(x == a && y == b);
    c.nontrivial();
}
template <class K, class V>
void map_entry(Ctx& c)
{
    using E = fc::MapEntry<K, V>;
    const int ki = static_cast<int>(c.below(5)), vi = static_cast<int>(c.below(5)), kj = static_cast<int>(c.below(5)), vj = static_cast<int>(c.below(5));
    const K k(ki);
    E e(k, vi);
    CK(e.key() == K(ki) && e.value() == V(vi));
    CK(std::as_const(e).key() == K(ki) && std::as_const(e).value() == V(vi));
    E f(K{kj}, V{vj});
    CK(f.key() == K(kj) && f.value() == V(vj));
    CK((e == f) == (K(ki) == K(kj) && V(vi) == V(vj)));
    CK((e != f) == !(K(ki) == K(kj) && V(vi) == V(vj)));
    E g(e);
    CK(g == e);
    g.value() = V(vj);
    CK(g.value() == V(vj) && g.key() == K(ki) && e.value() == V(vi));
    g.key() = K(kj);
    CK(g.key() == K(kj) && g == f);
    E h(std::move(f));
    CK(h.key() == K(kj) && h.value() == V(vj));
    const E d(k);
    CK(d.key() == K(ki) && d.value() == V());
    fc::MapEntry<K> s(k), t(K{kj});
    CK(s.key() == K(ki) && t.key() == K(kj) && (s == t) == (K(ki) == K(kj)));
    s.key() = K(kj);
    CK(s.key() == K(kj) && s == t);
    int x = vi, y = vj;
    fc::MapEntry<K, int&> r(k, x);
    CK(&r.value() == &x && &std::as_const(r).value() == &x);
    r.value() = vj;
    CK(x == vj && y == vj);
    c.nontrivial();
}
template <class T>
void storage(Ctx& c)
{
    el::Registry::reset();
    {
        const int a = static_cast<int>(c.below(100));
        using O = fc::optional_storage_detail::OptionalStorage<T>;
        const auto through = [&](auto tag) {
            using S = typename decltype(tag)::type;
            const T v(a);
            S s1(v), s2(std::in_place, a), s3(T{a});
            CK(s1.value == v && s2.value == v && s3.value == v);
            S s4(s1);
            CK(s4.value == v && s1.value == v);
            S s5(std::move(s2));
            CK(s5.value == v);
            if constexpr (!std::is_trivially_copyable_v<T>)
                for (S* s : {std::addressof(s1), std::addressof(s2), std::addressof(s3), std::addressof(s4), std::addressof(s5)}) s->value.~T();
        };
        through(std::type_identity<O>{});
        O o(T{a});
        CK(identical(o.get(), o.value) && identical(std::as_const(o).get(), std::as_const(o.value)));
        CK(identical(fc::optional_storage_detail::get(o), o.value));
        if constexpr (!std::is_trivially_copyable_v<T>) o.value.~T();
        T y(a);
        CK(identical(fc::optional_storage_detail::get(y), y));
        fc::optional_storage_detail::OptionalStorage<T&> ref(y);
        CK(identical(ref.get(), y));
        const auto ref2 = ref;
        CK(identical<const T>(ref2.get(), y));
    }
    if (el::Registry::live != 0) c.fail("objects left alive");
    c.nontrivial();
}
REGISTER("pair view int,int", (pair_view<int, int>), 1);
REGISTER("pair view int,string", (pair_view<int, std::string>), 1);
REGISTER("pair view string,Weird", (pair_view<std::string, Weird>), 1);
REGISTER("pair view Weird,Weird", (pair_view<Weird, Weird>), 1);
REGISTER("pair", pair, 0.3);
REGISTER("map entry int,int", (map_entry<int, int>), 0.3);
REGISTER("map entry tracked", (map_entry<el::Trk, el::Trk>), 0.3);
REGISTER("map entry Weird", (map_entry<Weird, Weird>), 0.3);
REGISTER("storage int", storage<int>, 0.3);
REGISTER("storage tracked", storage<el::Trk>, 0.3);
REGISTER("storage Weird", storage<Weird>, 0.3);

#elif PART == 2
// relocation of n elements by `shift` slots within one buffer, or to another one
template <class T>
void relocate(Ctx& c)
{
    el::Registry::reset();
    constexpr std::size_t N = 24;
    alignas(T) static unsigned char raw[2][N * sizeof(T)];
    T* buf[2] = {reinterpret_cast<T*>(raw[0]), reinterpret_cast<T*>(raw[1])};
    const std::size_t n = c.below(9), from = c.below(N - 8);
    const bool back = c.chance(1, 2), same = c.chance(2, 3);
    std::size_t to = c.below(N - 8);
    if (same && !back && to >= from) to = from - (from > 0 ? 1 + c.below(from) : 0);
    if (same && back && to <= from) to = from + (from + 8 < N ? 1 + c.below(N - 8 - from) : 0);
    if (same && to == from) return;  // nothing to do; moving onto itself is not asked for
    c.note("relocate %zu elements from %zu to %zu, %s, %s", n, from, to, back ? "backward" : "forward", same ? "same buffer" : "other buffer");
    std::vector<int> want;
    for (std::size_t i = 0; i < n; i++)
    {
        want.push_back(static_cast<int>(c.below(50)));
        new (buf[0] + from + i) T(want.back());
    }
    T* dst = buf[same ? 0 : 1];
    T* r = back ? fc::algorithm::uninitialized_relocate_backward(buf[0] + from, buf[0] + from + n, dst + to + n)
                : fc::algorithm::uninitialized_relocate(buf[0] + from, buf[0] + from + n, dst + to);
    CK(r == (back ? dst + to : dst + to + n));
    for (std::size_t i = 0; i < n; i++) CK(dst[to + i] == T(want[i]));
    if constexpr (std::is_same_v<T, el::Trk>)
    {
        CK(el::Registry::live == n);
        CK(el::Registry::copies == 0);
    }
    for (std::size_t i = 0; i < n; i++) std::destroy_at(dst + to + i);
    if (el::Registry::live != 0) c.fail("objects left alive");
    if (n >= 2) c.nontrivial();
}
template <class T>
void memory_helpers(Ctx& c)
{
    el::Registry::reset();
    {
        const int a = static_cast<int>(c.below(9)), b = static_cast<int>(c.below(9));
        alignas(T) unsigned char raw[sizeof(T)];
        T& ref = *reinterpret_cast<T*>(raw);
        fc::memory::construct_at_address_of(ref, a);
        CK(ref == T(a));
        fc::memory::destroy_and_construct_at_address_of(ref, b);
        CK(ref == T(b));
        CK(static_cast<const void*>(fc::memory::addressof_as_const_byte_ptr(ref)) == raw);
        CK(static_cast<const void*>(fc::memory::addressof_as_mutable_byte_ptr(ref)) == raw);
        fc::memory::destroy_at_address_of(ref);
        T v(a);
        fc::in_out<T> io(v);
        fc::out<T> o(v);
        CK(std::addressof(*io) == std::addressof(v) && io.operator->() == std::addressof(v) && io.operator&() == std::addressof(v));
        CK(std::addressof(*o) == std::addressof(v) && o.operator->() == std::addressof(v) && o.operator&() == std::addressof(v));
        *o = T(b);
        CK(v == T(b) && *io == T(b));
        [](fc::in_out<T> x, int k) { *x = T(k); }(fc::in_out{v}, a);
        CK(v == T(a));
        fc::ArrowProxy<T> ap{T(b)};
        CK(*ap.operator->() == T(b) && ap.operator->() == std::addressof(ap.data_));
    }
    if (el::Registry::live != 0) c.fail("objects left alive");
    c.nontrivial();
}
template <class T>
struct Times
{
    constexpr int operator()(const T& x) const { return static_cast<int>(x) * 10 + 1; }
};
struct Member
{
    int a;
    int b;
};
struct SecondOf
{
    int& operator()(Member& m) const { return m.b; }
    const int& operator()(const Member& m) const { return m.b; }
};
// an iterator transformer behaves like the mapped sequence
void transformer(Ctx& c)
{
    std::vector<Member> v;
    const std::size_t n = c.below(12);
    for (std::size_t i = 0; i < n; i++) v.push_back({static_cast<int>(i), static_cast<int>(c.below(5))});
    using CI = std::vector<Member>::const_iterator;
    using MI = std::vector<Member>::iterator;
    using CT = fc::RandomAccessIteratorTransformer<CI, MI, SecondOf, SecondOf, fc::IteratorConstness::CONSTANT_ITERATOR>;
    using MT = fc::RandomAccessIteratorTransformer<CI, MI, SecondOf, SecondOf, fc::IteratorConstness::MUTABLE_ITERATOR>;
    const MT b(v.begin(), SecondOf{}), e(v.end(), SecondOf{});
    const CT cb(b), ce(e);
    CK(e - b == static_cast<std::ptrdiff_t>(n) && ce - cb == e - b && b + (e - b) == e);
    for (std::size_t i = 0; i <= n; i++)
    {
        const auto d = static_cast<std::ptrdiff_t>(i);
        MT x = b + d;
        const CT y(x);
        CK(x - b == d && y - cb == d && x == d + b && e - (e - x) == x);
        CK(cb + d == y);
        if (i < n)
        {
            CK(&*x == &v[i].b && &*y == &v[i].b && &b[d] == &v[i].b && x.operator->() == &v[i].b && y.operator->() == &v[i].b);
            *x = 7;
            CK(v[i].b == 7 && v[i].a == static_cast<int>(i));
            MT z = x;
            CK(z++ == x && z - b == d + 1);
            z = x;
            CK(++z - b == d + 1 && z > x && x < z && !(x == z) && z >= x && x <= z);
            CK(--z == x);
            CK(++z != x && z-- - b == d + 1 && z == x);
        }
        for (std::size_t j = 0; j <= n; j++)
        {
            const MT w = b + static_cast<std::ptrdiff_t>(j);
            CK((x == w) == (i == j) && (x < w) == (i < j) && (x <= w) == (i <= j) && ((x <=> w) < 0) == (i < j));
            MT m = x;
            m += static_cast<std::ptrdiff_t>(j) - d;
            CK(m == w);
            m -= static_cast<std::ptrdiff_t>(j) - d;
            CK(m == x);
        }
    }
    if (n >= 2) c.nontrivial();
}
REGISTER("relocate int", relocate<int>, 1);
REGISTER("relocate tracked", relocate<el::Trk>, 2);
REGISTER("relocate Weird", relocate<Weird>, 1);
REGISTER("memory helpers, in/out, arrow proxy: int", memory_helpers<int>, 0.3);
REGISTER("memory helpers, in/out, arrow proxy: tracked", memory_helpers<el::Trk>, 0.3);
REGISTER("memory helpers, in/out, arrow proxy: Weird", memory_helpers<Weird>, 0.3);
REGISTER("iterator transformer", transformer, 1);

#else
// visiting the entries of tuples and packs in order, by reference
template <class... Ts>
void visit(Ctx& c)
{
    std::tuple<Ts...> t{make<Ts>(c)...};
    std::vector<const void*> want;
    std::apply([&](auto&... x) { (want.push_back(std::addressof(x)), ...); }, t);
    std::vector<const void*> got;
    std::vector<std::size_t> idx;
    const auto take = [&](auto& x) { got.push_back(std::addressof(x)); };
    const auto take2 = [&](std::size_t i, auto& x) { idx.push_back(i); got.push_back(std::addressof(x)); };
    const auto check = [&](bool indexed) {
        CK(got == want);
        if (indexed)
        {
            CK(idx.size() == want.size());
            for (std::size_t i = 0; i < idx.size(); i++) CK(idx[i] == i);
        }
        got.clear();
        idx.clear();
    };
    fc::tuples::for_each_entry(t, take); check(false);
    fc::tuples::for_each_entry(t, take2); check(true);
    std::apply([&](auto&... x) { fc::variadic_templates::for_each_entry(take, x...); }, t); check(false);
    std::apply([&](auto&... x) { fc::variadic_templates::for_each_entry(take2, x...); }, t); check(true);
    if constexpr (sizeof...(Ts) > 0)
    {
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            static_assert((std::is_same_v<fc::variadic_templates::NthElementT<I, Ts...>, std::tuple_element_t<I, std::tuple<Ts...>>> && ...));
        }(std::index_sequence_for<Ts...>{});
    }
    if (sizeof...(Ts) > 1) c.nontrivial();
}
void visit_all(Ctx& c)
{
    switch (c.below(8))
    {
    case 0: visit<>(c); break;
    case 1: visit<int>(c); break;
    case 2: visit<int, int>(c); break;
    case 3: visit<int, std::string>(c); break;
    case 4: visit<std::string, int, Weird>(c); break;
    case 5: visit<Weird, Weird, int, double, std::string>(c); break;
    case 6: visit<int, int, int, int, int, int, int, int, int>(c); break;
    default: visit<double, std::string, int, std::string, double, Weird, int, std::string, double, double, int, int, int>(c);
    }
}
template <std::size_t N>
struct Lit { char s[N]; };
#define L_(x) { fc::StringLiteral(x), std::string_view(x, sizeof(x) - 1), x }
struct Entry { fc::StringLiteral lit; std::string_view view; const char* ptr; };
constexpr Entry LITERALS[] = {L_(""), L_("a"), L_("blah"), L_("embedded\0nul"), L_("\0"), L_("trailing\0"), L_("a much longer literal with \"quotes\" and spaces, over sixty four characters in length"),
                              L_("\xff\x80 high bytes"), L_("\t\n")};
void string_literal(Ctx& c)
{
    const Entry& e = LITERALS[c.below(std::size(LITERALS))];
    fc::StringLiteral s = e.lit;
    CK(s.size() == e.view.size());
    CK(s.as_view() == e.view);
    CK(static_cast<std::string_view>(s) == e.view);
    CK(s.c_str()[s.size()] == '\0');
    CK(static_cast<const char*>(s) == s.c_str());
    CK(s.as_view().data() == s.c_str());
    const fc::StringLiteral d;
    CK(d.size() == 0 && d.c_str()[0] == '\0' && d.as_view().empty());
    const Entry& f = LITERALS[c.below(std::size(LITERALS))];
    s = f.lit;
    CK(s.as_view() == f.view && e.lit.as_view() == e.view);
    c.nontrivial();
}
}  // namespace
namespace tns
{
struct Plain {};
enum class En { X };
namespace inner { template <class T, int N> struct Tm {}; }
}  // namespace tns
namespace
{
struct Row { std::string_view got, want; };
template <class T> constexpr std::string_view tn() { return fc::type_name<T>(); }
const Row NAMES[] = {
    {tn<int>(), "int"}, {tn<unsigned long>(), "unsigned long"}, {tn<bool>(), "bool"}, {tn<char>(), "char"}, {tn<double>(), "double"},
    {tn<const int>(), "const int"}, {tn<volatile int>(), "volatile int"}, {tn<const volatile int>(), "const volatile int"},
    {tn<int*>(), "int *"}, {tn<const int*>(), "const int *"}, {tn<int* const>(), "int *const"}, {tn<int&>(), "int &"}, {tn<int&&>(), "int &&"},
    {tn<const int&>(), "const int &"}, {tn<int[3]>(), "int[3]"}, {tn<int(double)>(), "int (double)"}, {tn<int (*)(double)>(), "int (*)(double)"},
    {tn<tns::Plain>(), "tns::Plain"}, {tn<tns::En>(), "tns::En"}, {tn<const tns::Plain*>(), "const tns::Plain *"},
    {tn<tns::inner::Tm<int, 3>>(), "tns::inner::Tm<int, 3>"}, {tn<tns::inner::Tm<tns::Plain, -1>>(), "tns::inner::Tm<tns::Plain, -1>"},
    {tn<tns::inner::Tm<int[2], 3>>(), "tns::inner::Tm<int[2], 3>"}, {tn<void>(), "void"}, {tn<long double>(), "long double"},
    {tn<tns::Plain&>(), "tns::Plain &"}, {tn<char[1]>(), "char[1]"}, {tn<int tns::Plain::*>(), "int tns::Plain::*"},
};
void type_names(Ctx& c)
{
    const std::size_t i = c.below(std::size(NAMES)), j = c.below(std::size(NAMES));
    CK(NAMES[i].got == NAMES[i].want);
    CK((NAMES[i].got == NAMES[j].got) == (i == j));
    c.nontrivial();
}
REGISTER("entries of tuples and packs", visit_all, 1);
REGISTER("string literals", string_literal, 0.5);
REGISTER("type names", type_names, 0.5);
#endif
}  // namespace
