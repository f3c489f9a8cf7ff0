// C26: integer helpers, circular index arithmetic, integer ranges and their iterators against 128-bit arithmetic. -DPART=0..5
#include "../engine.hpp"

#include "fixed_containers/circular_indexing.hpp"
#include "fixed_containers/circular_integer_range_iterator.hpp"
#include "fixed_containers/comparison_chain.hpp"
#include "fixed_containers/filtered_integer_range_iterator.hpp"
#include "fixed_containers/int_math.hpp"
#include "fixed_containers/integer_range.hpp"
#include "fixed_containers/integer_range_iterator.hpp"

#include <compare>
#include <cstdint>
#include <limits>
#include <string>
#include <tuple>
#include <vector>

namespace fc = fixed_containers;
using pbt::Ctx;
using I = __int128;
namespace
{

std::string str(I v)
{
    if (v == 0) return "0";
    std::string s;
    const bool neg = v < 0;
    while (v != 0)
    {
        const int d = static_cast<int>(v % 10);
        s.insert(s.begin(), static_cast<char>('0' + (d < 0 ? -d : d)));
        v /= 10;
    }
    return neg ? "-" + s : s;
}
template <class T>
constexpr I lo = static_cast<I>(std::numeric_limits<T>::min());
template <class T>
constexpr I hi = static_cast<I>(std::numeric_limits<T>::max());
template <class T>
bool fits(I v) { return lo<T> <= v && v <= hi<T>; }

std::uint64_t bits(Ctx& c) { return (static_cast<std::uint64_t>(c.below(1U << 31)) << 33) ^ (static_cast<std::uint64_t>(c.below(1U << 31)) << 16) ^ c.below(1U << 16); }
// a value of T: near zero, near either limit, near a power of two, or any
template <class T>
T value(Ctx& c)
{
    const int d = static_cast<int>(c.below(5)) - 2;
    I v = 0;
    switch (c.below(6))
    {
    case 0: v = c.below(10); break;
    case 1: v = hi<T> - c.below(4); break;
    case 2: v = lo<T> + c.below(4); break;
    case 3: v = (static_cast<I>(1) << c.below(static_cast<unsigned>(sizeof(T) * 8))) + d; break;
    case 4: v = -(static_cast<I>(1) << c.below(static_cast<unsigned>(sizeof(T) * 8))) + d; break;
    default: return static_cast<T>(bits(c));
    }
    return fits<T>(v) ? static_cast<T>(v) : static_cast<T>(bits(c));
}

template <class U>
void check_sign(Ctx& c, const char* op, const std::string& args, const fc::int_math::UnsignedIntegralAndSign<U>& r, I want)
{
    const I mag = want < 0 ? -want : want;
    const I got = r.is_negative() ? -static_cast<I>(r.unsigned_value()) : static_cast<I>(r.unsigned_value());
    CHECK(c, static_cast<I>(r.unsigned_value()) == mag && r.is_negative() == (want < 0) && r.is_non_negative() == (want >= 0), "%s(%s) is %s, not %s", op,
          args.c_str(), str(got).c_str(), str(want).c_str());
    auto cast_to = [&]<class V>(V, const char* name)
    {
        if (!fits<V>(want)) return;
        const V v = r.template cast<V>();
        CHECK(c, static_cast<I>(v) == want, "%s(%s) converts to %s as %s, not %s", op, args.c_str(), name, str(static_cast<I>(v)).c_str(), str(want).c_str());
    };
    cast_to(std::int8_t{}, "int8_t");
    cast_to(std::int16_t{}, "int16_t");
    cast_to(std::int32_t{}, "int32_t");
    cast_to(std::int64_t{}, "int64_t");
    cast_to(std::uint8_t{}, "uint8_t");
    cast_to(std::uint16_t{}, "uint16_t");
    cast_to(std::uint32_t{}, "uint32_t");
    cast_to(std::uint64_t{}, "uint64_t");
}
template <class U>
void subtract(Ctx& c)
{
    for (int k = 0; k < 40; k++)
    {
        const U a = value<U>(c);
        const U b = c.chance(1, 4) ? static_cast<U>(a + static_cast<U>(c.below(3)) - 1) : value<U>(c);
        c.ops();
        const std::string args = str(static_cast<I>(a)) + ", " + str(static_cast<I>(b));
        NOTE(c, "safe_subtract(%s)", args.c_str());
        check_sign(c, "safe_subtract", args, fc::int_math::safe_subtract(a, b), static_cast<I>(a) - static_cast<I>(b));
        if (static_cast<I>(a) - static_cast<I>(b) <= 1) c.nontrivial();
        check_sign(c, "create_positive", str(a), fc::int_math::UnsignedIntegralAndSign<U>::create_positive(a), static_cast<I>(a));
        check_sign(c, "create_negative", str(a), fc::int_math::UnsignedIntegralAndSign<U>::create_negative(a), -static_cast<I>(a));
    }
}
template <class U, class S>
void add(Ctx& c)
{
    for (int k = 0; k < 40; k++)
    {
        const U a = value<U>(c);
        const S b = value<S>(c);
        const I want = static_cast<I>(a) + static_cast<I>(b);
        if ((want < 0 ? -want : want) > hi<U> || (b < 0 ? -static_cast<I>(b) : static_cast<I>(b)) > hi<U>) continue;  // not representable
        c.ops();
        const std::string args = str(static_cast<I>(a)) + ", " + str(static_cast<I>(b));
        NOTE(c, "safe_add(%s)", args.c_str());
        check_sign(c, "safe_add", args, fc::int_math::safe_add(a, b), want);
        if (b < 0) c.nontrivial();
    }
}
template <class T>
void divide(Ctx& c)
{
    for (int k = 0; k < 40; k++)
    {
        const T a = value<T>(c);
        const T b = c.chance(1, 2) ? static_cast<T>(1 + c.below(9)) : value<T>(c);
        if (b == 0) continue;
        const I x = a, y = b;
        I want = x / y;
        if (x % y != 0 && ((x % y > 0) == (y > 0))) want++;
        if (!fits<T>(want)) continue;
        c.ops();
        NOTE(c, "divide_integers_rounding_up(%s, %s)", str(x).c_str(), str(y).c_str());
        const T got = fc::int_math::divide_integers_rounding_up(a, b);
        CHECK(c, static_cast<I>(got) == want, "divide_integers_rounding_up(%s, %s) is %s, not %s", str(x).c_str(), str(y).c_str(),
              str(static_cast<I>(got)).c_str(), str(want).c_str());
        if (x % y != 0 || x == 0) c.nontrivial();
    }
}

// ------------------------------------------------------------------------------------- circular indexing
I floordiv(I a, I b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

template <class R>
void circular_with(Ctx& c, const R& range, std::size_t index, std::size_t n)
{
    const I s = range.start_inclusive(), size = range.distance();
    c.ops();
    NOTE(c, "range [%s, %s), index %zu, n %zu", str(s).c_str(), str(s + size).c_str(), index, n);
    const I up = static_cast<I>(index) - s + n;
    if (static_cast<I>(index) + n <= hi<std::size_t> && floordiv(up, size) <= hi<std::int64_t>)
    {
        const auto r = fc::circular_indexing::increment_index_with_wraparound(range, index, n);
        CHECK(c, r.cycles == floordiv(up, size) && r.integer == s + (up - floordiv(up, size) * size), "[%s, %s): %zu + %zu gives (%lld, %zu)", str(s).c_str(),
              str(s + size).c_str(), index, n, static_cast<long long>(r.cycles), r.integer);
        if (r.cycles != 0) c.nontrivial();
        const auto r2 = fc::circular_indexing::increment_index_with_wraparound(range, r.integer, 0);
        CHECK(c, r2.cycles == 0 && r2.integer == r.integer, "[%s, %s): %zu + 0 moves", str(s).c_str(), str(s + size).c_str(), r.integer);
    }
    const I down = static_cast<I>(index) - s - n;
    if (static_cast<I>(n) + size <= hi<std::size_t> && static_cast<I>(index) + size <= hi<std::size_t> && floordiv(down, size) >= lo<std::int64_t>)
    {
        const auto r = fc::circular_indexing::decrement_index_with_wraparound(range, index, n);
        CHECK(c, r.cycles == floordiv(down, size) && r.integer == s + (down - floordiv(down, size) * size), "[%s, %s): %zu - %zu gives (%lld, %zu)",
              str(s).c_str(), str(s + size).c_str(), index, n, static_cast<long long>(r.cycles), r.integer);
        if (r.cycles != 0) c.nontrivial();
    }
}
void circular(Ctx& c)
{
    for (int k = 0; k < 20; k++)
    {
        std::size_t s = value<std::size_t>(c);
        std::size_t size = c.chance(1, 2) ? 1 + c.below(12) : value<std::size_t>(c);
        if (size == 0) size = 1;
        if (static_cast<I>(s) + size > hi<std::size_t>) s = static_cast<std::size_t>(hi<std::size_t> - size);
        const std::size_t off = size <= 20 ? c.below(static_cast<unsigned>(size)) : value<std::size_t>(c) % size;
        const std::size_t n = c.chance(1, 2) ? c.below(40) : value<std::size_t>(c);
        circular_with(c, fc::IntegerRange::closed_open(s, s + size), s + off, n);
    }
}
template <std::size_t S, std::size_t E>
void circular_ct(Ctx& c)
{
    for (int k = 0; k < 20; k++)
    {
        const std::size_t off = c.chance(1, 2) ? c.edge(E - S - 1) : value<std::size_t>(c) % (E - S);
        const std::size_t n = c.chance(1, 2) ? c.below(40) : value<std::size_t>(c);
        circular_with(c, fc::IntegerRange::closed_open<S, E>(), S + off, n);
    }
}
void cycles_order(Ctx& c)
{
    using CI = fc::circular_indexing::CyclesAndInteger;
    for (int k = 0; k < 20; k++)
    {
        const CI a{value<std::int64_t>(c), value<std::size_t>(c)};
        const CI b{c.chance(1, 2) ? a.cycles : value<std::int64_t>(c), c.chance(1, 4) ? a.integer : value<std::size_t>(c)};
        const auto want = std::pair(a.cycles, a.integer) <=> std::pair(b.cycles, b.integer);
        c.ops();
        CHECK(c, (a <=> b) == want && (a == b) == (want == 0) && (a < b) == (want < 0), "ordering of (%lld, %zu) and (%lld, %zu) is wrong",
              static_cast<long long>(a.cycles), a.integer, static_cast<long long>(b.cycles), b.integer);
        c.nontrivial();
    }
}

// ------------------------------------------------------------------------------------- ranges
template <class R>
void check_range(Ctx& c, const R& r, std::size_t s, std::size_t e)
{
    c.ops();
    CHECK(c, r.start_inclusive() == s && r.end_exclusive() == e && r.distance() == e - s, "range [%zu, %zu): bounds or distance are wrong", s, e);
    for (int k = 0; k < 12; k++)
    {
        const std::size_t x = k == 0 ? s : k == 1 ? e : k == 2 ? s - 1 : k == 3 ? e - 1 : k == 4 ? e + 1 : k == 5 ? s + 1 : value<std::size_t>(c);
        const bool want = static_cast<I>(s) <= static_cast<I>(x) && static_cast<I>(x) < static_cast<I>(e);
        CHECK(c, r.contains(x) == want, "range [%zu, %zu): contains(%zu) is wrong", s, e, x);
        CHECK(c, fc::integer_range_detail::contains_or_is_equal_to_end(r, x) == (want || x == e), "range [%zu, %zu): contains_or_is_equal_to_end(%zu) is wrong", s, e, x);
    }
}
template <std::size_t S, std::size_t E>
void range_ct(Ctx& c)
{
    check_range(c, fc::IntegerRange::closed_open<S, E>(), S, E);
}
void ranges(Ctx& c)
{
    for (int k = 0; k < 8; k++)
    {
        std::size_t s = value<std::size_t>(c), e = c.chance(1, 3) ? s + c.below(5) : value<std::size_t>(c);
        if (s > e) std::swap(s, e);
        NOTE(c, "range [%zu, %zu)", s, e);
        const auto r = fc::IntegerRange::closed_open(s, e);
        check_range(c, r, s, e);
        check_range(c, fc::StartingIntegerAndDistance{.start = s, .distance = e - s}.to_range(), s, e);
        std::size_t s2 = c.chance(1, 2) ? s : value<std::size_t>(c), e2 = c.chance(1, 2) ? e : value<std::size_t>(c);
        if (s2 > e2) std::swap(s2, e2);
        const auto r2 = fc::IntegerRange::closed_open(s2, e2);
        CHECK(c, (r == r2) == (s == s2 && e == e2) && (r != r2) == !(s == s2 && e == e2), "equality of [%zu, %zu) and [%zu, %zu) is wrong", s, e, s2, e2);
        if (e - s <= 1 || s == 0 || e > hi<std::size_t> - 2) c.nontrivial();
    }
    CHECK(c, fc::IntegerRange{} == fc::IntegerRange::closed_open(0, 0), "a default range is not empty");
    CHECK(c, (fc::CompileTimeIntegerRange<1, 4>{} == fc::CompileTimeIntegerRange<1, 4>{}) && !(fc::CompileTimeIntegerRange<1, 4>{} == fc::CompileTimeIntegerRange<1, 5>{}) &&
                 !(fc::CompileTimeIntegerRange<0, 4>{} == fc::CompileTimeIntegerRange<1, 4>{}),
          "equality of compile-time ranges is wrong");
    range_ct<0, 0>(c);
    range_ct<0, 1>(c);
    range_ct<3, 3>(c);
    range_ct<3, 9>(c);
    range_ct<0, static_cast<std::size_t>(-1)>(c);
}

// ------------------------------------------------------------------------------------- iterators over ranges
// `make(i)` is the iterator of position i (0 .. n, n is past the end), `want(i)` its integer
template <class It, class Make, class Want>
void random_access(Ctx& c, const char* w, std::size_t n, Make make, Want want)
{
    for (int k = 0; k < 12; k++)
    {
        const std::size_t i = c.edge(n), j = c.edge(n);
        const auto d = static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i);
        It a = make(i), b = make(j);
        c.ops();
        NOTE(c, "%s: positions %zu and %zu of %zu", w, i, j, n);
        if (i < n) CHECK(c, *a == want(i) && a[0] == want(i), "%s: position %zu of %zu holds %zu, not %zu", w, i, n, *a, want(i));
        CHECK(c, (a == b) == (i == j) && (a != b) == (i != j), "%s: equality of positions %zu and %zu of %zu is wrong", w, i, j, n);
        CHECK(c, (a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j) && (a <=> b) == (i <=> j),
              "%s: ordering of positions %zu and %zu of %zu is wrong", w, i, j, n);
        CHECK(c, b - a == d, "%s: position %zu minus position %zu of %zu is %td", w, j, i, n, b - a);
        CHECK(c, a + d == b && d + a == b && a - (-d) == b, "%s: moving from position %zu to %zu of %zu goes elsewhere", w, i, j, n);
        It x = a;
        x += d;
        It y = a;
        y -= -d;
        CHECK(c, x == b && y == b, "%s: moving in place from position %zu to %zu of %zu goes elsewhere", w, i, j, n);
        if (j < n) CHECK(c, a[d] == want(j) && *(a + d) == want(j) && *x == want(j), "%s: [%td] from position %zu of %zu is not %zu", w, d, i, n, want(j));
        if (i < n)
        {
            It p = a;
            It q = p++;
            CHECK(c, q == a && p == make(i + 1) && ++q == p, "%s: ++ at position %zu of %zu is wrong", w, i, n);
        }
        if (i > 0)
        {
            It p = a;
            It q = p--;
            CHECK(c, q == a && p == make(i - 1) && --q == p && *p == want(i - 1), "%s: -- at position %zu of %zu is wrong", w, i, n);
        }
        if constexpr (requires { a.base(); })
        {
            if (i > 0) CHECK(c, *a.base() == want(i - 1), "%s: base() of position %zu of %zu is wrong", w, i, n);
        }
        if (i != j) c.nontrivial();
    }
}
template <class R>
void int_iter_with(Ctx& c, const R& range)
{
    const std::size_t s = range.start_inclusive(), n = range.distance();
    using F = fc::IntegerRangeIterator<fc::IteratorDirection::FORWARD, R>;
    using B = fc::IntegerRangeIterator<fc::IteratorDirection::REVERSE, R>;
    random_access<F>(c, "integer range iterator", n, [&](std::size_t i) { return F{range, s + i}; }, [&](std::size_t i) { return s + i; });
    random_access<B>(c, "reverse integer range iterator", n, [&](std::size_t i) { return B{range, s + n - i}; }, [&](std::size_t i) { return s + n - 1 - i; });
}
void int_iter(Ctx& c)
{
    std::size_t s = c.chance(1, 3) ? c.below(4) : value<std::size_t>(c);
    const std::size_t n = c.chance(3, 4) ? c.below(9) : value<std::size_t>(c) >> 2;
    if (static_cast<I>(s) + n >= hi<std::size_t>) s = static_cast<std::size_t>(hi<std::size_t> - n) / 2;
    NOTE(c, "range [%zu, %zu)", s, s + n);
    int_iter_with(c, fc::IntegerRange::closed_open(s, s + n));
    int_iter_with(c, fc::IntegerRange::closed_open<0, 5>());
    int_iter_with(c, fc::IntegerRange::closed_open<3, 4>());
    int_iter_with(c, fc::IntegerRange::closed_open<0, 0>());
}
template <class R>
void circ_iter_with(Ctx& c, const R& range)
{
    const std::size_t s = range.start_inclusive(), size = range.distance();
    const std::size_t off = c.edge(size - 1);
    const std::size_t n = 3 * std::min<std::size_t>(size, 1000);
    using F = fc::CircularIntegerRangeIterator<fc::IteratorDirection::FORWARD, R>;
    using B = fc::CircularIntegerRangeIterator<fc::IteratorDirection::REVERSE, R>;
    NOTE(c, "circular range [%zu, %zu) from %zu", s, s + size, s + off);
    random_access<F>(
        c, "circular iterator", n, [&](std::size_t i) { return F{range, fc::StartingIntegerAndDistance{.start = s + off, .distance = i}}; },
        [&](std::size_t i) { return s + (off + i) % size; });
    random_access<B>(
        c, "reverse circular iterator", n, [&](std::size_t i) { return B{range, fc::StartingIntegerAndDistance{.start = s + off, .distance = n - i}}; },
        [&](std::size_t i) { return s + (off + n - 1 - i) % size; });
}
void circ_iter(Ctx& c)
{
    std::size_t s = c.chance(1, 3) ? c.below(4) : value<std::size_t>(c);
    const std::size_t n = 1 + (c.chance(3, 4) ? c.below(9) : c.below(1U << 30));
    if (static_cast<I>(s) + 8 * static_cast<I>(n) >= hi<std::size_t>) s >>= 1;
    circ_iter_with(c, fc::IntegerRange::closed_open(s, s + n));
    circ_iter_with(c, fc::IntegerRange::closed_open<0, 1>());
    circ_iter_with(c, fc::IntegerRange::closed_open<2, 9>());
}
struct Mask
{
    std::uint64_t mask = 0;
    std::size_t start = 0;
    constexpr bool operator()(std::size_t i) const { return ((mask >> (i - start)) & 1U) != 0; }
    constexpr bool operator==(const Mask&) const = default;
};
template <class R>
void filtered_with(Ctx& c, const R& range)
{
    const std::size_t s = range.start_inclusive(), n = range.distance();
    const Mask m{c.chance(1, 8) ? 0 : c.chance(1, 6) ? ~std::uint64_t{0} : bits(c) & (c.chance(1, 3) ? bits(c) : ~std::uint64_t{0}), s};
    std::vector<std::size_t> sel;
    for (std::size_t i = s; i < s + n; i++)
        if (m(i)) sel.push_back(i);
    NOTE(c, "range [%zu, %zu), selected %zu, mask %llx", s, s + n, sel.size(), static_cast<unsigned long long>(m.mask));
    using F = fc::FilteredIntegerRangeIterator<Mask, fc::IteratorDirection::FORWARD, R>;
    using B = fc::FilteredIntegerRangeIterator<Mask, fc::IteratorDirection::REVERSE, R>;
    // any starting index denotes the first selected integer from there on
    for (std::size_t i = s; i <= s + n; i++)
    {
        c.ops();
        const auto it = std::lower_bound(sel.begin(), sel.end(), i);
        const auto k = static_cast<std::size_t>(it - sel.begin());
        F f{range, i, m};
        CHECK(c, (f == F{range, s + n, m}) == (it == sel.end()), "filtered iterator at %zu: end is wrong", i);
        for (std::size_t q = k; q < sel.size(); q++)
        {
            CHECK(c, *f == sel[q], "filtered iterator: %zu instead of %zu", *f, sel[q]);
            if (q % 2 == 0)
                ++f;
            else
                f++;
        }
        CHECK(c, f == (F{range, s + n, m}), "filtered iterator does not end");
        for (std::size_t q = sel.size(); q-- > 0;)
        {
            --f;
            CHECK(c, *f == sel[q], "filtered iterator backwards: %zu instead of %zu", *f, sel[q]);
        }
        if (!sel.empty()) CHECK(c, f == (F{range, s, m}), "filtered iterator does not get back to its start");
        B b{range, i, m};
        for (std::size_t q = k; q-- > 0;)
        {
            CHECK(c, *b == sel[q], "reverse filtered iterator from %zu: %zu instead of %zu", i, *b, sel[q]);
            if (q % 2 == 0)
                ++b;
            else
                b++;
        }
        CHECK(c, b == (B{range, s, m}), "reverse filtered iterator does not end");
        for (std::size_t q = 0; q < sel.size(); q++)
        {
            --b;
            CHECK(c, *b == sel[q], "reverse filtered iterator backwards: %zu instead of %zu", *b, sel[q]);
        }
    }
    if (!sel.empty() && sel.size() < n) c.nontrivial();
}
void filtered(Ctx& c)
{
    const std::size_t n = c.below(c.chance(1, 4) ? 60 : 12);
    std::size_t s = c.chance(1, 2) ? c.below(3) : value<std::size_t>(c);
    if (static_cast<I>(s) + n + 2 >= hi<std::size_t>) s -= n + 2;
    filtered_with(c, fc::IntegerRange::closed_open(s, s + n));
    filtered_with(c, fc::IntegerRange::closed_open<0, 7>());
    filtered_with(c, fc::IntegerRange::closed_open<0, 0>());
    filtered_with(c, fc::IntegerRange::closed_open<1, 2>());
}
void chain(Ctx& c)
{
    for (int k = 0; k < 10; k++)
    {
        int a[5], b[5];
        for (int i = 0; i < 5; i++)
        {
            a[i] = c.chance(1, 3) ? value<int>(c) : 1;
            b[i] = c.chance(2, 3) ? a[i] : value<int>(c);
        }
        c.ops();
        const auto want = std::tie(a[0], a[1], a[2], a[3], a[4]) <=> std::tie(b[0], b[1], b[2], b[3], b[4]);
        auto make = [&]
        { return fc::ComparisonChain::start().compare(a[0], b[0]).compare(a[1], static_cast<long>(b[1])).compare(a[2], b[2]).compare(a[3], b[3]).compare(a[4], b[4]); };
        CHECK(c, make().is_less() == (want < 0) && make().is_less_or_equal() == (want <= 0) && make().is_greater() == (want > 0) &&
                     make().is_greater_or_equal() == (want >= 0) && make().is_equal() == (want == 0) && make().is_not_equal() == (want != 0),
              "comparison chain over (%d,%d,%d,%d,%d) and (%d,%d,%d,%d,%d) is wrong", a[0], a[1], a[2], a[3], a[4], b[0], b[1], b[2], b[3], b[4]);
        if (want != 0 && a[0] == b[0]) c.nontrivial();
    }
}

#define R_(NAME, FN, W) REGISTER(NAME, (FN), W)
#if PART == 0
R_("safe_subtract uint8", subtract<std::uint8_t>, 1); R_("safe_subtract uint16", subtract<std::uint16_t>, 1);
R_("safe_subtract uint32", subtract<std::uint32_t>, 1); R_("safe_subtract uint64", subtract<std::uint64_t>, 1);
#define A_(U, S) REGISTER("safe_add " #U " " #S, (add<std::U, std::S>), 0.5)
A_(uint8_t, int8_t); A_(uint8_t, int64_t); A_(uint16_t, int16_t); A_(uint16_t, int32_t); A_(uint32_t, int8_t); A_(uint32_t, int32_t); A_(uint32_t, int64_t);
A_(uint64_t, int8_t); A_(uint64_t, int32_t); A_(uint64_t, int64_t);
#elif PART == 1
#define D_(T) REGISTER("divide rounding up " #T, (divide<std::T>), 0.5)
D_(int8_t); D_(int16_t); D_(int32_t); D_(int64_t); D_(uint8_t); D_(uint16_t); D_(uint32_t); D_(uint64_t);
R_("comparison chain", chain, 1); R_("integer ranges", ranges, 1); R_("order of cycles and integers", cycles_order, 1);
#elif PART == 2
R_("circular indexing", circular, 3); R_("circular indexing [0,1)", (circular_ct<0, 1>), 1); R_("circular indexing [0,7)", (circular_ct<0, 7>), 1);
R_("circular indexing [5,9)", (circular_ct<5, 9>), 1); R_("circular indexing [0,2^40)", (circular_ct<0, (1ULL << 40)>), 1);
#elif PART == 3
R_("integer range iterators", int_iter, 3);
#elif PART == 4
R_("circular integer range iterators", circ_iter, 3);
#else
R_("filtered integer range iterators", filtered, 3);
#endif
}  // namespace
