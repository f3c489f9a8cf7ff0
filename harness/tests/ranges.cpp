// C20: std algorithms, range adaptors and inserters give on these containers what they give on the std ones. -DPART=0..3
#include "../modes.hpp"
#include "configs.hpp"

#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <numeric>
#include <random>
#include <ranges>
#include <set>
#include <span>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace fc = fixed_containers;
namespace rg = std::ranges;
namespace vw = std::views;
using pbt::Ctx;
using el::Big;
using el::TDtor;
using el::Trk;

enum class Seven { A, B, C, D, E, F, G };
template <class T>
inline constexpr bool PAIR = requires(const T& t) { t.first; t.second; };
template <class T>
int key(const T& t)
{
    if constexpr (PAIR<T>) return key(t.first) * 1000 + key(t.second);
    else if constexpr (std::is_same_v<T, Seven>) return static_cast<int>(t);
    else if constexpr (std::is_same_v<T, char>) return static_cast<unsigned char>(t);
    else return el::El<T>::key(t);
}
struct Key
{
    template <class T>
    int operator()(const T& t) const { return key(t); }
};
template <class T>
T make(int k)
{
    if constexpr (std::is_same_v<T, Seven>) return static_cast<Seven>(k % 7);
    else if constexpr (std::is_same_v<T, char>) return static_cast<char>(k * 2);
    else return el::El<T>::make(k);
}
struct Less
{
    template <class A, class B>
    bool operator()(const A& a, const B& b) const { return key(a) < key(b); }
};
struct LessTens  // equivalence classes, to see stability
{
    template <class A, class B>
    bool operator()(const A& a, const B& b) const { return key(a) / 10 < key(b) / 10; }
};
struct Same
{
    template <class A, class B>
    bool operator()(const A& a, const B& b) const { return key(a) == key(b); }
};

struct Params
{
    std::size_t op, k, k2, how;
    int v, mod;
    unsigned seed;
};
using Out = std::vector<long>;
template <class R>
void dump(Out& out, R&& r)
{
    out.push_back(-1);
    for (auto&& e : r) out.push_back(key(e));
    out.push_back(-2);
}

inline constexpr std::size_t READ_OPS = 26;
// Reads only. R may be const. Positions are reported as distances from the beginning.
template <class R>
void reading(const Params& p, R& r, Out& out)
{
    using std::begin;
    auto b = r.begin(), e = r.end();
    const auto n = static_cast<std::size_t>(std::distance(b, e));
    const auto k = static_cast<std::ptrdiff_t>(n == 0 ? 0 : p.k % (n + 1));
    auto at = [&](auto it) { out.push_back(static_cast<long>(std::distance(b, it))); };
    auto is = [&](auto&& t) { return key(t) == p.v; };
    auto odd = [&](auto&& t) { return key(t) % p.mod == 0; };
    switch (p.op % READ_OPS)
    {
    case 0: at(std::find_if(b, e, is)); at(rg::find_if(r, is)); break;
    case 1: at(std::max_element(b, e, Less{})); at(rg::max_element(r, {}, Key{})); break;
    case 2: at(std::min_element(b, e, Less{})); at(rg::min_element(r, {}, Key{})); break;
    case 3: out.push_back(std::count_if(b, e, odd)); out.push_back(rg::count_if(r, odd)); break;
    case 4: at(std::adjacent_find(b, e, Same{})); break;
    case 5: at(std::is_sorted_until(b, e, Less{})); at(rg::is_sorted_until(r, {}, Key{})); break;
    case 6: out.push_back(std::accumulate(b, e, 0L, [](long s, auto&& t) { return s * 31 % 1000003 + key(t); })); break;
    case 7:
    {
        auto [mn, mx] = std::minmax_element(b, e, Less{});
        at(mn);
        at(mx);
        break;
    }
    case 8: dump(out, r | vw::filter(odd)); break;
    case 9: for (const int x : r | vw::transform(Key{})) out.push_back(x); break;
    case 10: dump(out, r | vw::drop(k) | vw::take(static_cast<std::ptrdiff_t>(p.k2))); break;
    case 11: dump(out, r | vw::take_while([&](auto&& t) { return key(t) != p.v; })); break;
    case 12: dump(out, r | vw::drop_while([&](auto&& t) { return key(t) != p.v; })); break;
    case 13:
        if constexpr (rg::bidirectional_range<R>)
        {
            dump(out, r | vw::reverse);
            dump(out, r | vw::reverse | vw::drop(k) | vw::reverse);
            dump(out, r | vw::filter(odd) | vw::reverse);
        }
        break;
    case 14: dump(out, rg::subrange(std::next(b, k), e)); break;
    case 15: out.push_back(static_cast<long>(rg::distance(r))); out.push_back(static_cast<long>(rg::size(r))); out.push_back(rg::empty(r)); break;
    case 16:
        if constexpr (rg::bidirectional_range<R>)
        {
            auto rb = r.rbegin();
            out.push_back(static_cast<long>(std::distance(rb, std::find_if(rb, r.rend(), is))));
            dump(out, rg::subrange(r.rbegin(), r.rend()));
        }
        break;
    case 17:
        if constexpr (rg::random_access_range<R>)
        {
            at(std::lower_bound(b, e, p.v, [](auto&& t, int v) { return key(t) < v; }));
            at(rg::partition_point(r, [&](auto&& t) { return key(t) < p.v; }));
            if (n > 0) out.push_back(key((r | vw::reverse)[static_cast<std::ptrdiff_t>(p.k2 % n)]));
        }
        break;
    case 18:
    {
        const auto f = std::next(b, k);
        at(std::search(b, e, f, e, Same{}));
        if constexpr (rg::bidirectional_range<R>) at(std::find_end(b, e, f, e, Same{}));
        break;
    }
    case 19: out.push_back(std::equal(b, e, b, e, Same{})); out.push_back(std::is_permutation(b, e, b, e, Same{})); break;
    case 20: out.push_back(std::lexicographical_compare(std::next(b, k), e, b, e, Less{})); break;
    case 21: dump(out, vw::counted(b, k)); break;
    case 22:
    {
        auto [i, j] = std::mismatch(b, e, std::next(b, k), e, Same{});
        at(i);
        at(j);
        break;
    }
    case 23:
        if constexpr (rg::bidirectional_range<R>)
        {
            auto it = rg::next(b, k);
            at(rg::prev(it, k));
            at(rg::next(b, static_cast<std::ptrdiff_t>(p.k2), e));
            at(rg::prev(e, static_cast<std::ptrdiff_t>(p.k2), b));
        }
        break;
    case 24: out.push_back(std::all_of(b, e, odd) * 4 + std::any_of(b, e, odd) * 2 + std::none_of(b, e, odd)); break;
    default:
        if constexpr (rg::forward_range<R>)
        {
            // two positions of one multi-pass range, moved in turn
            auto i = b, j = b;
            while (i != e)
            {
                out.push_back(key(*i));
                ++i;
                if (i != e) ++i;
                out.push_back(key(*j++));
            }
        }
        break;
    }
}

inline constexpr std::size_t WRITE_OPS = 27;
// Rearranges or overwrites the elements
template <class T, class R>
void writing(const Params& p, R& r, Out& out)
{
    auto b = r.begin(), e = r.end();
    const auto n = static_cast<std::size_t>(std::distance(b, e));
    const auto k = static_cast<std::ptrdiff_t>(p.k % (n + 1));
    auto at = [&](auto it) { out.push_back(static_cast<long>(std::distance(r.begin(), it))); };
    auto odd = [&](auto&& t) { return key(t) % p.mod == 0; };
    constexpr bool RA = rg::random_access_range<R>;
    const std::size_t op = p.op % WRITE_OPS;
    auto cut = [&](auto it)  // what lies behind is unspecified: give it a value
    {
        at(it);
        for (; it != r.end(); ++it) *it = make<T>(1);
    };
    if constexpr (RA)
    {
        switch (op)
        {
        case 0: std::sort(b, e, Less{}); break;
        case 1: rg::sort(r, {}, Key{}); break;
        case 2: std::stable_sort(b, e, LessTens{}); break;
        case 3: std::sort(r.rbegin(), r.rend(), Less{}); break;
        case 4:
            std::nth_element(b, b + (n == 0 ? 0 : k % static_cast<std::ptrdiff_t>(n)), e, Less{});
            if (n > 0) out.push_back(key(r[static_cast<std::size_t>(k) % n]));
            std::sort(b, e, Less{});
            break;
        case 5:
            std::partial_sort(b, b + k, e, Less{});
            dump(out, rg::subrange(b, b + k));
            std::sort(b, e, Less{});
            break;
        case 6:
            std::make_heap(b, e, Less{});
            out.push_back(std::is_heap(b, e, Less{}));
            std::sort_heap(b, e, Less{});
            break;
        case 7:
        {
            std::minstd_rand g(p.seed);
            std::shuffle(b, e, g);
            break;
        }
        case 8: rg::stable_sort(r | vw::drop(k), {}, Key{}); break;
        case 9: rg::sort(r | vw::reverse, {}, Key{}); break;
        default: break;
        }
    }
    switch (op)
    {
    case 10: std::reverse(b, e); break;
    case 11: rg::reverse(r | vw::drop(k)); break;
    case 12: at(std::rotate(b, std::next(b, k), e)); break;
    case 13: at(rg::rotate(r, std::next(b, k)).begin()); break;
    case 14: cut(std::remove_if(b, e, odd)); break;
    case 15: cut(std::unique(b, e, Same{})); break;
    case 16: at(std::stable_partition(b, e, odd)); break;
    case 17: std::replace_if(b, e, odd, make<T>(p.v)); break;
    case 18: std::transform(b, e, b, [](const T& t) { return make<T>((key(t) * 7 + 3) % 100); }); break;
    case 19: std::fill(b, std::next(b, k), make<T>(p.v)); break;
    case 20: out.push_back(std::next_permutation(b, e, Less{})); break;
    case 21: out.push_back(std::prev_permutation(b, e, Less{})); break;
    case 22:
    {
        const auto half = std::next(b, static_cast<std::ptrdiff_t>(n / 2));
        std::swap_ranges(b, half, std::next(b, static_cast<std::ptrdiff_t>(n - n / 2)));
        break;
    }
    case 23: if (n > 0) std::copy_backward(b, std::next(b, static_cast<std::ptrdiff_t>(n - 1)), e); break;
    case 24: if (n > 0) std::copy(std::next(b), e, b); break;
    case 25:
    {
        if (n == 0) break;
        std::iter_swap(std::next(b, static_cast<std::ptrdiff_t>(p.k % n)), std::next(b, static_cast<std::ptrdiff_t>(p.k2 % n)));
        rg::iter_swap(std::next(b, static_cast<std::ptrdiff_t>(p.k2 % n)), r.begin());
        break;
    }
    case 26:
    {
        int v = p.v;
        std::generate(std::next(b, k), e, [&] { return make<T>((v += 13) % 100); });
        for (auto&& t : r | vw::filter(odd)) t = make<T>(p.v);
        break;
    }
    default: break;
    }
}

static Params draw(Ctx& c, std::size_t n)
{
    Params p{};
    p.op = c.below(1000);
    p.k = c.edge(n + 1);
    p.k2 = c.edge(n + 2);
    p.v = static_cast<int>(c.below(100));
    p.mod = 2 + static_cast<int>(c.below(3));
    p.seed = 1 + static_cast<unsigned>(c.below(1000));
    return p;
}
static std::string show(const Out& o)
{
    std::string s;
    for (const long v : o) s += " " + std::to_string(v);
    return s;
}
#define AGREE(what, ...)                                                                                                                     \
    CHECK(c, got == want, what " (operation %zu, k %zu, k2 %zu, v %d, mod %d) gives%s, expected%s", __VA_ARGS__ p.k, p.k2, p.v, p.mod, show(got).c_str(), show(want).c_str())

// ------------------------------------------------------------------------------------------------ concepts
template <class F, class S>
void concepts(Ctx& c)
{
#define SAME(X) CHECK(c, (X<F>) == (X<S>), #X " does not hold as it does for the std container"); CHECK(c, (X<const F>) == (X<const S>), #X " (const) does not hold as it does for the std container")
    SAME(rg::input_range);
    SAME(rg::forward_range);
    SAME(rg::bidirectional_range);
    SAME(rg::random_access_range);
    SAME(rg::sized_range);
    SAME(rg::common_range);
    CHECK(c, !rg::contiguous_range<S> || rg::contiguous_range<F>, "not contiguous");
    CHECK(c, !rg::contiguous_range<const S> || rg::contiguous_range<const F>, "const: not contiguous");
    using I = rg::iterator_t<F>;
    using K = rg::iterator_t<const F>;
    CHECK(c, (std::is_convertible_v<I, K>), "iterator does not convert to const_iterator");
    CHECK(c, (std::is_same_v<I, K> || !std::is_convertible_v<K, I>), "const_iterator converts to iterator");
    CHECK(c, (std::is_same_v<K, typename F::const_iterator> && std::is_same_v<I, typename F::iterator>), "begin() and the iterator types disagree");
    CHECK(c, (std::sentinel_for<K, I> && std::sentinel_for<I, K>), "iterator and const_iterator are not comparable");
    CHECK(c, std::default_initializable<I> && std::copyable<I>, "iterator is not regular");
    if constexpr (!PAIR<typename F::value_type>)
    {
        CHECK(c, (std::is_same_v<rg::range_reference_t<F>, rg::range_reference_t<S>> || PAIR<rg::range_value_t<F>>), "reference type differs from the std container's");
        CHECK(c, (std::is_same_v<rg::range_value_t<F>, rg::range_value_t<S>>), "value type differs from the std container's");
        CHECK(c, (!std::is_assignable_v<rg::range_reference_t<const F>, rg::range_value_t<F>>), "elements can be assigned through a const container");
    }
#undef SAME
}

// ------------------------------------------------------------------------------------------------ sequences
template <class F, class S, std::size_t N>
void seq(Ctx& c)
{
    using T = typename F::value_type;
    el::Registry::reset();
    concepts<F, S>(c);
    mode::Block<F> blk(c);
    F* x = new (blk.mem) F();
    S m;
    if constexpr (requires { x->pop_front(); x->push_front(make<T>(1)); })
    {
        // a random place in the storage
        const std::size_t off = c.below(2 * N + 1);
        for (std::size_t i = 0; i < off; i++)
        {
            x->push_back(make<T>(0));
            x->pop_front();
        }
    }
    const std::size_t n = c.edge(N);
    for (std::size_t i = 0; i < n; i++)
    {
        const int v = static_cast<int>(c.below(c.chance(1, 2) ? 100 : 6));
        x->push_back(make<T>(v));
        m.push_back(make<T>(v));
    }
    auto l = c.loop(20);
    std::size_t n_ops = 0;
    while (c.more(l))
    {
        c.ops();
        ++n_ops;
        const Params p = draw(c, m.size());
        Out got, want;
        const std::size_t what = c.below(8);
        if (what < 3)
        {
            NOTE(c, "reading %zu", p.op % READ_OPS);
            if (c.chance(1, 2))
            {
                reading(p, std::as_const(*x), got);
                reading(p, std::as_const(m), want);
            }
            else
            {
                reading(p, *x, got);
                reading(p, m, want);
            }
            AGREE("reading", p.op % READ_OPS,);
        }
        else if (what < 7)
        {
            NOTE(c, "writing %zu", p.op % WRITE_OPS);
            writing<T>(p, *x, got);
            writing<T>(p, m, want);
            AGREE("writing", p.op % WRITE_OPS,);
        }
        else
        {
            std::vector<T> add;
            const std::size_t k = c.below(N - m.size() + 1);
            for (std::size_t i = 0; i < k; i++) add.push_back(make<T>(static_cast<int>(c.below(100))));
            std::size_t how = c.below(4);
            NOTE(c, "inserter %zu", how);
            if (how == 1)
            {
                if constexpr (requires { x->push_front(make<T>(1)); m.push_front(make<T>(1)); })
                {
                    std::copy(add.begin(), add.end(), std::front_inserter(*x));
                    std::copy(add.begin(), add.end(), std::front_inserter(m));
                }
                else how = 0;
            }
            if (how == 2)
            {
                const auto at = static_cast<std::ptrdiff_t>(p.k % (m.size() + 1));
                std::copy(add.begin(), add.end(), std::inserter(*x, std::next(x->begin(), at)));
                std::copy(add.begin(), add.end(), std::inserter(m, std::next(m.begin(), at)));
            }
            if (how == 3)
            {
                std::vector<T> also = add;
                rg::move(add | vw::reverse, std::back_inserter(*x));
                std::reverse_copy(also.begin(), also.end(), std::back_inserter(m));
            }
            if (how == 0)
            {
                std::copy(add.begin(), add.end(), std::back_inserter(*x));
                std::copy(add.begin(), add.end(), std::back_inserter(m));
            }
        }
        got.clear();
        want.clear();
        dump(got, *x);
        dump(want, m);
        AGREE("the contents afterwards", p.op,);
    }
    if (n_ops >= 2 && n >= 2) c.nontrivial();
    x->~F();
}

// ------------------------------------------------------------------------------------------------ maps and sets
template <class F, class S, std::size_t N, int UNIVERSE, bool ORDERED>
void assoc(Ctx& c)
{
    using V = typename F::value_type;
    concepts<F, S>(c);
    mode::Block<F> blk(c);
    F* x = new (blk.mem) F();
    S m;
    std::size_t n_ops = 0;
    auto l = c.loop(20);
    std::size_t most = 0;
    while (c.more(l))
    {
        c.ops();
        ++n_ops;
        const int k = static_cast<int>(c.below(UNIVERSE));
        const Params p = draw(c, m.size());
        Out got, want;
        const std::size_t what = c.below(8);
        if (what < 4)
        {
            using KT = typename F::key_type;
            if (m.count(make<KT>(k)) != 0 || m.size() == N)
            {
                x->erase(make<KT>(k));
                m.erase(make<KT>(k));
            }
            else if constexpr (requires { typename F::mapped_type; })
            {
                const int v = static_cast<int>(c.below(100));
                x->try_emplace(make<KT>(k), make<typename F::mapped_type>(v));
                m.try_emplace(make<KT>(k), make<typename F::mapped_type>(v));
            }
            else
            {
                x->insert(make<KT>(k));
                m.insert(make<KT>(k));
            }
        }
        else if (what == 4)
        {
            if constexpr (!requires { typename F::mapped_type; } && ORDERED)
            {
                // set algebra through inserters
                S o;
                for (std::size_t i = 0; i < std::min(p.k2, N); i++) o.insert(make<V>(static_cast<int>(c.below(UNIVERSE))));
                F fo(o.begin(), o.end());
                F r{};
                S s;
                switch (c.below(3))
                {
                case 0:
                    std::set_intersection(x->begin(), x->end(), fo.begin(), fo.end(), std::inserter(r, r.begin()));
                    std::set_intersection(m.begin(), m.end(), o.begin(), o.end(), std::inserter(s, s.begin()));
                    break;
                case 1:
                    std::set_difference(x->begin(), x->end(), fo.begin(), fo.end(), std::inserter(r, r.end()));
                    std::set_difference(m.begin(), m.end(), o.begin(), o.end(), std::inserter(s, s.end()));
                    break;
                default:
                    got.push_back(std::includes(x->begin(), x->end(), fo.begin(), fo.end()));
                    want.push_back(std::includes(m.begin(), m.end(), o.begin(), o.end()));
                    break;
                }
                dump(got, r);
                dump(want, s);
                AGREE("set algebra", p.op,);
            }
        }
        else if (ORDERED)
        {
            NOTE(c, "reading %zu", p.op % READ_OPS);
            if constexpr (ORDERED)
            {
                if (c.chance(1, 2)) reading(p, std::as_const(*x), got);
                else reading(p, *x, got);
                reading(p, std::as_const(m), want);
                AGREE("reading", p.op % READ_OPS,);
            }
        }
        else
        {
            // any order, but one order
            const F& cx = *x;
            Out g2;
            for (auto&& e : cx | vw::filter([&](auto&& t) { return key(t) % p.mod == 0; })) got.push_back(key(e));
            for (const int v : *x | vw::transform(Key{}))
            {
                if (v % p.mod == 0) g2.push_back(v);
            }
            CHECK(c, got == g2, "two traversals differ");
            for (auto&& e : m)
            {
                if (key(e) % p.mod == 0) want.push_back(key(e));
            }
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            AGREE("filtered elements", p.mod + std::size_t{0},);
            const auto bad = std::find_if(cx.begin(), cx.end(), [&](auto&& t) { return key(t) == p.v; });
            CHECK(c, (bad == cx.end()) == std::none_of(m.begin(), m.end(), [&](auto&& t) { return key(t) == p.v; }), "find_if(%d) is wrong", p.v);
            CHECK(c, rg::distance(cx) == static_cast<std::ptrdiff_t>(m.size()), "distance is wrong");
        }
        most = std::max(most, m.size());
        got.clear();
        want.clear();
        for (auto&& e : *x) got.push_back(key(e));
        for (auto&& e : m) want.push_back(key(e));
        if (!ORDERED)
        {
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
        }
        AGREE("the contents afterwards", p.op,);
    }
    if (n_ops >= 2 && most >= 2) c.nontrivial();
    x->~F();
}
// a complete array over an enum
static void array_test(Ctx& c)
{
    using F = fc::EnumArray<Seven, int>;
    using S = std::array<int, 7>;
    concepts<F, S>(c);
    F x{};
    S m{};
    for (std::size_t i = 0; i < 7; i++) x[static_cast<Seven>(i)] = m[i] = static_cast<int>(c.below(20));
    auto l = c.loop(20);
    std::size_t n_ops = 0;
    while (c.more(l))
    {
        c.ops();
        ++n_ops;
        const Params p = draw(c, 7);
        Out got, want;
        if (c.chance(1, 2))
        {
            reading(p, std::as_const(x), got);
            reading(p, std::as_const(m), want);
        }
        else
        {
            std::span<int> sx(x.begin(), x.end()), sm(m);
            writing<int>(p, sx, got);
            writing<int>(p, sm, want);
        }
        AGREE("operation", p.op,);
        dump(got, x);
        dump(want, m);
        AGREE("the contents afterwards", p.op,);
    }
    if (n_ops >= 2) c.nontrivial();
}

#if PART == 0
REGISTER("vector<int,9>", (seq<fc::FixedVector<int, 9>, std::vector<int>, 9>), 1);
REGISTER("vector<TDtor,6>", (seq<fc::FixedVector<TDtor, 6>, std::vector<TDtor>, 6>), 1);
REGISTER("string<12>", (seq<fc::FixedString<12>, std::string, 12>), 1);
REGISTER("enum array", array_test, 0.5);
#elif PART == 1
REGISTER("deque<int,9>", (seq<fc::FixedDeque<int, 9>, std::deque<int>, 9>), 1);
REGISTER("deque<Trk,7>", (seq<fc::FixedDeque<Trk, 7>, std::deque<Trk>, 7>), 1);
#elif PART == 2
REGISTER("circular deque<TDtor,8>", (seq<fc::FixedCircularDeque<TDtor, 8>, std::deque<TDtor>, 8>), 1);
REGISTER("list<int,9>", (seq<fc::FixedList<int, 9>, std::list<int>, 9>), 1);
REGISTER("list<Trk,6>", (seq<fc::FixedList<Trk, 6>, std::list<Trk>, 6>), 1);
#else
REGISTER("set<int,9>", (assoc<fc::FixedSet<int, 9>, std::set<int>, 9, 14, true>), 1);
REGISTER("map<int,int,9>", (assoc<fc::FixedMap<int, int, 9>, std::map<int, int>, 9, 14, true>), 1);
REGISTER("unordered set<int,9>", (assoc<fc::FixedUnorderedSet<int, 9>, std::unordered_set<int>, 9, 14, false>), 0.5);
REGISTER("unordered map<int,int,9>", (assoc<fc::FixedUnorderedMap<int, int, 9>, std::unordered_map<int, int>, 9, 14, false>), 0.5);
REGISTER("enum set", (assoc<fc::EnumSet<Seven>, std::set<Seven>, 7, 7, true>), 0.5);
REGISTER("enum map", (assoc<fc::EnumMap<Seven, int>, std::map<Seven, int>, 7, 7, true>), 0.5);
#endif
