// Unordered set/map with the default hash over many key types; -DMAPS=0|1, -DPART=0..1
#include "../modes.hpp"

#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"

#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
using namespace pbt;
namespace fc = fixed_containers;

namespace
{
// Exactly-sized heap copy of some characters, so that reading past the end is seen
template <class Ch>
struct Exact
{
    Ch* p;
    std::size_t n;
    explicit Exact(const std::basic_string<Ch>& s) : p(new Ch[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p); }
    Exact(const Exact&) = delete;
    ~Exact() { delete[] p; }
};

template <class Ch>
std::basic_string<Ch> draw_str(Ctx& c, std::size_t max)
{
    // few distinct strings, of every length class of the hash (0, 1-3, 4-16, 17-48, >48), differing in single positions
    static constexpr std::size_t lens[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 144, 145, 200};
    std::size_t n = lens[c.below(std::size(lens))];
    if (n > max) n = max;
    std::basic_string<Ch> s(n, Ch('a'));
    if (n > 0)
    {
        const std::size_t at = c.chance(1, 2) ? c.below(n) : (c.chance(1, 2) ? 0 : n - 1);
        s[at] = static_cast<Ch>(c.chance(1, 4) ? 0 : 'a' + c.below(3));
    }
    return s;
}

enum class Neg : signed char
{
    A = -128,
    B = -1,
    C = 0,
    D = 127
};

template <class K>
struct Gen;
template <>
struct Gen<double>
{
    static double draw(Ctx& c)
    {
        static const double v[] = {0.0, -0.0, 1.0, -1.0, 0.5, -1.5, 1e300, -1e300, std::numeric_limits<double>::infinity(),
                                   -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min(), 4294967296.0, 18446744073709551616.0, -7.25};
        return v[c.below(std::size(v))];
    }
};
template <>
struct Gen<float>
{
    static float draw(Ctx& c)
    {
        const double d = Gen<double>::draw(c);
        return std::abs(d) > 1e38 ? (d > 0 ? 1e38F : -1e38F) : static_cast<float>(d);
    }
};
template <>
struct Gen<long double>
{
    static long double draw(Ctx& c) { return Gen<double>::draw(c); }
};
template <>
struct Gen<std::string>
{
    static std::string draw(Ctx& c) { return draw_str<char>(c, 300); }
};
template <>
struct Gen<std::u16string>
{
    static std::u16string draw(Ctx& c) { return draw_str<char16_t>(c, 300); }
};
template <>
struct Gen<long>
{
    static long draw(Ctx& c)
    {
        static constexpr long v[] = {0, 1, -1, std::numeric_limits<long>::min(), std::numeric_limits<long>::max(), 1L << 32, -(1L << 32), 256, 255, 1L << 56, 5};
        return v[c.below(std::size(v))];
    }
};
template <>
struct Gen<bool>
{
    static bool draw(Ctx& c) { return c.below(2) != 0; }
};
template <>
struct Gen<char>
{
    static char draw(Ctx& c) { return static_cast<char>(c.below(256)); }
};
template <>
struct Gen<Neg>
{
    static Neg draw(Ctx& c)
    {
        static constexpr Neg v[] = {Neg::A, Neg::B, Neg::C, Neg::D};
        return v[c.below(4)];
    }
};
static int g_objs[24];
template <>
struct Gen<int*>
{
    static int* draw(Ctx& c) { return c.chance(1, 20) ? nullptr : &g_objs[c.below(24)]; }
};
template <>
struct Gen<std::shared_ptr<int>>
{
    static std::shared_ptr<int> draw(Ctx& c)
    {
        static std::shared_ptr<int> v[12];
        auto& p = v[c.below(12)];
        if (!p && c.chance(3, 4)) p = std::make_shared<int>(1);
        return p;
    }
};

template <class C, class K>
void history(Ctx& c)
{
    constexpr std::size_t cap = C::static_max_size();
    constexpr bool MAP = MAPS != 0;
    C x{};
    std::vector<std::pair<K, int>> m;  // linear search model by ==
    auto find = [&](const K& k) { return std::find_if(m.begin(), m.end(), [&](const auto& e) { return e.first == k; }); };
    auto l = c.loop(60);
    int n = 0;
    while (c.more(l))
    {
        ++n;
        c.ops();
        const K k = Gen<K>::draw(c);
        const auto f = find(k);
        const auto xf = x.find(k);
        CHECK(c, (xf != x.end()) == (f != m.end()), "find() disagrees with linear search by ==");
        CHECK(c, x.contains(k) == (f != m.end()), "contains() disagrees with linear search by ==");
        if (c.chance(1, 3))
        {
            NOTE(c, "erase a %s key", f != m.end() ? "present" : "absent");
            const std::size_t r = x.erase(k);
            CHECK(c, r == (f != m.end() ? 1u : 0u), "erase(key) returned %zu", r);
            if (f != m.end()) m.erase(f);
        }
        else if (m.size() < cap || f != m.end())
        {
            NOTE(c, "insert a %s key", f != m.end() ? "present" : "new");
            bool ins = false;
#if MAPS
            ins = x.try_emplace(k, n).second;
#else
            ins = x.insert(k).second;
#endif
            CHECK(c, ins == (f == m.end()), "insert reported inserted=%d", static_cast<int>(ins));
            if (ins) m.emplace_back(k, n);
        }
        CHECK(c, x.size() == m.size(), "size() is %zu, expected %zu", x.size(), m.size());
        std::size_t seen = 0;
        for (auto it = x.begin(); it != x.end(); ++it)
        {
            ++seen;
#if MAPS
            const auto g = find((*it).first);
            CHECK(c, g != m.end() && g->second == (*it).second, "iteration visits a wrong pair");
#else
            CHECK(c, find(*it) != m.end(), "iteration visits a key that is not there");
#endif
        }
        CHECK(c, seen == m.size(), "iteration visits %zu of %zu", seen, m.size());
        for (const auto& e : m) CHECK(c, x.contains(e.first), "a contained key is not found");
    }
    (void)MAP;
    if (n >= 4) c.nontrivial();
}

// The default hash of equal keys is equal, through every representation
template <class Ch>
void agree(Ctx& c)
{
    std::basic_string<Ch> s(c.edge(210), Ch('a'));
    for (auto& ch : s) ch = static_cast<Ch>(c.chance(1, 8) ? c.below(256) : 'a');
    const Exact<Ch> e(s);
    const std::basic_string_view<Ch> v(e.p, e.n);
    const auto h1 = fc::wyhash::hash<std::basic_string<Ch>>{}(s);
    const auto h2 = fc::wyhash::hash<std::basic_string_view<Ch>>{}(v);
    CHECK(c, h1 == h2, "hash of a string of %zu characters differs from the hash of an equal string view", s.size());
    std::basic_string<Ch> big(c.below(9), Ch('x'));
    const std::size_t off = big.size();
    big += s;
    const std::basic_string_view<Ch> w(big.data() + off, s.size());
    CHECK(c, fc::wyhash::hash<std::basic_string_view<Ch>>{}(w) == h1, "hash depends on where the characters lie (length %zu, offset %zu)", s.size(), off);
    if (!s.empty()) c.nontrivial();
}
#if MAPS
template <class K, std::size_t N>
using X = fc::FixedUnorderedMap<K, int, N>;
#else
template <class K, std::size_t N>
using X = fc::FixedUnorderedSet<K, N>;
#endif
}  // namespace
#define H(K, N) REGISTER("default hash, key " #K, (history<X<K, N>, K>), 0.4)
#if PART == 0
H(double, 9);
H(std::string, 12);
H(long, 10);
H(bool, 2);
H(Neg, 3);
H(std::shared_ptr<int>, 8);
#else
H(float, 6);
H(long double, 7);
H(std::u16string, 9);
H(char, 40);
H(int*, 16);
REGISTER("hash agreement char", agree<char>, 0.3);
REGISTER("hash agreement char16_t", agree<char16_t>, 0.2);
#endif
