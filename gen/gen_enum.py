"""Generated enum definitions (plain, rich, rich without default constructor, lite with a user-given order), with the expected
list of values, names and ordinals computed here."""
import string

TYPES = {  # name -> (min, max)
    "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1),
    "int": (-2**31, 2**31 - 1), "unsigned": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1),
    "char": (-128, 127), "bool": (0, 1), "std::int8_t": (-128, 127), "std::uint64_t": (0, 2**64 - 1),
}
KEYWORDS = {"INVALID"}


def _name(rng, used):
    """Names that are prefixes, extensions and case variants of each other on purpose"""
    while True:
        if used and rng.random() < 0.4:
            b = rng.choice(sorted(used))
            how = rng.randrange(4)
            n = b + rng.choice("xX_0") if how == 0 else b[:-1] if how == 1 else b.swapcase() if how == 2 else b[0] + b
        else:
            n = "Q" + "".join(
                rng.choice(string.ascii_letters + string.digits + "_") for _ in range(rng.choice([0, 1, 1, 2, 5, 20])))
        n = n if n[:1] == "Q" else "Q" + n  # no macro and no name used below starts with Q
        if n not in used and not n.startswith("__") and "__" not in n and n not in KEYWORDS and len(n) < 60:
            return n


def make(rng, size):
    kind = rng.choice(["plain", "plain", "rich", "rich", "ndc", "lite"])
    under = rng.choice(sorted(TYPES))
    lo, hi = TYPES[under]
    if kind in ("rich", "ndc", "lite") and under != "bool":
        hi -= 1  # the largest value is reserved by rich enums
    if kind != "lite" and under != "bool":
        lo, hi = max(lo, -128), min(hi, 127)  # magic_enum's range
    n = min(hi - lo + 1, rng.choice([1, 2, 3, 4, 5, 8, 13, int(1 + 30 * size)]))
    if kind == "plain" and rng.random() < 0.05:
        n = 0
    shape = rng.choice(["dense0", "dense0", "dense", "sparse", "edges"])
    if n == 0:
        vals = []
    elif shape == "dense0" and hi - max(lo, 0) + 1 >= n:
        vals = list(range(max(lo, 0), max(lo, 0) + n))
    elif shape == "dense":
        s = rng.randint(lo, hi - n + 1)
        vals = list(range(s, s + n))
    else:
        pool = set()
        while len(pool) < n:
            v = rng.choice([lo, hi, 0, 1, n - 1, n, n + 1, -1, lo + 1, hi - 1]) if rng.random() < 0.5 or shape == "edges" and \
                rng.random() < 0.5 else rng.randint(lo, hi)
            if len(pool) + 1 >= hi - lo:
                v = next(x for x in range(lo, hi + 1) if x not in pool)
            if rng.random() < 0.3:
                v = rng.randint(lo, min(hi, lo + 2 * n + 4))
            if lo <= v <= hi:
                pool.add(v)
        vals = sorted(pool)
    if rng.random() < 0.6:
        rng.shuffle(vals)
    used, names = set(), []
    for _ in vals:
        x = _name(rng, used)
        used.add(x)
        names.append(x)
    order = list(range(n))
    if kind == "lite":
        rng.shuffle(order)
    probes = []
    for x in names[:6] + ["A"]:
        probes += [x[:-1], x[1:], x + "x", x + " ", " " + x, x.swapcase(), x + "::" + x]
    probes += ["", "INVALID", "0", "C::" + (names[0] if names else "A")]
    lo2, hi2 = TYPES[under]
    pv = {lo2, hi2, 0, 1, n - 1, n, n + 1, lo2 + 1, hi2 - 1, 127, 128, -128, -129, -1}
    for v in vals[:12]:
        pv |= {v - 1, v + 1, v}
    for _ in range(6):
        pv.add(rng.randint(lo2, hi2))
    pv = sorted(v for v in pv if lo2 <= v <= hi2)
    return {"kind": kind, "under": under, "scoped": rng.random() < 0.75, "consts": list(zip(names, vals)), "order": order,
            "names": [p for p in dict.fromkeys(probes) if p not in used], "vals": pv}


def lit(v, under):
    if under == "bool":
        return "true" if v else "false"
    if v == -2**63:
        return "(-9223372036854775807L - 1)"
    if v > 2**63 - 1:
        return f"{v}UL"
    return f"{v}L" if abs(v) >= 2**31 else f"({v})" if v < 0 else str(v)


def expected(item):
    """List of (name, value) in the order of values()"""
    c = [tuple(x) for x in item["consts"]]
    if item["kind"] == "lite":
        return [c[i] for i in item["order"]]
    return sorted(c, key=lambda x: x[1])


def one(k, it):
    under, kind = it["under"], it["kind"]
    c = [tuple(x) for x in it["consts"]]
    exp = expected(it)
    n = len(exp)
    o = [f"namespace g{k} {{"]
    o.append(f"enum {'class ' if it['scoped'] else ''}B : {under} {{ " + ", ".join(f"{a} = {lit(b, under)}" for a, b in c) + " };")
    if kind in ("rich", "ndc"):
        base = "SkeletalRichEnum" if kind == "rich" else "NonDefaultConstructibleSkeletalRichEnum"
        o.append(f"class R : public fixed_containers::rich_enums::{base}<R, B> {{ friend {base}::ValuesFriend; using {base}::{base}; public:")
        for a, _ in c:
            o.append(f"  FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(R, {a})")
        o.append("};")
    elif kind == "lite":
        o.append("class R : public fixed_containers::rich_enums::SkeletalRichEnumLite<R, B> {")
        o.append("  using SkeletalRichEnumLite::SkeletalRichEnumLite; friend class RV; public:")
        o.append("  constexpr R() noexcept = default;")
        o.append(f"  static constexpr std::size_t count() {{ return {n}; }}")
        o.append(f"  static constexpr const std::array<R, {n}>& values();")
        o.append("  [[nodiscard]] constexpr std::size_t ordinal() const {")
        for i, (a, _) in enumerate(exp):
            o.append(f"    if (backing_enum() == B::{a}) return {i};")
        o.append("    std::abort(); }")
        o.append("  [[nodiscard]] constexpr std::string_view to_string() const {")
        for a, _ in exp:
            o.append(f'    if (backing_enum() == B::{a}) return "{a}";')
        o.append("    std::abort(); }")
        for a, _ in c:
            o.append(f"  FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(R, {a})")
        o.append("};")
        o.append(f"class RV {{ friend class R; static constexpr std::array<R, {n}> V{{{{ " +
                 ", ".join(f"R{{B::{a}}}" for a, _ in exp) + "}}; };")
        o.append(f"constexpr const std::array<R, {n}>& R::values() {{ return RV::V; }}")
    o.append(f"static constexpr std::array<Exp<B>, {n}> EXP{{{{ " + ", ".join(f'{{"{a}", B::{a}}}' for a, _ in exp) + " }};")
    o.append(f"static constexpr std::array<std::string_view, {len(it['names'])}> NAMES{{{{ " +
             ", ".join('"%s"' % p for p in it["names"]) + " }};")
    o.append(f"static constexpr std::array<{under}, {len(it['vals'])}> VALS{{{{ " +
             ", ".join(f"static_cast<{under}>({lit(v, under)})" for v in it["vals"]) + " }};")
    if kind == "plain":
        o.append(f"void run() {{ plain<B>({k}, EXP); }}")
    else:
        o.append(f"void run() {{ rich<R, B>({k}, EXP, NAMES, VALS);")
        for i, (a, _) in enumerate(exp):
            o.append(f"  CK({k}, R::{a}().backing_enum() == B::{a}); CK({k}, R::{a}() == R::values()[{i}]);")
            o.append(f"  {{ constexpr auto x = R::{a}(); static_assert(x.ordinal() == {i}); static_assert(x.to_string() == \"{a}\"); }}")
        if kind != "ndc":
            o.append(f"  empty<R{', true' if kind == 'rich' else ', false'}>({k});")
        else:
            o.append("  static_assert(!std::is_default_constructible_v<R>);")
        if under == "bool" and n == 2:
            o.append(f"  negate<R>({k});")
        o.append("}")
    o.append("}")
    return "\n".join(o)


PRE = r'''
#include "fixed_containers/enum_utils.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <string_view>
#include <type_traits>
namespace re = fixed_containers::rich_enums;
static unsigned long n_checks = 0;
static int bad = 0;
#define CK(k, ...) do { ++n_checks; if (!(__VA_ARGS__)) { std::printf("FAIL %d line %d: %s\n", int(k), __LINE__, #__VA_ARGS__); bad = 1; } } while (0)
template <class B> struct Exp { std::string_view name; B val; };

template <class T, class B, std::size_t N, class Get> void adapter(int k, const std::array<Exp<B>, N>& exp, Get get)
{
    using A = re::EnumAdapter<T>;
    static_assert(re::has_enum_adapter<T>);
    static_assert(A::count() == N);
    static_assert(std::is_same_v<typename A::Enum, T>);
    static_assert(A::values().size() == N);
    CK(k, &A::values() == &A::values());
    if constexpr (N > 0)
    {
        for (std::size_t i = 0; i < N; i++)
        {
            CK(k, get(A::values()[i]) == exp[i].val);
            CK(k, A::ordinal(A::values()[i]) == i);
            CK(k, A::to_string(A::values()[i]) == exp[i].name);
        }
    }
}
template <class B, std::size_t N> void plain(int k, const std::array<Exp<B>, N>& exp)
{
    static_assert(re::is_enum<B> && !re::is_rich_enum<B>);
    adapter<B>(k, exp, [](B b) { return b; });
    if constexpr (N > 0)
    {
        for (std::size_t i = 0; i < N; i++) CK(k, re::EnumAdapter<B>::ordinal(exp[i].val) == i);
        fixed_containers::EnumMap<B, int> m{};
        fixed_containers::EnumSet<B> s{};
        for (std::size_t i = N; i-- > 0;) { m[exp[i].val] = int(i); s.insert(exp[i].val); }
        std::size_t i = 0;
        for (auto&& [key, v] : m) { CK(k, i < N && key == exp[i].val && v == int(i)); i++; }
        CK(k, i == N); i = 0;
        for (auto&& key : s) { CK(k, i < N && key == exp[i].val); i++; }
        CK(k, i == N);
    }
}
template <class R> using Opt = std::optional<R>;
template <class R, class B, std::size_t N, std::size_t M, class U, std::size_t V>
void rich(int k, const std::array<Exp<B>, N>& exp, const std::array<std::string_view, M>& names, const std::array<U, V>& vals)
{
    static_assert(re::is_rich_enum<R> && !re::is_enum<R>);
    static_assert(std::is_same_v<U, std::underlying_type_t<B>>);
    static_assert(std::is_trivially_copyable_v<R> && std::is_standard_layout_v<R>);
    static_assert(std::is_same_v<typename R::BackingEnum, B>);
    static_assert(R::count() == N);
    if constexpr (!std::is_same_v<U, bool>) static_assert(sizeof(R) == sizeof(B));
    adapter<R>(k, exp, [](const R& r) { return r.backing_enum(); });
    for (std::size_t i = 0; i < N; i++)
    {
        const R& r = R::values()[i];
        CK(k, r.has_value());
        CK(k, r.backing_enum() == exp[i].val);
        CK(k, static_cast<B>(r) == exp[i].val);
        CK(k, r.ordinal() == i);
        CK(k, r.to_string() == exp[i].name);
        CK(k, R::value_of(exp[i].name).has_value() && R::value_of(exp[i].name)->backing_enum() == exp[i].val);
        const std::string copy{exp[i].name};
        CK(k, R::value_of(std::string_view{copy}).has_value() && *R::value_of(std::string_view{copy}) == r);
        CK(k, R::value_of(exp[i].val).has_value() && *R::value_of(exp[i].val) == r);
        CK(k, R::value_of(static_cast<U>(exp[i].val)).has_value() && *R::value_of(static_cast<U>(exp[i].val)) == r);
        CK(k, std::hash<R>{}(r) == std::hash<B>{}(exp[i].val));
        R c = r;
        CK(k, c == r && c.ordinal() == i);
        for (std::size_t j = 0; j < N; j++)
        {
            const R& q = R::values()[j];
            CK(k, (r == q) == (i == j));
            CK(k, (r != q) == (i != j));
            CK(k, (r == q) == (r.backing_enum() == q.backing_enum()));
            c = q;
            CK(k, c == q && c.backing_enum() == exp[j].val);
        }
    }
    for (const auto& nm : names) CK(k, !R::value_of(nm).has_value());
    for (U v : vals)
    {
        std::size_t at = N;
        for (std::size_t i = 0; i < N; i++) if (static_cast<U>(exp[i].val) == v) at = i;
        const auto a = R::value_of(static_cast<B>(v));
        const auto b = R::value_of(v);
        CK(k, a.has_value() == (at < N));
        CK(k, b.has_value() == (at < N));
        if (at < N && a && b) { CK(k, *a == R::values()[at]); CK(k, *b == R::values()[at]); }
    }
    fixed_containers::EnumMap<R, int> m{};
    fixed_containers::EnumSet<R> s{};
    for (std::size_t i = N; i-- > 0;) { m[R::values()[i]] = int(i); s.insert(R::values()[i]); }
    std::size_t i = 0;
    for (auto&& [key, v] : m) { CK(k, i < N && key == R::values()[i] && v == int(i)); i++; }
    CK(k, i == N); i = 0;
    for (auto&& key : s) { CK(k, i < N && key == R::values()[i]); i++; }
    CK(k, i == N);
}
template <class R, bool NAMED> void empty(int k)
{
    constexpr R e{};
    CK(k, !e.has_value());
    CK(k, e == R{});
    if constexpr (NAMED) CK(k, e.to_string() == "INVALID");
    for (const R& r : R::values()) { CK(k, !(e == r)); CK(k, !(r == e)); CK(k, e != r); }
    R f = R::values()[0];
    f = e;
    CK(k, !f.has_value() && f == e);
    f = R::values()[R::count() - 1];
    CK(k, f.has_value() && f == R::values()[R::count() - 1]);
}
template <class R> void negate(int k)
{
    CK(k, !R::values()[0] == R::values()[1]);
    CK(k, !R::values()[1] == R::values()[0]);
}
'''


def render(items):
    out = [PRE]
    for k, it in enumerate(items):
        out.append(one(k, it))
    out.append("int main() {" + " ".join(f"g{k}::run();" for k in range(len(items))) +
               ' std::printf("COUNT %lu\\n", n_checks); return bad; }')
    return "\n".join(out)


def shrink(it):
    n = len(it["consts"])
    for i in range(n):
        if n > (2 if it["under"] == "bool" else 1):
            c = [x for j, x in enumerate(it["consts"]) if j != i]
            od = [j - (j > i) for j in it["order"] if j != i]
            keep = {x[0] for x in c}
            yield {**it, "consts": c, "order": od, "names": [p for p in it["names"] if p not in keep]}
    if len(it["names"]) > 1:
        yield {**it, "names": it["names"][: len(it["names"]) // 2]}
        yield {**it, "names": it["names"][len(it["names"]) // 2:]}
    if len(it["vals"]) > 1:
        yield {**it, "vals": it["vals"][: len(it["vals"]) // 2]}
        yield {**it, "vals": it["vals"][len(it["vals"]) // 2:]}
    if not it["scoped"]:
        yield {**it, "scoped": True}


def nontrivial(it):
    return len(it["consts"]) >= 2


def labels(it):
    v = [x[1] for x in it["consts"]]
    e = [x[1] for x in expected(it)]
    l = [it["kind"], it["under"]]
    if v and v != sorted(v):
        l.append("declared out of order")
    if e and e != list(range(len(e))):
        l.append("ordinal differs from value")
    if any(x < 0 for x in v):
        l.append("negative values")
    return l


def describe(it):
    return f"{it['kind']} enum {'class ' if it['scoped'] else ''}: {it['under']} {{ " + \
        ", ".join(f"{a}={b}" for a, b in it["consts"][:12]) + (" ..." if len(it["consts"]) > 12 else "") + " }"
