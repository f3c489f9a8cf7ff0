// Enum types of various shapes, with their enumerators listed independently of the library.
#pragma once
#include "driver_assoc.hpp"

#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/enum_utils.hpp"

#include <array>

namespace en
{
namespace re = fixed_containers::rich_enums;
enum class Dense : int { A, B, C, D, E, F, G };
enum class Sparse : int { P = -100, Q = -1, R = 0, S = 7, T = 8, U = 127 };
enum class Tiny : signed char { ONLY = -3 };
enum Unscoped : unsigned char { U0 = 3, U1 = 1, U2 = 200 > 127 ? 100 : 0, U3 = 50 };
enum class Wide : short
{
    W00, W01, W02, W03, W04, W05, W06, W07, W08, W09, W10, W11, W12, W13, W14, W15, W16, W17, W18, W19,
    W20, W21, W22, W23, W24, W25, W26, W27, W28, W29, W30, W31, W32, W33, W34, W35, W36, W37, W38, W39,
};
enum class RichBk : std::uint32_t { C_ONE = 19, C_FOUR = 25, C_TWO = 21, C_THREE = 23, C_ZERO = 0 };
class Rich : public re::SkeletalRichEnum<Rich, RichBk>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;

public:
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Rich, C_ONE)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Rich, C_TWO)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Rich, C_THREE)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Rich, C_FOUR)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Rich, C_ZERO)
};
enum class BoolBk : bool { NO = false, YES = true };
class RichBool : public re::SkeletalRichEnum<RichBool, BoolBk>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;

public:
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichBool, NO)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichBool, YES)
};
// not default constructible
enum class NdBk : signed char { M = -128, N = -1, O = 0, P = 5 };
class RichNd : public re::NonDefaultConstructibleSkeletalRichEnum<RichNd, NdBk>
{
    friend SkeletalRichEnum::ValuesFriend;
    using NonDefaultConstructibleSkeletalRichEnum::NonDefaultConstructibleSkeletalRichEnum;
};
// a type with a user-provided adapter whose order is not the order of the values
enum class Custom { X = 5, Y = 3, Z = 4 };

// T<E>::values: the enumerators in order; names
template <class E>
struct T;
template <>
struct T<Dense>
{
    static constexpr std::array values{Dense::A, Dense::B, Dense::C, Dense::D, Dense::E, Dense::F, Dense::G};
    static constexpr std::array<const char*, 7> names{"A", "B", "C", "D", "E", "F", "G"};
};
template <>
struct T<Sparse>
{
    static constexpr std::array values{Sparse::P, Sparse::Q, Sparse::R, Sparse::S, Sparse::T, Sparse::U};
    static constexpr std::array<const char*, 6> names{"P", "Q", "R", "S", "T", "U"};
};
template <>
struct T<Tiny>
{
    static constexpr std::array values{Tiny::ONLY};
    static constexpr std::array<const char*, 1> names{"ONLY"};
};
template <>
struct T<Unscoped>
{
    static constexpr std::array values{U1, U0, U3, U2};
    static constexpr std::array<const char*, 4> names{"U1", "U0", "U3", "U2"};
};
template <>
struct T<Wide>
{
    static constexpr std::array<Wide, 40> values = []
    {
        std::array<Wide, 40> a{};
        for (int i = 0; i < 40; i++) a[static_cast<std::size_t>(i)] = static_cast<Wide>(i);
        return a;
    }();
};
template <>
struct T<Rich>
{
    static constexpr std::array backing{RichBk::C_ZERO, RichBk::C_ONE, RichBk::C_TWO, RichBk::C_THREE, RichBk::C_FOUR};
    static constexpr std::array values{Rich::C_ZERO(), Rich::C_ONE(), Rich::C_TWO(), Rich::C_THREE(), Rich::C_FOUR()};
    static constexpr std::array<const char*, 5> names{"C_ZERO", "C_ONE", "C_TWO", "C_THREE", "C_FOUR"};
};
template <>
struct T<RichBool>
{
    static constexpr std::array backing{BoolBk::NO, BoolBk::YES};
    static constexpr std::array values{RichBool::NO(), RichBool::YES()};
    static constexpr std::array<const char*, 2> names{"NO", "YES"};
};
template <>
struct T<RichNd>
{
    static constexpr std::array backing{NdBk::M, NdBk::N, NdBk::O, NdBk::P};
    static constexpr std::array<RichNd, 4> values{*RichNd::value_of(NdBk::M), *RichNd::value_of(NdBk::N), *RichNd::value_of(NdBk::O), *RichNd::value_of(NdBk::P)};
    static constexpr std::array<const char*, 4> names{"M", "N", "O", "P"};
};
template <>
struct T<Custom>
{
    static constexpr std::array values{Custom::Z, Custom::X, Custom::Y};
    static constexpr std::array<const char*, 3> names{"zed", "ex", "why"};
};
template <class E>
constexpr int index_of(const E& e)
{
    for (std::size_t i = 0; i < T<E>::values.size(); i++)
        if (T<E>::values[i] == e) return static_cast<int>(i);
    return -1;
}
}  // namespace en
template <>
struct fixed_containers::rich_enums::EnumAdapter<en::Custom>
{
    using Enum = en::Custom;
    static constexpr std::size_t count() { return 3; }
    static constexpr const std::array<Enum, 3>& values() { return en::T<Enum>::values; }
    static constexpr std::size_t ordinal(const Enum& e)
    {
        return static_cast<std::size_t>(en::index_of(e));
    }
    static constexpr std::string_view to_string(const Enum& e) { return en::T<Enum>::names[ordinal(e)]; }
};

namespace el
{
#define EL_ENUM(TYPE)                                                                                      \
    template <>                                                                                            \
    struct El<TYPE>                                                                                        \
    {                                                                                                      \
        static TYPE make(int k) { return en::T<TYPE>::values.at(static_cast<std::size_t>(k)); }            \
        static int key(const TYPE& t)                                                                      \
        {                                                                                                  \
            const int i = en::index_of(t);                                                                 \
            if (i < 0) pbt::g_ctx->fail("a key is not an enumerator");                                     \
            return i;                                                                                      \
        }                                                                                                  \
        static constexpr bool tracked = false, copyable = true, dflt = false;                              \
        static constexpr int max_key = static_cast<int>(en::T<TYPE>::values.size());                       \
        static constexpr const char* name = #TYPE;                                                         \
    };
EL_ENUM(en::Dense)
EL_ENUM(en::Sparse)
EL_ENUM(en::Tiny)
EL_ENUM(en::Unscoped)
EL_ENUM(en::Wide)
EL_ENUM(en::Rich)
EL_ENUM(en::RichBool)
EL_ENUM(en::RichNd)
EL_ENUM(en::Custom)
}  // namespace el

namespace drv
{
template <class K, class V>
using EMapD = AssocDriver<true, true, fixed_containers::EnumMap<K, V>, K, V, PolEnum>;
template <class K>
using ESetD = AssocDriver<false, true, fixed_containers::EnumSet<K>, K, int, PolEnum>;
}  // namespace drv
