#include "../driver_str.hpp"
#include "../modes.hpp"
using namespace drv;
#define T(N, OPS, W) REGISTER("string<" #N ">", (mode::model_test<StrD<N>, OPS>), W)
#if PART == 0
T(0, 20, 0.3);
T(1, 30, 1);
#elif PART == 1
T(5, 60, 3);
#elif PART == 2
T(16, 60, 2);
#elif PART == 3
T(40, 60, 1);
#elif PART == 4
T(255, 60, 0.5);
#else
T(254, 60, 0.2);
T(256, 60, 0.2);
T(300, 60, 0.4);
#endif
namespace
{
#if PART == 0
void make_test(pbt::Ctx& c)
{
    namespace fc = fixed_containers;
    char a[6];
    for (int i = 0; i < 5; i++) a[i] = draw_char(c);
    a[5] = '\0';
    const auto s = fc::make_fixed_string(a);
    static_assert(decltype(s)::static_max_size() == 5);
    CHECK(c, s.size() == 5 && std::memcmp(s.c_str(), a, 6) == 0, "make_fixed_string does not keep the characters");
    c.nontrivial();
}
REGISTER("make_fixed_string", make_test, 0.1);
#endif
}
