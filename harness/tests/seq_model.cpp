// -DDRV=VecD|DeqD|CircD|ListD -DPART=0..7: random histories against the std model
#include "../driver_seq.hpp"
#include "../modes.hpp"
#include "configs.hpp"
using namespace drv;
#define STR2(x) #x
#define STR(x) STR2(x)
#define T(TY, N, OPS, W) REGISTER(STR(DRV) "<" #TY "," #N ">", (mode::model_test<DRV<TY, N>, OPS>), W)
#if PART == 0
T(el_int, 1, 40, 1);
T(el_int, 8, 60, 3);
#elif PART == 1
T(el_int, 0, 12, 0.15);
T(el_int, 3, 50, 2);
#elif PART == 2
T(el_int, 17, 60, 2);
T(el_uchar, 7, 60, 1);
#elif PART == 3
T(el_int, 260, 40, 1);
T(el_uchar, 70000, 8, 0.02);
#elif PART == 4
T(Trk, 1, 40, 1);
T(Trk, 5, 60, 3);
#elif PART == 5
T(Trk, 8, 60, 2);
T(TDtor, 3, 50, 1);
#elif PART == 6
T(Trk, 2, 40, 1);
T(MOnly, 4, 50, 1);
#elif PART == 7
T(Big, 5, 50, 1);
T(Amp, 6, 50, 1);
#elif PART == 8  // capacities at which an index, a size or a sentinel outgrows 7 or 8 bits
T(el_int, 127, 40, 0.15);
T(el_uchar, 128, 40, 0.15);
T(el_int, 255, 40, 0.15);
#elif PART == 9
T(el_int, 256, 40, 0.15);
T(el_uchar, 65535, 8, 0.01);
T(el_uchar, 65536, 8, 0.01);
#endif
