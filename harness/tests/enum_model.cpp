// -DFAM=0: enum map; 1: enum set and enum array
#include "../enums.hpp"
#include "../modes.hpp"
#include "configs.hpp"
using namespace drv;
using namespace en;
#define TT(NAME, OPS, W, ...) REGISTER(NAME, (mode::model_test<__VA_ARGS__, OPS>), W)
#if FAM == 0
#if PART == 0
TT("enum_map<Dense,int>", 60, 2, EMapD<Dense, int>);
TT("enum_map<Tiny,int>", 20, 0.3, EMapD<Tiny, int>);
#elif PART == 1
TT("enum_map<Sparse,Trk>", 60, 2, EMapD<Sparse, Trk>);
#elif PART == 2
TT("enum_map<Rich,Trk>", 60, 2, EMapD<Rich, Trk>);
#elif PART == 3
TT("enum_map<RichNd,TDtor>", 60, 1, EMapD<RichNd, TDtor>);
TT("enum_map<RichBool,int>", 30, 0.5, EMapD<RichBool, int>);
#elif PART == 4
TT("enum_map<Wide,uchar>", 80, 1, EMapD<Wide, unsigned char>);
#elif PART == 5
TT("enum_map<Dense,MOnly>", 60, 1, EMapD<Dense, MOnly>);
#elif PART == 6
TT("enum_map<Unscoped,Big>", 60, 1, EMapD<Unscoped, Big>);
#else
TT("enum_map<Custom,int>", 60, 1, EMapD<Custom, int>);
#endif
#else
#if PART == 0
TT("enum_set<Dense>", 60, 2, ESetD<Dense>);
TT("enum_set<Tiny>", 20, 0.3, ESetD<Tiny>);
#elif PART == 1
TT("enum_set<Sparse>", 60, 1, ESetD<Sparse>);
TT("enum_set<Custom>", 60, 1, ESetD<Custom>);
#elif PART == 2
TT("enum_set<Rich>", 60, 1, ESetD<Rich>);
TT("enum_set<RichBool>", 30, 0.5, ESetD<RichBool>);
#elif PART == 3
TT("enum_set<RichNd>", 60, 1, ESetD<RichNd>);
TT("enum_set<Wide>", 80, 1, ESetD<Wide>);
#endif
#endif
