// -DFAM=0 (map) 1 (set) 2 (unordered map) 3 (unordered set), -DPART=0..7
#include "../driver_assoc.hpp"
#include "../modes.hpp"
#include "configs.hpp"
using namespace drv;
#define T(NAME, OPS, W, ...) REGISTER(NAME, (mode::model_test<__VA_ARGS__, OPS>), W)
#if FAM == 0
#if PART == 0
T("map<int,int,8>", 60, 3, MapD<int, int, 8>);
T("map<int,int,1>", 30, 0.5, MapD<int, int, 1>);
#elif PART == 1
T("map<int,int,40>", 120, 2, MapD<int, int, 40>);
T("map<int,int,0>", 10, 0.1, MapD<int, int, 0>);
#elif PART == 2
T("map<Trk,Trk,7>", 60, 2, MapD<Trk, Trk, 7>);
#elif PART == 3
T("map<int,Trk,12,cmp-transparent,dedicated,pool>", 80, 2, MapCD<int, Trk, 12, true, DED, Pool>);
#elif PART == 4
T("map<Trk,int,9,cmp,dedicated,contiguous>", 80, 2, MapCD<Trk, int, 9, false, DED, Contig>);
#elif PART == 5
T("map<int,Trk,20,cmp-transparent,embedded,contiguous>", 90, 2, MapCD<int, Trk, 20, true, EMB, Contig>);
#elif PART == 6
T("map<int,int,300,greater<>>", 60, 0.7, MapGD<int, int, 300>);
T("map<int,MOnly,6>", 60, 1, MapD<int, MOnly, 6>);
#elif PART == 7
T("map<Big,uchar,5,cmp,embedded,pool>", 60, 1, MapCD<Big, unsigned char, 5, false, EMB, Pool>);
T("map<TDtor,TDtor,4,cmp,embedded,contiguous>", 60, 1, MapCD<TDtor, TDtor, 4, false, EMB, Contig>);
#elif PART == 8  // capacities at which an index, a size or a sentinel outgrows 7 or 8 bits
T("map<int,uchar,127,dedicated,contiguous>", 60, 0.2, MapCD<int, unsigned char, 127, true, DED, Contig>);
T("map<int,uchar,128>", 60, 0.2, MapD<int, unsigned char, 128>);
T("map<MOnly,int,5>", 60, 1, MapD<MOnly, int, 5>);
#elif PART == 9
T("map<int,uchar,255,dedicated,contiguous>", 60, 0.2, MapCD<int, unsigned char, 255, true, DED, Contig>);
T("map<int,uchar,256>", 60, 0.2, MapD<int, unsigned char, 256>);
#endif
#elif FAM == 1
#if PART == 0
T("set<int,8>", 60, 3, SetD<int, 8>);
T("set<int,1>", 30, 0.5, SetD<int, 1>);
#elif PART == 1
T("set<int,40>", 120, 2, SetD<int, 40>);
T("set<int,0>", 10, 0.1, SetD<int, 0>);
#elif PART == 2
T("set<Trk,7>", 60, 2, SetD<Trk, 7>);
T("set<uchar,5>", 40, 1, SetD<unsigned char, 5>);
#elif PART == 3
T("set<int,12,cmp-transparent,dedicated,pool>", 80, 2, SetCD<int, 12, true, DED, Pool>);
#elif PART == 4
T("set<Trk,9,cmp,dedicated,contiguous>", 80, 2, SetCD<Trk, 9, false, DED, Contig>);
#elif PART == 5
T("set<Trk,20,cmp-transparent,embedded,contiguous>", 90, 2, SetCD<Trk, 20, true, EMB, Contig>);
#elif PART == 6
T("set<int,300,greater<>>", 60, 0.7, SetGD<int, 300>);
T("set<MOnly,6>", 60, 1, SetD<MOnly, 6>);
#elif PART == 7
T("set<Big,5,cmp,embedded,pool>", 60, 1, SetCD<Big, 5, false, EMB, Pool>);
T("set<TDtor,4,cmp,embedded,contiguous>", 60, 1, SetCD<TDtor, 4, false, EMB, Contig>);
#elif PART == 8  // capacities at which an index, a size or a sentinel outgrows 7 or 8 bits
T("set<int,127,dedicated,contiguous>", 60, 0.2, SetCD<int, 127, true, DED, Contig>);
T("set<int,128>", 60, 0.2, SetD<int, 128>);
#elif PART == 9
T("set<int,255,dedicated,contiguous>", 60, 0.2, SetCD<int, 255, true, DED, Contig>);
T("set<int,256>", 60, 0.2, SetD<int, 256>);
#endif
#elif FAM == 2
#if PART == 0
T("umap<int,int,8,hash,8 buckets>", 60, 3, UMapHD<int, int, 8, 8>);
T("umap<int,int,1,hash,1 bucket>", 30, 0.5, UMapHD<int, int, 1, 1>);
#elif PART == 1
T("umap<int,int,40>", 120, 1, UMapD<int, int, 40>);
T("umap<int,int,0>", 10, 0.1, UMapD<int, int, 0>);
#elif PART == 2
T("umap<Trk,Trk,7,hash,9>", 60, 3, UMapHD<Trk, Trk, 7, 9>);
#elif PART == 3
T("umap<int,Trk,12,hash,31>", 80, 2, UMapHD<int, Trk, 12, 31>);
#elif PART == 4
T("umap<int,int,24,hash,24>", 100, 2, UMapHD<int, int, 24, 24>);
#elif PART == 5
T("umap<int,uchar,300,hash,390>", 60, 0.7, UMapHD<int, unsigned char, 300, 390>);
T("umap<uchar,int,5>", 60, 1, UMapD<unsigned char, int, 5>);
#elif PART == 6
T("umap<int,MOnly,6,hash,7>", 60, 1, UMapHD<int, MOnly, 6, 7>);
T("umap<TDtor,TDtor,3,hash,3>", 60, 1, UMapHD<TDtor, TDtor, 3, 3>);
#elif PART == 7
T("umap<Big,Big,5,hash,6>", 60, 1, UMapHD<Big, Big, 5, 6>);
#elif PART == 8  // capacities at which an index, a size or a sentinel outgrows 7 or 8 bits
T("umap<int,int,127,hash,127 buckets>", 60, 0.2, UMapHD<int, int, 127, 127>);
T("umap<int,int,128,hash,128 buckets>", 60, 0.2, UMapHD<int, int, 128, 128>);
T("umap<MOnly,MOnly,5,hash,6>", 60, 1, UMapHD<MOnly, MOnly, 5, 6>);
#elif PART == 9
T("umap<int,int,255,hash,255 buckets>", 60, 0.2, UMapHD<int, int, 255, 255>);
T("umap<int,int,256,hash,256 buckets>", 60, 0.2, UMapHD<int, int, 256, 256>);
#endif
#elif FAM == 3
#if PART == 0
T("uset<int,8,hash,8 buckets>", 60, 3, USetHD<int, 8, 8>);
T("uset<int,1,hash,1 bucket>", 30, 0.5, USetHD<int, 1, 1>);
#elif PART == 1
T("uset<int,40>", 120, 1, USetD<int, 40>);
T("uset<int,0>", 10, 0.1, USetD<int, 0>);
#elif PART == 2
T("uset<Trk,7,hash,9>", 60, 3, USetHD<Trk, 7, 9>);
#elif PART == 3
T("uset<Trk,12,hash,31>", 80, 2, USetHD<Trk, 12, 31>);
#elif PART == 4
T("uset<int,24,hash,24>", 100, 2, USetHD<int, 24, 24>);
#elif PART == 5
T("uset<int,300,hash,390>", 60, 0.7, USetHD<int, 300, 390>);
T("uset<uchar,5>", 60, 1, USetD<unsigned char, 5>);
#elif PART == 6
T("uset<MOnly,6,hash,7>", 60, 1, USetHD<MOnly, 6, 7>);
T("uset<TDtor,3,hash,3>", 60, 1, USetHD<TDtor, 3, 3>);
#elif PART == 7
T("uset<Big,5,hash,6>", 60, 1, USetHD<Big, 5, 6>);
#elif PART == 8  // capacities at which an index, a size or a sentinel outgrows 7 or 8 bits
T("uset<int,127,hash,127 buckets>", 60, 0.2, USetHD<int, 127, 127>);
T("uset<int,128,hash,128 buckets>", 60, 0.2, USetHD<int, 128, 128>);
#elif PART == 9
T("uset<int,255,hash,255 buckets>", 60, 0.2, USetHD<int, 255, 255>);
T("uset<int,256,hash,256 buckets>", 60, 0.2, USetHD<int, 256, 256>);
#endif
#endif
