// Cross-container modes. -DMODE=1 value semantics (C14), 2 lifetimes (C13), 3 no allocation (C18), 4 byte relocation (C17), 5 iterator laws (C20), 6 threads (C30); -DPART=0..13
#include "../modes.hpp"
#include "configs.hpp"
#if PART <= 3
#include "../driver_seq.hpp"
#elif PART <= 11
#include "../driver_assoc.hpp"
#elif PART == 12
#include "../driver_adp.hpp"
#include "../driver_str.hpp"
#else
#include "../enums.hpp"
#endif
using namespace drv;
#if MODE == 1
#define RUN(OPS, ...) (mode::slots_test<__VA_ARGS__, OPS, mode::Judge::VALUE>)
#elif MODE == 2
#define RUN(OPS, ...) (mode::slots_test<__VA_ARGS__, OPS, mode::Judge::LIFE>)
#elif MODE == 3
#include "../alloc.hpp"
#define RUN(OPS, ...) (mode::slots_test<__VA_ARGS__, OPS, mode::Judge::NOALLOC>)
#elif MODE == 4
#define RUN(OPS, ...) (mode::bytes_test<__VA_ARGS__, OPS>)
#elif MODE == 6
#include "../threads.hpp"
#define RUN(OPS, ...) (mode::threads_test<__VA_ARGS__, OPS>)
#else
#include "../iter_laws.hpp"
#define RUN(OPS, ...) (laws::iter_test<__VA_ARGS__, OPS>)
#endif
// A: all modes; N: elements with non-trivial lifetime; V: trivially copyable
#define T_ALL(NAME, OPS, W, ...) REGISTER(NAME, RUN(OPS, __VA_ARGS__), W)
#if MODE != 4 && MODE != 6
#define T_N(NAME, OPS, W, ...) REGISTER(NAME, RUN(OPS, __VA_ARGS__), W)
#else
#define T_N(NAME, OPS, W, ...)
#endif
#if MODE != 2
#define T_V(NAME, OPS, W, ...) REGISTER(NAME, RUN(OPS, __VA_ARGS__), W)
#else
#define T_V(NAME, OPS, W, ...)
#endif
// copyable but untracked, not trivial
#if MODE == 1 || MODE == 3 || MODE == 6
#define T_D(NAME, OPS, W, ...) REGISTER(NAME, RUN(OPS, __VA_ARGS__), W)
#else
#define T_D(NAME, OPS, W, ...)
#endif

#if PART == 0
T_V("vector<int,5>", 50, 1, VecD<int, 5>);
T_N("vector<Trk,4>", 50, 2, VecD<Trk, 4>);
T_N("vector<MOnly,3>", 50, 1, VecD<MOnly, 3>);
T_D("vector<TDtor,4>", 50, 1, VecD<TDtor, 4>);
T_V("vector<Big,3>", 50, 1, VecD<Big, 3>);
T_V("vector<uchar,300>", 20, 0.2, VecD<unsigned char, 300>);
#elif PART == 1
T_V("deque<int,5>", 50, 1, DeqD<int, 5>);
T_N("deque<Trk,4>", 50, 2, DeqD<Trk, 4>);
T_N("deque<MOnly,3>", 50, 1, DeqD<MOnly, 3>);
T_D("deque<TDtor,4>", 50, 1, DeqD<TDtor, 4>);
T_V("deque<Big,3>", 50, 1, DeqD<Big, 3>);
#elif PART == 2
T_V("circular_deque<int,5>", 50, 1, CircD<int, 5>);
T_N("circular_deque<Trk,4>", 50, 2, CircD<Trk, 4>);
T_N("circular_deque<MOnly,3>", 50, 1, CircD<MOnly, 3>);
T_V("circular_deque<Big,1>", 50, 0.5, CircD<Big, 1>);
#elif PART == 3
T_V("list<int,6>", 50, 1, ListD<int, 6>);
T_N("list<Trk,5>", 50, 2, ListD<Trk, 5>);
T_N("list<MOnly,3>", 50, 1, ListD<MOnly, 3>);
T_D("list<TDtor,4>", 50, 1, ListD<TDtor, 4>);
T_V("list<Big,3>", 50, 0.5, ListD<Big, 3>);
T_V("list<uchar,300>", 20, 0.2, ListD<unsigned char, 300>);
#elif PART == 4
T_V("map<int,int,7>", 50, 1, MapD<int, int, 7>);
T_N("map<Trk,Trk,5>", 50, 2, MapD<Trk, Trk, 5>);
#elif PART == 5
T_N("map<int,Trk,6,cmp,dedicated,contiguous>", 50, 1, MapCD<int, Trk, 6, false, DED, Contig>);
T_V("map<int,int,6,cmp,embedded,contiguous>", 50, 1, MapCD<int, int, 6, false, EMB, Contig>);
#elif PART == 6
T_N("map<Trk,MOnly,5,cmp,dedicated,pool>", 50, 1, MapCD<Trk, MOnly, 5, false, DED, Pool>);
T_V("map<uchar,Big,5,cmp,dedicated,pool>", 50, 1, MapCD<unsigned char, Big, 5, false, DED, Pool>);
T_N("map<int,Trk,5,cmp,embedded,pool>", 50, 1, MapCD<int, Trk, 5, false, EMB, Pool>);
#elif PART == 7
T_V("set<int,7>", 50, 1, SetD<int, 7>);
T_N("set<Trk,5,cmp,embedded,pool>", 50, 1, SetCD<Trk, 5, false, EMB, Pool>);
T_N("set<Trk,6,cmp,dedicated,contiguous>", 50, 1, SetCD<Trk, 6, false, DED, Contig>);
T_N("set<MOnly,4>", 50, 0.5, SetD<MOnly, 4>);
#elif PART == 8
T_V("umap<int,int,6,hash,8>", 50, 1, UMapHD<int, int, 6, 8>);
T_N("umap<Trk,Trk,5,hash,5>", 50, 2, UMapHD<Trk, Trk, 5, 5>);
#elif PART == 9
T_V("umap<uchar,Big,5>", 50, 1, UMapD<unsigned char, Big, 5>);
T_N("umap<int,MOnly,4,hash,6>", 50, 1, UMapHD<int, MOnly, 4, 6>);
T_D("umap<TDtor,int,4,hash,4>", 50, 0.5, UMapHD<TDtor, int, 4, 4>);
#elif PART == 10
T_V("uset<int,6,hash,8>", 50, 1, USetHD<int, 6, 8>);
T_N("uset<Trk,5,hash,5>", 50, 2, USetHD<Trk, 5, 5>);
T_N("uset<MOnly,4,hash,6>", 50, 1, USetHD<MOnly, 4, 6>);
#elif PART == 11
T_D("map<TDtor,TDtor,4,cmp,embedded,contiguous>", 50, 1, MapCD<TDtor, TDtor, 4, false, EMB, Contig>);
T_V("uset<uchar,5>", 50, 1, USetD<unsigned char, 5>);
T_V("set<uchar,6,cmp,dedicated,contiguous>", 50, 1, SetCD<unsigned char, 6, false, DED, Contig>);
#elif PART == 12
#if MODE != 5
T_V("stack<int,5>", 50, 0.5, StackD<int, 5>);
T_N("stack<Trk,4>", 50, 1, StackD<Trk, 4>);
T_V("queue<int,5>", 50, 0.5, QueueD<int, 5>);
T_N("queue<Trk,4>", 50, 1, QueueD<Trk, 4>);
T_V("cqueue<int,4>", 50, 0.5, CQueueD<int, 4>);
T_N("cqueue<Trk,3>", 50, 1, CQueueD<Trk, 3>);
#endif
T_V("string<7>", 50, 1, StrD<7>);
T_V("string<40>", 50, 0.5, StrD<40>);
#else
using namespace en;
T_V("enum_map<Dense,int>", 50, 1, EMapD<Dense, int>);
T_N("enum_map<Rich,Trk>", 50, 1, EMapD<Rich, Trk>);
T_N("enum_map<Sparse,MOnly>", 50, 1, EMapD<Sparse, MOnly>);
T_V("enum_set<Rich>", 50, 0.5, ESetD<Rich>);
T_V("enum_set<Wide>", 50, 0.5, ESetD<Wide>);
T_V("enum_map<RichNd,Big>", 50, 0.5, EMapD<RichNd, Big>);
#endif
