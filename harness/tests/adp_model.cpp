// -DQ=0: stack and queue, -DQ=1: circular queue
#include "../driver_adp.hpp"
#include "../modes.hpp"
#include "configs.hpp"
using namespace drv;
#define T(NAME, OPS, W, ...) REGISTER(NAME, (mode::model_test<__VA_ARGS__, OPS>), W)
#if Q == 0
#if PART == 0
T("stack<int,6>", 60, 2, StackD<int, 6>);
T("queue<int,6>", 60, 2, QueueD<int, 6>);
T("queue<int,1>", 30, 0.5, QueueD<int, 1>);
T("stack<int,1>", 30, 0.5, StackD<int, 1>);
T("queue<int,0>", 10, 0.1, QueueD<int, 0>);
T("stack<int,0>", 10, 0.1, StackD<int, 0>);
#elif PART == 1
T("stack<Trk,5>", 60, 1, StackD<Trk, 5>);
T("queue<Trk,5>", 60, 2, QueueD<Trk, 5>);
#elif PART == 2
T("stack<MOnly,4>", 60, 1, StackD<MOnly, 4>);
T("queue<MOnly,4>", 60, 1, QueueD<MOnly, 4>);
#else
T("stack<Big,7>", 60, 0.5, StackD<Big, 7>);
T("queue<Big,7>", 60, 0.5, QueueD<Big, 7>);
T("queue<uchar,260>", 60, 0.4, QueueD<unsigned char, 260>);
T("queue<uchar,255>", 60, 0.1, QueueD<unsigned char, 255>);
T("queue<uchar,256>", 60, 0.1, QueueD<unsigned char, 256>);
T("queue<uchar,128>", 60, 0.1, QueueD<unsigned char, 128>);
T("stack<uchar,260>", 60, 0.4, StackD<unsigned char, 260>);
T("stack<uchar,256>", 60, 0.1, StackD<unsigned char, 256>);
#endif
#else
T("cqueue<uchar,256>", 60, 0.1, CQueueD<unsigned char, 256>);
T("cqueue<int,5>", 60, 1, CQueueD<int, 5>);
T("cqueue<int,1>", 30, 0.3, CQueueD<int, 1>);
T("cqueue<Trk,4>", 60, 1, CQueueD<Trk, 4>);
T("cqueue<MOnly,3>", 60, 0.5, CQueueD<MOnly, 3>);
#endif
