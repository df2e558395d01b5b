// Histories over the groups selected by -DGROUP_x. -DHIST=1: C01, 5: C05, 6: C06, 13: C13
#include "hist.h"
#include "heap.h"
#ifndef HIST
  #define HIST 1
#endif
static long heapLive() { return gLiveAllocs; }
static int const initHeap = (gHeapLive = &heapLive, 0);

template <class M>
void prop(pbt::Src & s)
{
  HistOptions o;
#if HIST == 1
  o.maxOps = 28;
#elif HIST == 5
  o.compareTrace = true;
  o.lifetime = true;
  o.faults = s.chance(1, 4);
#elif HIST == 6
  o.faults = true;
  o.lifetime = true;
#elif HIST == 13
  o.canaries = true;
#endif
  history<M>(s, o);
}
#define X(M) static pbt::Reg reg_##M("hist/" #M, &prop<M>);
#ifdef GRP_A
GROUP_A(X)
#endif
#ifdef GRP_B
GROUP_B(X)
#endif
#ifdef GRP_C
GROUP_C(X)
#endif
#ifdef GRP_D
GROUP_D(X)
#endif
#ifdef GRP_E
GROUP_E(X)
#endif
