#define private public
#define protected public
#include <atomic>
#include <limits>
#include <algorithm>
#include <vector>
#include <functional>
#include <array>
#include <cstring>
#include <cstdint>
#include <immintrin.h>
#undef private
#undef protected
#define private public
#include "ARTOLC/Epoche.h"
#include "ARTOLC/Epoche.cpp"
#undef private
using namespace ART;
extern "C" {
void vp_enter(Epoche *e, ThreadInfo *t) { e->enterEpoche(*t); }
void vp_retire(Epoche *e, ThreadInfo *t, void *n) { e->markNodeForDeletion(n, *t); }
void vp_exit(Epoche *e, ThreadInfo *t) { e->exitEpocheAndCleanup(*t); }
void vp_guard(ThreadInfo *t) { EpocheGuard g(*t); }
}
