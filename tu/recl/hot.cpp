#include <immintrin.h>
#include <cassert>
#include <atomic>
#include <array>
#include <vector>
#include <algorithm>
#include <thread>
#include <limits>
#include <functional>
#include <string>
#include <memory>
#include <set>
#include <map>
#include <utility>
#include <cstdint>
#include <cstring>
#define _mm_set_pi64x(x) _mm_cvtsi64_m64(x)
#define private public
#include <hot/rowex/EpochBasedMemoryReclamationStrategy.hpp>
#include <hot/rowex/MemoryGuard.hpp>
#undef private
using namespace hot::rowex;
extern "C" {
void vp_enter(EpochBasedMemoryReclamationStrategy *s) { s->enterCriticalSection(); }
void vp_leave(EpochBasedMemoryReclamationStrategy *s) { s->leaveCriticialSection(); }
void vp_retire(EpochBasedMemoryReclamationStrategy *s, HOTRowexChildPointer *p) { s->scheduleForDeletion(*p); }
}
