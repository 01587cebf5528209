#include <immintrin.h>
#include <cassert>
#define _mm_set_pi64x(x) _mm_cvtsi64_m64(x)
#include <hot/rowex/HOTRowex.hpp>
#include <idx/contenthelpers/IdentityKeyExtractor.hpp>
using namespace hot::rowex;
extern "C" {
void vp_hs_lock(SpinLock *l) { l->lock(); }
void vp_hs_unlock(SpinLock *l) { l->unlock(); }
bool vp_hn_try(HOTRowexNodeBase *n) { return n->tryLock(); }
void vp_hn_unlock(HOTRowexNodeBase *n) { n->unlock(); }
void vp_hn_obsolete(HOTRowexNodeBase *n) { n->markAsObsolete(); }
bool vp_hn_isobsolete(HOTRowexNodeBase *n) { return n->isObsolete(); }
}
