#define private public
#define protected public
#include <atomic>
#include <cstring>
#include <cstdint>
#include <immintrin.h>
#undef private
#undef protected
#include "ARTOLC/Tree.cpp"
using ART_OLC::N;
extern "C" {
uint64_t vp_art_begin(N *n, bool *r) { return n->readLockOrRestart(*r); }
void vp_art_check(N *n, uint64_t v, bool *r) { n->checkOrRestart(v, *r); }
void vp_art_end(N *n, uint64_t v, bool *r) { n->readUnlockOrRestart(v, *r); }
void vp_art_upgrade(N *n, uint64_t *v, bool *r) { n->upgradeToWriteLockOrRestart(*v, *r); }
void vp_art_lock(N *n, bool *r) { n->writeLockOrRestart(*r); }
void vp_art_unlock(N *n) { n->writeUnlock(); }
void vp_art_unlock_obsolete(N *n) { n->writeUnlockObsolete(); }
}
