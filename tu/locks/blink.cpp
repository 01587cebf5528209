#include "BLinkTree/latch.h"
extern "C" {
void vp_rs_lockr(RSpinSharedLatch *l) { l->latch_shared(); }
void vp_rs_unlockr(RSpinSharedLatch *l) { l->unlatch_shared(); }
void vp_rs_lockw(RSpinSharedLatch *l) { l->latch_exclusive(); }
void vp_rs_unlockw(RSpinSharedLatch *l) { l->unlatch_exclusive(); }
void vp_sm_lockr(StandardSharedMutex *l) { l->latch_shared(); }
void vp_sm_unlockr(StandardSharedMutex *l) { l->unlatch_shared(); }
void vp_sm_lockw(StandardSharedMutex *l) { l->latch_exclusive(); }
void vp_sm_unlockw(StandardSharedMutex *l) { l->unlatch_exclusive(); }
}
