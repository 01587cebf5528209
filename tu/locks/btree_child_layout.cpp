#include "BTreeOLC/BTreeOLC_child_layout.h"
using btreeolc::OptLock;
extern "C" {
uint64_t vp_bt_begin(OptLock *n, bool *r) { return n->readLockOrRestart(*r); }
void vp_bt_check(OptLock *n, uint64_t v, bool *r) { n->checkOrRestart(v, *r); }
void vp_bt_end(OptLock *n, uint64_t v, bool *r) { n->readUnlockOrRestart(v, *r); }
void vp_bt_upgrade(OptLock *n, uint64_t *v, bool *r) { n->upgradeToWriteLockOrRestart(*v, *r); }
void vp_bt_lock(OptLock *n, bool *r) { n->writeLockOrRestart(*r); }
void vp_bt_unlock(OptLock *n) { n->writeUnlock(); }
void vp_bt_unlock_obsolete(OptLock *n) { n->writeUnlockObsolete(); }
}
