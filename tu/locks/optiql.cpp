#include "OptiQL/Tree.cpp"
using L = OMCSLock;
using Q = OMCSLock::Context;
extern "C" {
uint64_t vp_oq_try_begin(L *n, bool *r) { return n->readLockOrRestart(*r); }
uint64_t vp_oq_begin(L *n) { return n->readLock(); }
void vp_oq_check(L *n, uint64_t v, bool *r) { n->checkOrRestart(v, *r); }
void vp_oq_end(L *n, uint64_t v, bool *r) { n->readUnlockOrRestart(v, *r); }
uint64_t vp_oq_lock(L *n) { return n->writeLock(); }
void vp_oq_upgrade(L *n, uint64_t *v, bool *r) { n->upgradeToWriteLockOrRestart(*v, *r); }
void vp_oq_unlock(L *n) { n->writeUnlock(); }
void vp_oq_lock_q(L *n, Q *q) { n->writeLock(q); }
void vp_oq_upgrade_q(L *n, uint64_t *v, Q *q, bool *r) { n->upgradeToWriteLockOrRestart(*v, q, *r); }
void vp_oq_unlock_q(L *n, Q *q) { n->writeUnlock(q); }
bool vp_oq_islocked(L *n) { return n->isLocked(); }
using ART_OLC_OptiQL::N;
uint64_t vp_on_begin(N *n, bool *r) { return n->readLockOrRestart(*r); }
void vp_on_check(N *n, uint64_t v, bool *r) { n->checkOrRestart(v, *r); }
void vp_on_end(N *n, uint64_t v, bool *r) { n->readUnlockOrRestart(v, *r); }
void vp_on_upgrade_q(N *n, uint64_t *v, Q *q, bool *r) { n->upgradeToWriteLockOrRestart(*v, q, *r); }
void vp_on_lock_q(N *n, Q *q, bool *r) { n->writeLockOrRestart(q, *r); }
void vp_on_unlock_q(N *n, Q *q) { n->writeUnlock(q); }
}
