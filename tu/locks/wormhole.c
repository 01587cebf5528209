#include "wormhole/lib.c"
bool vp_wh_tryr(rwlock *l) { return rwlock_trylock_read(l); }
bool vp_wh_tryr_lp(rwlock *l) { return rwlock_trylock_read_lp(l); }
bool vp_wh_tryr_nr(rwlock *l, u16 nr) { return rwlock_trylock_read_nr(l, nr); }
void vp_wh_lockr(rwlock *l) { rwlock_lock_read(l); }
void vp_wh_unlockr(rwlock *l) { rwlock_unlock_read(l); }
bool vp_wh_tryw(rwlock *l) { return rwlock_trylock_write(l); }
bool vp_wh_tryw_nr(rwlock *l, u16 nr) { return rwlock_trylock_write_nr(l, nr); }
void vp_wh_lockw(rwlock *l) { rwlock_lock_write(l); }
bool vp_wh_tryw_hp(rwlock *l) { return rwlock_trylock_write_hp(l); }
bool vp_wh_tryw_hp_nr(rwlock *l, u16 nr) { return rwlock_trylock_write_hp_nr(l, nr); }
void vp_wh_lockw_hp(rwlock *l) { rwlock_lock_write_hp(l); }
void vp_wh_unlockw(rwlock *l) { rwlock_unlock_write(l); }
void vp_wh_w2r(rwlock *l) { rwlock_write_to_read(l); }
void vp_wh_spin_lock(spinlock *l) { spinlock_lock(l); }
bool vp_wh_spin_try(spinlock *l) { return spinlock_trylock(l); }
void vp_wh_spin_unlock(spinlock *l) { spinlock_unlock(l); }
