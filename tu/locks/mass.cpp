#include "config.h"
#include "nodeversion.hh"
typedef nodeversion<nodeversion_parameters<uint32_t>> V;
extern "C" {
uint32_t vp_mv_stable(V *v) { return v->stable().version_value(); }
bool vp_mv_changed(V *v, uint32_t o) { V x; *(uint32_t *)&x = o; return v->has_changed(x); }
bool vp_mv_split(V *v, uint32_t o) { V x; *(uint32_t *)&x = o; return v->has_split(x); }
bool vp_mv_simple_split(V *v, uint32_t o) { V x; *(uint32_t *)&x = o; return v->simple_has_split(x); }
uint32_t vp_mv_lock(V *v) { return v->lock().version_value(); }
uint32_t vp_mv_lock_at(V *v, uint32_t o) { V x; *(uint32_t *)&x = o; return v->lock(x).version_value(); }
bool vp_mv_try(V *v) { return v->try_lock(); }
void vp_mv_unlock(V *v) { v->unlock(); }
void vp_mv_unlock_at(V *v) { v->unlock(*v); }
void vp_mv_mark_insert(V *v) { v->mark_insert(); }
void vp_mv_mark_insert_at(V *v) { v->mark_insert(*v); }
void vp_mv_mark_split(V *v) { v->mark_split(); }
void vp_mv_mark_change(V *v, bool s) { v->mark_change(s); }
void vp_mv_mark_deleted(V *v) { v->mark_deleted(); }
void vp_mv_mark_deleted_tree(V *v) { v->mark_deleted_tree(); }
void vp_mv_mark_root(V *v) { v->mark_root(); }
void vp_mv_mark_nonroot(V *v) { v->mark_nonroot(); }
bool vp_mv_locked(V *v) { return v->locked(); }
bool vp_mv_deleted(V *v) { return v->deleted(); }
bool vp_mv_isleaf(V *v) { return v->isleaf(); }
bool vp_mv_inserting(V *v) { return v->inserting(); }
bool vp_mv_splitting(V *v) { return v->splitting(); }
bool vp_mv_is_root(V *v) { return v->is_root(); }
}
