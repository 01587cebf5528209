#include "FBTree/control.h"
using FeatureBTree::Control;
extern "C" {
uint64_t vp_fb_begin(Control *c) { return c->begin_read(); }
bool vp_fb_end(Control *c, uint64_t v) { return c->end_read(v); }
uint64_t vp_fb_version(Control *c) { return c->load_version(); }
void vp_fb_lock(Control *c) { c->latch_exclusive(); }
void vp_fb_unlock(Control *c) { c->unlatch_exclusive(); }
void vp_fb_update(Control *c) { c->update_version(); }
void vp_fb_bsplit(Control *c) { c->begin_splitting(); }
void vp_fb_esplit(Control *c) { c->end_splitting(); }
void vp_fb_delete(Control *c) { c->set_delete(); }
void vp_fb_set_order(Control *c) { c->set_order(); }
void vp_fb_clear_order(Control *c) { c->clear_order(); }
void vp_fb_set_sibling(Control *c) { c->set_sibling(); }
void vp_fb_clear_sibling(Control *c) { c->clear_sibling(); }
bool vp_fb_deleted(Control *c) { return c->deleted(); }
bool vp_fb_is_leaf(Control *c) { return c->is_leaf(); }
bool vp_fb_has_sibling(Control *c) { return c->has_sibling(); }
bool vp_fb_is_splitting(Control *c) { return c->is_splitting(); }
bool vp_fb_ordered(Control *c) { return c->ordered(); }
}
