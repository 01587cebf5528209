// MassTree: the operations of the wrapper, removal and range scans through the table's own interface
#include "config.h"
#include <string>
#include "MassTreeWrapper.h"
#include "masstree_scan.hh"
using namespace Masstree;
struct vp_param : nodeparams<> { typedef uint64_t *value_type; typedef threadinfo threadinfo_type; };
typedef basic_table<vp_param> vp_table;
struct vp_scanner {
  template <typename SS, typename K> void visit_leaf(const SS &, const K &, threadinfo &) {}
  bool visit_value(Str key, uint64_t *value, threadinfo &);
};
bool vp_remove(vp_table &t, Str key, threadinfo &ti) {
  vp_table::cursor_type lp(t, key);
  bool found = lp.find_locked(ti);
  if (found) ti.deallocate_rcu(lp.value(), 0, memtag_value);
  lp.finish(-1, ti);
  return found;
}
void vp_confirmed(vp_table::leaf_type *);
vp_table::leaf_type *vp_reach_leaf(const vp_table::node_type *root, const vp_table::cursor_type::key_type &ka, vp_table::node_type::nodeversion_type &v, threadinfo &ti) {
  return root->reach_leaf(ka, v, ti);
}
void vp_find_locked(vp_table::cursor_type &lp, threadinfo &ti) {
  lp.find_locked(ti);
  vp_confirmed(lp.node());
  lp.node()->unlock();
}
bool vp_get(vp_table &t, Str key, uint64_t *&v, threadinfo &ti) { return t.get(key, v, ti); }
int vp_scan(const vp_table &t, Str key, bool eq, vp_scanner &s, threadinfo &ti) { return t.scan(key, eq, s, ti); }
int vp_rscan(const vp_table &t, Str key, bool eq, vp_scanner &s, threadinfo &ti) { return t.rscan(key, eq, s, ti); }
void vp_gc(gc_layer_rcu_callback<vp_param> *cb, threadinfo &ti) { cb->gc_layer_rcu_callback<vp_param>::operator()(ti); }
typedef MassTreeWrapper<uint64_t *> vp_tree;
bool vp_upsert(vp_tree &t, char *k, int n, uint64_t *v) { return t.upsert(k, n, v); }
bool vp_search(vp_tree &t, char *k, int n, uint64_t *&v) { return t.search(k, n, v); }

