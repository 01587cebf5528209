#include "config.h"
#include <pthread.h>
#include <atomic>
#include <string>
#define private public
#include "compiler.hh"
#include "misc.hh"
#include "circular_int.hh"
#include "timestamp.hh"
#include "memdebug.hh"
#include "kvthread.hh"
#include "kvthread.cc"
#undef private
extern "C" {
mrcu_epoch_type vp_min_epoch() { return threadinfo::min_active_epoch(); }
threadinfo *vp_register(int i) { return threadinfo::make(threadinfo::TI_PROCESS, i); }
void vp_start(threadinfo *t) { t->rcu_start(); }
void vp_stop(threadinfo *t) { t->rcu_stop(); }
void vp_quiesce(threadinfo *t) { t->rcu_quiesce(); }
void vp_free(threadinfo *t, void *p, size_t n, memtag m) { t->deallocate_rcu(p, n, m); }
void vp_pool_free(threadinfo *t, void *p, size_t n, memtag m) { t->pool_deallocate_rcu(p, n, m); }
void vp_callback(threadinfo *t, mrcu_callback *p) { t->rcu_register(p); }
}
