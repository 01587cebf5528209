#include "wormhole/lib.c"
bool vp_register(struct qsbr *q, struct qsbr_ref *r) { return qsbr_register(q, r); }
void vp_unregister(struct qsbr *q, struct qsbr_ref *r) { qsbr_unregister(q, r); }
void vp_update(struct qsbr_ref *r, u64 v) { qsbr_update(r, v); }
void vp_park(struct qsbr_ref *r) { qsbr_park(r); }
void vp_resume(struct qsbr_ref *r) { qsbr_resume(r); }
void vp_wait(struct qsbr *q, u64 v) { qsbr_wait(q, v); }
