/* Reader/writer locks (rename pthread_rwlock_*@file.c -> vp_rw_*): a lock is only released by
 * who holds it, and never taken twice by one thread. */
#include "vp.h"
int vp_rw_held;      /* 0 free, 1 for reading, 2 for writing */
int vp_rw_init(void *l, void *a) { vp_rw_held = 0; return 0; }
int vp_rw_destroy(void *l) { return 0; }
int vp_rw_rdlock(void *l) { vp_assert(vp_rw_held == 0, "not locked twice"); vp_rw_held = 1; return 0; }
int vp_rw_wrlock(void *l) { vp_assert(vp_rw_held == 0, "not locked twice"); vp_rw_held = 2; return 0; }
int vp_rw_unlock(void *l) { vp_assert(vp_rw_held != 0, "only a lock held is released"); vp_rw_held = 0; return 0; }
