/* Stand-in for OpenPA (empty submodule here): sequentially consistent integers; every access is a
 * simulator scheduling point. The read-modify-write operations use builtins because the branches of
 * a hand-written one would be scheduling points (-fsanitize-coverage) inside it. */
#ifndef SIM_OPA_H
#define SIM_OPA_H
#ifdef __cplusplus
extern "C" {
#endif
void sim_yield_point(void);
#ifdef __cplusplus
}
#endif
typedef struct { volatile int v; } OPA_int_t;
typedef struct { void *volatile v; } OPA_ptr_t;
#define OPA_INT_T_INITIALIZER(a) { (a) }
#define OPA_PTR_T_INITIALIZER(a) { (a) }
static inline void OPA_store_int(OPA_int_t *p, int x) { sim_yield_point(); p->v = x; }
static inline int OPA_load_int(OPA_int_t *p) { sim_yield_point(); return p->v; }
#define OPA_store_release_int OPA_store_int
#define OPA_load_acquire_int OPA_load_int
static inline void *OPA_load_ptr(OPA_ptr_t *p) { sim_yield_point(); return p->v; }
static inline void OPA_store_ptr(OPA_ptr_t *p, void *x) { sim_yield_point(); p->v = x; }
static inline int OPA_fetch_and_add_int(OPA_int_t *p, int x) { sim_yield_point(); return __atomic_fetch_add(&p->v, x, __ATOMIC_SEQ_CST); }
static inline void OPA_add_int(OPA_int_t *p, int x) { (void) OPA_fetch_and_add_int(p, x); }
static inline void OPA_incr_int(OPA_int_t *p) { (void) OPA_fetch_and_add_int(p, 1); }
static inline void OPA_decr_int(OPA_int_t *p) { (void) OPA_fetch_and_add_int(p, -1); }
static inline int OPA_fetch_and_incr_int(OPA_int_t *p) { return OPA_fetch_and_add_int(p, 1); }
static inline int OPA_fetch_and_decr_int(OPA_int_t *p) { return OPA_fetch_and_add_int(p, -1); }
static inline int OPA_decr_and_test_int(OPA_int_t *p) { return OPA_fetch_and_add_int(p, -1) == 1; }
static inline int OPA_cas_int(OPA_int_t *p, int o, int n) { sim_yield_point(); return __sync_val_compare_and_swap(&p->v, o, n); }
static inline int OPA_swap_int(OPA_int_t *p, int n) { sim_yield_point(); return __atomic_exchange_n(&p->v, n, __ATOMIC_SEQ_CST); }
static inline void *OPA_cas_ptr(OPA_ptr_t *p, void *o, void *n) { sim_yield_point(); return __sync_val_compare_and_swap(&p->v, o, n); }
#define OPA_write_barrier() sim_yield_point()
#define OPA_read_barrier() sim_yield_point()
#define OPA_read_write_barrier() sim_yield_point()
#define OPA_compiler_barrier() ((void)0)
#define OPA_busy_wait() sim_yield_point()
#endif
