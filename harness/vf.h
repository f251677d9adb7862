/* Instrumented allocator and event log, shared by all harnesses.
 * The library is compiled with RAII_MALLOC=vf_malloc and so on: every block it
 * requests or releases is seen here, with no change to its sources. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdlib.h>
#include <malloc.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vf_malloc(size_t n);
void *vf_calloc(size_t c, size_t n);
void *vf_realloc(void *p, size_t n);
void *vf_memalign(size_t a, size_t n);
void vf_free(void *p);

/* harness side */
struct vf_shared {
    volatile long live;      /* blocks not released */
    volatile long bad;       /* releases of something that is no live block */
    volatile long smash;     /* blocks written outside their bounds, or after release */
    volatile long allocs;    /* allocations made */
    volatile long failed;    /* failures injected */
    volatile size_t len;     /* bytes of log */
    volatile long overflow;  /* log full */
    char log[1];
};
extern struct vf_shared *vf;
extern int vf_timeouts;                 /* scripts that ran out of time */
extern volatile long vf_fail_in;        /* >0: that many allocations until one fails */
extern __thread long vf_fail_mine;      /* the same, for the allocations of one thread */
extern void (*vf_on_fail)(void);        /* called when one of these fails */
extern __thread int vf_told_big;       /* a request larger than all memory is told of, as a failure */
extern const char *volatile vf_op;      /* operation running, named by failure events */
void vf_setup(size_t logsize, size_t poolsize);   /* parent, once */
void vf_reset(void);                    /* parent, before each script */
void vf_audit(void);                    /* count smashed blocks */
long vf_off(const void *p);             /* address as small integer, -1 if not in the pool */
int vf_is_live(const void *p, size_t *size);
int vf_block_of(const void *p, long *base, size_t *size);
extern __thread int vf_tag;              /* added to events as "t" if not negative */
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_lock(void);
void ev_unlock(void);
extern size_t vf_most;                   /* what one run may log */
extern int vf_says;                      /* log what was written to standard error with a failing end */
/* run fn(arg) in a child, log how it ended as event `exit` */
void vf_run(void (*fn)(void *), void *arg, int timeout_ms);
extern void (*vf_on_free)(void *p);     /* harness hook: a block is released */
#ifdef __cplusplus
}
#endif
#endif
