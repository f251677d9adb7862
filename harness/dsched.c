#include "dsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <stdbool.h>

enum { FREE, RUN, JOINING, NAPPING, DONE };
static struct thr { int st, joins; long until; pthread_t id; sem_t go; int (*fn)(void *); void *arg; int res; int used; } T[MAXT];
static int nt, cur, on;
static __thread int me = -1;
static struct schedule S;
static uint64_t rs;
static long points, inslice, total, limit = 3000000;
static int switches;
void (*sched_stuck)(const char *how);
void (*sched_at)(const volatile void *a, char k, int order);
void (*sched_ended)(int self);
void (*sched_forked)(int child);
int (*sched_refuse)(void);
void (*sched_joined)(int child);

static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull >> 33; }

int sched_parse(const char *t, struct schedule *s) {
    char *e;
    memset(s, 0, sizeof *s);
    s->slice = 2000;
    if (*t == 'r') {
        s->seed = strtoull(t + 1, &e, 10);
        if (*e != '.') return 0;
        s->every = atoi(e + 1);
        return s->every > 0;
    }
    if (*t != 'p') return 0;
    for (t++; *t && s->np < MAXP; t = *e ? e + 1 : e) {
        s->p[s->np].at = strtol(t, &e, 10);
        if (*e != ':') return 0;
        s->p[s->np++].to = (int)strtol(e + 1, &e, 10);
    }
    s->slice = 400;
    return 1;
}
int sched_self(void) { return me; }
long sched_points(void) { return points; }
int sched_switches(void) { return switches; }

static void wait_turn(int i) { while (sem_wait(&T[i].go) && errno == EINTR) ; }
static int runnable(int i) { return T[i].st == RUN || (T[i].st == NAPPING && points >= T[i].until) || (T[i].st == JOINING && T[T[i].joins].st == DONE); }

/* give the turn to thread n */
static void pass(int n) {
    int self = me;
    if (n == self) return;
    cur = n; inslice = 0; switches++;
    sem_post(&T[n].go);
    if (T[self].st != DONE) wait_turn(self);
}
/* another runnable thread, -1 if none */
static int other(int pick) {
    int c[MAXT], n = 0, i;
    for (i = 0; i < nt; i++) if (i != me && runnable(i)) c[n++] = i;
    if (n) return c[pick % n];
    if (T[me].st == RUN) return -1;
    /* none can go on but by waking up: time passes */
    for (i = 0; i < nt; i++) if (i != me && T[i].st == NAPPING && (!n || T[i].until < T[c[0]].until)) { c[0] = i; n = 1; }
    return n ? c[0] : -1;
}
void sched_start(struct schedule *s) {
    S = *s;
    rs = S.seed * 0x9E3779B97F4A7C15ull + 0x1234567ull; if (!rs) rs = 1;
    rnd(); rnd();
    me = 0; nt = 1; cur = 0; points = total = inslice = 0; limit = 3000000; switches = 0;
    T[0].st = RUN; T[0].id = pthread_self(); sem_init(&T[0].go, 0, 0);
    on = 1;
}
void sched_stop(void) { on = 0; }

void sched_point(void) {
    int i, o;
    if (!on || me < 0 || me != cur) return;
    points++;
    if (++total > limit) { on = 0; if (sched_stuck) sched_stuck("livelock"); _exit(78); }
    if (nt == 1) return;
    if (++inslice > S.slice) {
        if ((o = other((int)rnd())) >= 0) pass(o); else inslice = 0;
        return;
    }
    if (S.every) {
        if (rnd() % S.every == 0 && (o = other((int)rnd())) >= 0) pass(o);
    } else
        for (i = 0; i < S.np; i++)
            if (S.p[i].at == points) { if ((o = other(S.p[i].to)) >= 0) pass(o); break; }
}

static void finish(int res) {
    int o;
    if (sched_ended) sched_ended(me);
    T[me].res = res; T[me].st = DONE;
    if ((o = other((int)rnd())) < 0) { on = 0; if (sched_stuck) sched_stuck("deadlock"); _exit(78); }
    pass(o);
}
static void *start(void *a) {
    int i = (int)(intptr_t)a, r;
    me = i;
    wait_turn(i);
    r = T[i].fn(T[i].arg);
    finish(r);
    return NULL;
}
int thrd_create(pthread_t *thr, int (*fn)(void *), void *arg) {
    int i = nt; pthread_attr_t at;
    if (i >= MAXT) return 2;
    if (sched_refuse && sched_refuse()) return 2;
    T[i].st = RUN; T[i].fn = fn; T[i].arg = arg; sem_init(&T[i].go, 0, 0);
    pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    nt++;
    if (sched_forked) sched_forked(i);
    if (pthread_create(&T[i].id, &at, start, (void *)(intptr_t)i)) { nt--; return 2; }
    *thr = T[i].id;
    sched_point();
    return 0;
}
void thrd_exit(int res) {
    finish(res);
    pthread_exit(NULL);
}
int thrd_join(pthread_t thr, int *res) {
    int i, o;
    sched_point();
    for (i = 0; i < nt; i++) if (T[i].used == 0 && T[i].id == thr && i) break;
    if (i == nt) return 2;          /* no such thread, or joined before */
    T[i].used = 1;
    if (T[i].st != DONE) {
        T[me].st = JOINING; T[me].joins = i;
        if (on) {
            if ((o = other((int)rnd())) < 0) { on = 0; if (sched_stuck) sched_stuck("deadlock"); _exit(78); }
            pass(o);
        }
        T[me].st = RUN;
    }
    pthread_join(thr, NULL);
    if (sched_joined) sched_joined(i);
    if (res) *res = T[i].res;
    return 0;
}
void sched_nap(long n) {
    int o;
    if (!on || n <= 0) return;
    limit += 5 * n;
    T[me].until = points + n; T[me].st = NAPPING;
    if ((o = other((int)rnd())) >= 0 && o != me && (T[o].st != NAPPING || T[o].until <= T[me].until || points >= T[o].until)) pass(o);
    T[me].st = RUN;
}
void thrd_yield(void) {
    int o;
    if (!on) return;
    points++;
    if (++total > limit) { on = 0; if (sched_stuck) sched_stuck("livelock"); _exit(78); }
    if ((o = other((int)rnd())) >= 0) pass(o);
}

/* -------------------------------------------- what -fsanitize=thread calls */
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
#define SEEN(k) do { if (sched_at) sched_at(a, k, 0); sched_point(); } while (0)
#define RW(n, x) void __tsan_##x##read##n(void *a) { SEEN('R'); } void __tsan_##x##write##n(void *a) { SEEN('W'); }
/* volatile ones are told apart with --param tsan-distinguish-volatile=1 */
#define VRW(n, x) void __tsan_##x##read##n(void *a) { SEEN('v'); } void __tsan_##x##write##n(void *a) { SEEN('V'); }
#define ACC(n) RW(n, ) RW(n, unaligned_) VRW(n, volatile_) VRW(n, unaligned_volatile_) \
    void __tsan_read##n##_pc(void *a, void *p) { (void)p; SEEN('R'); } void __tsan_write##n##_pc(void *a, void *p) { (void)p; SEEN('W'); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *a, unsigned long n) { (void)a; (void)n; sched_point(); }
void __tsan_write_range(void *a, unsigned long n) { (void)a; (void)n; sched_point(); }
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; sched_point(); }
void __tsan_vptr_read(void **a) { (void)a; sched_point(); }
#define ORD __ATOMIC_SEQ_CST
#define SAW(k, o) do { if (sched_at) sched_at(a, k, o); sched_point(); } while (0)
#define RMW(w, t, f) \
    t __tsan_atomic##w##_##f(volatile t *a, t v, int o) { t r; sched_point(); r = __atomic_##f(a, v, ORD); SAW('u', o); return r; }
#define ATO(w, t) \
    t __tsan_atomic##w##_load(const volatile t *a, int o) { t r; sched_point(); r = __atomic_load_n(a, ORD); SAW('r', o); return r; } \
    void __tsan_atomic##w##_store(volatile t *a, t v, int o) { sched_point(); __atomic_store_n(a, v, ORD); SAW('w', o); } \
    t __tsan_atomic##w##_exchange(volatile t *a, t v, int o) { t r; sched_point(); r = __atomic_exchange_n(a, v, ORD); SAW('u', o); return r; } \
    RMW(w, t, fetch_add) RMW(w, t, fetch_sub) RMW(w, t, fetch_and) RMW(w, t, fetch_or) RMW(w, t, fetch_xor) RMW(w, t, fetch_nand) \
    int __tsan_atomic##w##_compare_exchange_strong(volatile t *a, t *c, t v, int o, int f) { int r; sched_point(); r = __atomic_compare_exchange_n(a, c, v, 0, ORD, ORD); SAW(r ? 'u' : 'r', r ? o : f); return r; } \
    int __tsan_atomic##w##_compare_exchange_weak(volatile t *a, t *c, t v, int o, int f) { int r; sched_point(); r = __atomic_compare_exchange_n(a, c, v, 0, ORD, ORD); SAW(r ? 'u' : 'r', r ? o : f); return r; } \
    t __tsan_atomic##w##_compare_exchange_val(volatile t *a, t c, t v, int o, int f) { int r; sched_point(); r = __atomic_compare_exchange_n(a, &c, v, 0, ORD, ORD); SAW(r ? 'u' : 'r', r ? o : f); return c; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { sched_point(); if (sched_at) sched_at(NULL, 'f', o); sched_point(); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

/* ------------------------------------------------------------------ mutexes */
#include <threads.h>
#define MTX_LOCK(a) do { sched_point(); while (pthread_mutex_trylock((pthread_mutex_t *)(a))) thrd_yield(); SAW('u', __ATOMIC_ACQUIRE); } while (0)
int mtx_lock(mtx_t *a) { MTX_LOCK(a); return thrd_success; }
int mtx_unlock(mtx_t *a) { sched_point(); if (sched_at) sched_at(a, 'w', __ATOMIC_RELEASE); pthread_mutex_unlock((pthread_mutex_t *)a); sched_point(); return thrd_success; }
int mtx_trylock(mtx_t *a) { sched_point(); if (pthread_mutex_trylock((pthread_mutex_t *)a)) return thrd_busy; SAW('u', __ATOMIC_ACQUIRE); return thrd_success; }
