/* A deterministic scheduler: threads made with thrd_create run one at a time, and
 * which one is decided at each memory access and atomic operation of code compiled
 * with -fsanitize=thread (whose runtime this is, in libtsan's place). */
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
#define MAXT 340
#define MAXP 16
struct schedule {
    uint64_t seed;
    int every;                 /* >0: switch at one point of so many, at random */
    int np;                    /* else switch at these points only */
    struct { long at; int to; } p[MAXP];
    int slice;                 /* points a thread may go on for when others could */
};
/* text: rSEED.EVERY or pAT:TO,AT:TO,... */
int sched_parse(const char *text, struct schedule *s);
void sched_start(struct schedule *s);
void sched_stop(void);
void sched_point(void);
/* the running thread does nothing for so many points of the others */
void sched_nap(long n);
int sched_self(void);           /* 0 is the thread that started */
long sched_points(void);
int sched_switches(void);
extern void (*sched_stuck)(const char *how);    /* all threads wait, or for ever */
extern void (*sched_ended)(int self);           /* a thread is about to end */
extern int (*sched_refuse)(void);               /* whether the next thread is not to be had */
extern void (*sched_forked)(int child);         /* a thread is made, by the running one */
extern void (*sched_joined)(int child);         /* a thread has ended, and the running one knows */
/* an access to a: k is 'r' read, 'w' write, 'u' update, 'f' fence, or plain 'R', 'W' */
extern void (*sched_at)(const volatile void *a, char k, int order);
#endif
