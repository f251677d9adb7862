/* With argument hb before the file, accesses to the library's blocks that several
 * threads have touched are events too.
 * Threads, futures and spawn scopes, under a deterministic schedule.
 * Line: ID SCHEDULE | ops of program 0 | ops of program 1 | ...
 * Each program is run by at most one thread.  Operations of a program:
 *   probe D          defer on the thread's scope
 *   mem N            a block on the thread's scope, checked when the function is left
 *   yield N, nap N (does nothing while the others go on for N points)
 *   async K F A      thread for program K, argument A in form F: n none, i number, p pointer, l list, s a list shared by all of this program's
 *   get K            done K, wait K
 *   scope S          spawn S K F A (form also x: thrd_spawn_ex), sync S, result K, then S, fin S, destroy S
 *   fail N           the Nth allocation of this thread in its next call of those above fails
 *   refuse           its next call is given no thread
 *   async+ spawn+ scope+ get+   nothing if it was done before, else the same without +
 *   try ... end      throw NAME, panic TEXT, raise SIG
 *   ret V | retv N   last: returns V, or a block of N bytes by reference
 */
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include "raii.h"
#include "vf.h"
#include "dsched.h"
#undef malloc

#define MAXPROG 320
static char *tok[60000]; static int ntok;
static int pbeg[MAXPROG], pend_[MAXPROG], nprog;
static char *schedtxt;
static future F[MAXPROG]; static result_t R[MAXPROG]; static future_t S[MAXPROG];
static int hix[MAXPROG];       /* program -> index of its handle */
static long cell[MAXPROG];
static __thread int me;
static __thread struct { unsigned char *p; size_t n; } mems[64];
static __thread int nmems;
static __thread int pos;
static __thread int badreg;

static __thread long fail_next; static __thread int refuse_next, refusing;
#define LIB(call) (vf_fail_mine = fail_next, refusing = refuse_next, fail_next = refuse_next = 0, (call), vf_fail_mine = refusing = 0)
static void nomem(void) { ev("\"e\":\"nomem\",\"t\":%d", me); }
static int refuse(void) {
    if (!refusing) return 0;
    refusing = 0;
    ev("\"e\":\"refused\",\"t\":%d", me);
    return 1;
}
static int num(int *p) { return atoi(tok[(*p)++]); }
static void probe(void *x) { ev("\"e\":\"run\",\"t\":%d,\"d\":%d", me, (int)(intptr_t)x); }
static int matching(int p) {
    int d = 1;
    for (; d; p++) { if (!strcmp(tok[p], "try") || !strcmp(tok[p], "guard")) d++; else if (!strcmp(tok[p], "end")) d--; }
    return p;
}
static unsigned char pat(int k, size_t i) { return (unsigned char)(k * 37 + i * 11 + (i >> 8) + 1); }
/* a value got back: a number, or the name of a block whose bytes are all right */
static void show(char *o, int k, void *v) {
    /* is it one that was returned by reference?  the script knows */
    int p = pend_[k] - 2; size_t n, i;
    if (pend_[k] - pbeg[k] >= 2 && !strcmp(tok[p], "retv")) {
        n = atoi(tok[p + 1]);
        if (!v) { strcpy(o, "null"); return; }
        for (i = 0; i < n; i++) if (((unsigned char *)v)[i] != pat(k, i)) { sprintf(o, "wrong byte %d", (int)i); return; }
        sprintf(o, "block%d.%d", k, (int)n);
    } else sprintf(o, "%ld", (long)(intptr_t)v);
}
static void *run_prog(int k, args_t a, int form);
#define BODY(a, b, c) static void *body##a##b##c(args_t x) { return run_prog(a * 100 + b * 10 + c, x, 0); }
#define TEN(X, a, b) X(a, b, 0) X(a, b, 1) X(a, b, 2) X(a, b, 3) X(a, b, 4) X(a, b, 5) X(a, b, 6) X(a, b, 7) X(a, b, 8) X(a, b, 9)
#define HUNDRED(X, a) TEN(X, a, 0) TEN(X, a, 1) TEN(X, a, 2) TEN(X, a, 3) TEN(X, a, 4) TEN(X, a, 5) TEN(X, a, 6) TEN(X, a, 7) TEN(X, a, 8) TEN(X, a, 9)
#define ALL(X) HUNDRED(X, 0) HUNDRED(X, 1) HUNDRED(X, 2) TEN(X, 3, 0) TEN(X, 3, 1)
ALL(BODY)
#define NAME(a, b, c) body##a##b##c,
static thrd_func_t bodies[MAXPROG] = { ALL(NAME) };
static char aform[MAXPROG];

static __thread args_t lastlist; static __thread long lasta;
static void *make_arg(char form, int k, long *a) {
    aform[k] = form == 's' ? 'l' : form;
    if (form == 's') {      /* one list for several threads: bound to the creator's scope, which reads it first */
        if (!lastlist) { lastlist = args_for("ld", *a, (int)(*a * 7 + 1)); lasta = get_args(lastlist, 0).s_long; }
        *a = lasta;
        return lastlist;
    }
    if (form == 'n') return NULL;
    if (form == 'i') return (void *)(intptr_t)*a;
    if (form == 'p') { cell[k] = *a; return &cell[k]; }
    return args_for("ld", *a, (int)(*a * 7 + 1));
}

static __thread int tscope;
static void *on_result(void *acc, size_t i, values_type v) {
    char b[64]; int k; b[0] = 0;
    for (k = 1; k < MAXPROG; k++) if (R[k] && hix[k] == (int)i + tscope * 1000) break;
    if (k == MAXPROG) strcpy(b, "no such"); else show(b, k, v.object);
    ev("\"e\":\"thencall\",\"t\":%d,\"i\":%d,\"v\":\"%s\",\"acc\":%d", me, (int)i, b, (int)(intptr_t)acc);
    return (void *)((intptr_t)acc + 1);
}
static int nhandles[MAXPROG], gotten[MAXPROG];

static void ops(int upto);
static void do_try(void) {
    volatile int start = pos, after = matching(pos);
    ev("\"e\":\"try\",\"t\":%d", me);
    try {
        ops(after - 1);
        ev("\"e\":\"tryend\",\"t\":%d", me);
    } catch_any {
        vf_fail_mine = refusing = 0;
        ev("\"e\":\"caught\",\"t\":%d,\"n\":\"%s\",\"m\":\"%s\"", me, err ? err : "", ex_err.panic ? ex_err.panic : "");
    } end_try;
    pos = after;
    (void)start;
}
/* a guarded section: what it defers runs when it is left, at its end, by a return or by an exception */
static void in_section(int to) {
    ops(to);
    ev("\"e\":\"gleave\",\"t\":%d", me);
}
static __attribute__((noinline)) void section(int d, int to)
guard
    _defer(probe, (void *)(intptr_t)d);
    in_section(to);
guarded
static __attribute__((noinline)) int returning(int d, int to)
guard
    _defer(probe, (void *)(intptr_t)d);
    in_section(to);
    _return(5)
unguarded(0)
static void do_guard(void) {
    int d = num(&pos), after = matching(pos);
    ev("\"e\":\"guard\",\"t\":%d,\"d\":%d", me, d);
    if (d & 1) section(d, after - 1);
    else if (returning(d, after - 1) != 5) ev("\"e\":\"other value\",\"t\":%d", me);
    ev("\"e\":\"gdone\",\"t\":%d", me);
    pos = after;
}
static void *never(args_t a) { ev("\"e\":\"thread of no scope\",\"t\":0"); return NULL; }
static void op(void) {
    const char *o = tok[pos++]; char b[64];
    if (!strcmp(o, "probe")) {
        int d = num(&pos);
        ev("\"e\":\"reg\",\"t\":%d,\"d\":%d", me, d);
        raii_deferred(raii_init(), probe, (void *)(intptr_t)d);
    } else if (!strcmp(o, "mem")) {
        size_t n = num(&pos), i;
        unsigned char *p = malloc_full(raii_init(), n, RAII_FREE);
        for (i = 0; i < n; i++) p[i] = pat(me + 100, i);
        if (nmems < 64) { mems[nmems].p = p; mems[nmems++].n = n; }
    } else if (!strcmp(o, "yield")) { int n = num(&pos); while (n--) thrd_yield(); }
    else if (!strcmp(o, "nap")) sched_nap(num(&pos));
    else if (!strcmp(o, "fail")) fail_next = num(&pos);
    else if (!strcmp(o, "refuse")) refuse_next = 1;
    else if (!strcmp(o, "async+") && F[atoi(tok[pos])]) { pos += 3; fail_next = refuse_next = 0; }
    else if (!strcmp(o, "spawn+") && R[atoi(tok[pos + 1])]) { pos += 4; fail_next = refuse_next = 0; }
    else if (!strcmp(o, "scope+") && S[atoi(tok[pos])]) { pos++; fail_next = refuse_next = 0; }
    else if (!strcmp(o, "get+") && gotten[atoi(tok[pos])]) { pos++; fail_next = refuse_next = 0; }
    else if (!strcmp(o, "async") || !strcmp(o, "async+")) {
        int k = num(&pos); char f = tok[pos++][0]; long a = atol(tok[pos++]); future x; void *v = make_arg(f, k, &a);
        ev("\"e\":\"async\",\"t\":%d,\"k\":%d,\"a\":\"%ld\"", me, k, f == 'n' ? 0 : a);
        LIB(x = thrd_async(bodies[k], v));
        F[k] = x;
        ev("\"e\":\"asyncd\",\"t\":%d,\"k\":%d", me, k);
    } else if (!strcmp(o, "get") || !strcmp(o, "get+")) {
        int k = num(&pos); void *v;
        ev("\"e\":\"get\",\"t\":%d,\"k\":%d", me, k);
        LIB(v = thrd_get(F[k]).object);
        gotten[k] = 1;
        show(b, k, v);
        ev("\"e\":\"got\",\"t\":%d,\"k\":%d,\"v\":\"%s\"", me, k, b);
    } else if (!strcmp(o, "done")) {
        int k = num(&pos), r;
        ev("\"e\":\"done\",\"t\":%d,\"k\":%d", me, k);
        r = thrd_is_done(F[k]);
        ev("\"e\":\"doned\",\"t\":%d,\"k\":%d,\"r\":%d", me, k, r != 0);
    } else if (!strcmp(o, "wait")) {
        int k = num(&pos);
        ev("\"e\":\"wait\",\"t\":%d,\"k\":%d", me, k);
        thrd_wait(F[k], thrd_yield);
        ev("\"e\":\"waited\",\"t\":%d,\"k\":%d", me, k);
    } else if (!strcmp(o, "scope") || !strcmp(o, "scope+")) {
        int s = num(&pos); future_t x;
        ev("\"e\":\"scope\",\"t\":%d,\"s\":\"%d\"", me, s);
        LIB(x = thrd_scope());
        S[s] = x;
        ev("\"e\":\"scoped\",\"t\":%d", me);
    } else if (!strcmp(o, "spawn") || !strcmp(o, "spawn+")) {
        int s = num(&pos), k = num(&pos); char f = tok[pos++][0]; long a = atol(tok[pos++]); result_t r; void *v = f == 'x' ? NULL : make_arg(f, k, &a);
        ev("\"e\":\"spawn\",\"t\":%d,\"s\":\"%d\",\"k\":%d,\"a\":\"%ld\"", me, s, k, f == 'n' ? 0 : a);
        if (f == 'x') { aform[k] = 'x'; LIB(r = thrd_spawn_ex(bodies[k], "ld", a, (int)(a * 7 + 1))); }
        else LIB(r = thrd_spawn(bodies[k], v));
        hix[k] = nhandles[s]++ + s * 1000;
        R[k] = r;
        ev("\"e\":\"spawned\",\"t\":%d,\"k\":%d", me, k);
    } else if (!strcmp(o, "lost")) {
        int k = num(&pos);
        ev("\"e\":\"lost\",\"t\":%d", me);
        if (k) thrd_spawn_ex((thrd_func_t)never, "ld", 1L, 2); else thrd_spawn((thrd_func_t)never, NULL);
        ev("\"e\":\"spawned\",\"t\":%d,\"k\":-1", me);
    } else if (!strcmp(o, "sync")) {
        int s = num(&pos); future_t x;
        ev("\"e\":\"sync\",\"t\":%d,\"s\":\"%d\"", me, s);
        LIB(x = thrd_sync(S[s]));
        ev("\"e\":\"%s\",\"t\":%d", x == S[s] ? "synced" : "synced to another", me);
    } else if (!strcmp(o, "result")) {
        int k = num(&pos); void *v;
        ev("\"e\":\"result\",\"t\":%d,\"k\":%d", me, k);
        v = thrd_result(R[k]).object;
        show(b, k, v);
        ev("\"e\":\"resultd\",\"t\":%d,\"k\":%d,\"v\":\"%s\"", me, k, b);
    } else if (!strcmp(o, "then")) {
        tscope = num(&pos);
        ev("\"e\":\"then\",\"t\":%d,\"s\":\"%d\"", me, tscope);
        thrd_then(on_result, S[tscope], (void *)100);
        ev("\"e\":\"thend\",\"t\":%d", me);
    } else if (!strcmp(o, "fin")) {
        int s = num(&pos), r;
        ev("\"e\":\"fin\",\"t\":%d,\"s\":\"%d\"", me, s);
        r = thrd_is_finish(S[s]);
        ev("\"e\":\"find\",\"t\":%d,\"r\":%d", me, r != 0);
    } else if (!strcmp(o, "destroy")) {
        int s = num(&pos);
        ev("\"e\":\"destroy\",\"t\":%d,\"s\":\"%d\"", me, s);
        thrd_destroy(S[s]);
        S[s] = NULL;
    } else if (!strcmp(o, "try")) do_try();
    else if (!strcmp(o, "guard")) do_guard();
    else if (!strcmp(o, "throw")) {
        const char *n = tok[pos++];
        ev("\"e\":\"throw\",\"t\":%d,\"n\":\"%s\",\"m\":\"\"", me, n);
        if (!strcmp(n, "out_of_range")) throw(out_of_range);
        else if (!strcmp(n, "bad_alloc")) throw(bad_alloc);
        else if (!strcmp(n, "range_error")) throw(range_error);
        else throw(future_error);
    } else if (!strcmp(o, "panic")) {
        const char *n = tok[pos++];
        ev("\"e\":\"throw\",\"t\":%d,\"n\":\"panic\",\"m\":\"%s\"", me, n);
        raii_panic(n);
    } else if (!strcmp(o, "raise")) {
        int sig = num(&pos);
        ev("\"e\":\"throw\",\"t\":%d,\"n\":\"%s\",\"m\":\"\"", me, sig == SIGFPE ? "sig_fpe" : sig == SIGSEGV ? "sig_segv" : sig == SIGABRT ? "sig_abrt" : "sig_ill");
        raise(sig);
    } else { ev("\"e\":\"scripterror\",\"op\":\"%s\"", o); _exit(3); }
}
static void ops(int upto) { while (pos < upto) op(); }

static void checkmem(void) {
    int i; size_t j;
    for (i = 0; i < nmems; i++) for (j = 0; j < mems[i].n; j++)
        if (mems[i].p[j] != pat(me + 100, j)) { ev("\"e\":\"memory changed\",\"t\":%d", me); return; }
}
static void *run_prog(int k, args_t a, int main) {
    long v = 0; int form = aform[k]; void *r = NULL; int last = pend_[k], retv = 0; long rv = 0; char b[40];
    me = k; pos = pbeg[k];
    if (!main) {
        if (form == 'n') v = a == NULL ? 0 : -99;
        else if (form == 'i') v = (long)a;
        else if (form == 'p') v = (void *)a == (void *)&cell[k] ? *(long *)a : -98;
        else { v = get_args(a, 0).s_long; if (get_args(a, 1).integer != (int)(v * 7 + 1)) v = -97; }
        ev("\"e\":\"start\",\"t\":%d,\"a\":\"%ld\",\"x\":%d", k, v, sched_self());
    }
    if (last - pos >= 2 && (!strcmp(tok[last - 2], "ret") || !strcmp(tok[last - 2], "retv"))) {
        retv = tok[last - 2][3] == 'v'; rv = atol(tok[last - 1]); last -= 2;
    }
    ops(last);
    checkmem();
    if (retv) {
        unsigned char *p = RAII_MALLOC(rv); long i;
        for (i = 0; i < rv; i++) p[i] = pat(k, i);
        sprintf(b, "block%d.%ld", k, rv);
        r = thrd_returning(a, p, rv);
    } else { sprintf(b, "%ld", rv); r = (void *)(intptr_t)rv; }
    ev("\"e\":\"ret\",\"t\":%d,\"v\":\"%s\"", k, b);
    return r;
}
static void ended(int self) { (void)self; ev("\"e\":\"tend\",\"t\":%d", me); }
/* accesses */
static int hb; static int cpus;
extern char __data_start[], _end[];
static void seen(const volatile void *a, char k, int ord) {
    long o = k == 'f' ? 0 : vf_off((const void *)a);
    if (k == 'v' || k == 'V') return;       /* flags of signal handlers */
    if (o < 0 && (k != 'R' && k != 'W' || (const char *)a >= __data_start && (const char *)a < _end)) o = (long)a;
    if (o >= 0 && sched_self() >= 0) ev("\"e\":\"at\",\"x\":%d,\"a\":\"%ld\",\"k\":\"%c\",\"ord\":%d", sched_self(), o, k, ord);
}
static void forked(int k) { ev("\"e\":\"fork\",\"x\":%d,\"c\":%d", sched_self(), k); }
static void joined(int k) { ev("\"e\":\"join\",\"x\":%d,\"c\":%d", sched_self(), k); }
/* leaves the accesses to what several threads have touched, one of them to write */
#define NA (1 << 16)
static struct { long a; unsigned who; char wr; } acc[NA];
static int at_of(const char *l, long *a, int *x, char *k) { return sscanf(l, "{\"e\":\"at\",\"x\":%d,\"a\":\"%ld\",\"k\":\"%c", x, a, k) == 3; }
static unsigned slot(long a) { unsigned h = (unsigned)(a * 2654435761u) >> 16; while (acc[h].who && acc[h].a != a) h = (h + 1) % NA; return h; }
static void print_log(void) {
    char *l, *e, k; long a; int x; unsigned h, n = 0;
    vf->log[vf->len] = 0;
    if (hb) {
        memset(acc, 0, sizeof acc);
        for (l = vf->log; *l; l = e + 1) {
            e = strchr(l, '\n');
            if (!at_of(l, &a, &x, &k) || k == 'f') continue;
            h = slot(a);
            if (!acc[h].who && ++n > NA / 2) break;
            acc[h].a = a; acc[h].who |= 1u << x; if (k != 'R' && k != 'r') acc[h].wr = 1;
        }
    }
    for (n = 0, l = vf->log; *l; l = e + 1) {
        e = strchr(l, '\n');
        if (hb && at_of(l, &a, &x, &k) && k != 'f' && (h = slot(a), !acc[h].wr || !(acc[h].who & (acc[h].who - 1)))) continue;
        if (n++) putchar(',');
        fwrite(l, 1, e - l, stdout);
    }
}
/* the library is told of few processors: its tables grow sooner */
#include <sched.h>
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
    int i;
    (void)pid;
    memset(set, 0, n);
    for (i = 0; i < cpus; i++) CPU_SET(i, set);
    return 0;
}
static void stuck(const char *how) { ev("\"e\":\"stuck\",\"how\":\"%s\"", how); }

static void child(void *x) {
    static struct schedule s; int i;
    (void)x;
    if (!sched_parse(schedtxt, &s)) { ev("\"e\":\"scripterror\",\"op\":\"schedule\""); return; }
    sched_ended = ended; sched_stuck = stuck; sched_refuse = refuse; vf_on_fail = nomem;
    if (hb) { sched_at = seen; sched_forked = forked; sched_joined = joined; }
    raii_init();
    (void)i;
    sched_start(&s);
    run_prog(0, NULL, 1);
    sched_stop();
}

int main(int argc, char **argv) {
    FILE *f = fopen(argv[argc - 1], "r"); char *text, *p, *e, *s, *id, *w; long n;
    if (!f) return 9;
    fseek(f, 0, SEEK_END); n = ftell(f); rewind(f);
    text = malloc(n + 1); if (fread(text, 1, n, f) != (size_t)n) return 9;
    text[n] = 0; fclose(f);
    hb = argc > 2 && !strcmp(argv[1], "hb");
    vf_setup(hb ? 8 << 20 : 1 << 20, 32 << 20);
    for (p = text; *p; p = e) {
        e = strchr(p, '\n');
        if (e) *e++ = 0; else e = p + strlen(p);
        ntok = 0; nprog = 0;
        if (!(id = strtok_r(p, " ", &s))) continue;
        schedtxt = strtok_r(NULL, " ", &s);
        cpus = 1 + atoi(id) % 4;
        while ((w = strtok_r(NULL, " ", &s))) {
            if (*w == '|') { if (nprog) pend_[nprog - 1] = ntok; pbeg[nprog++] = ntok; }
            else tok[ntok++] = w;
        }
        if (nprog) pend_[nprog - 1] = ntok;
        if (vf_timeouts > 2) { printf("{\"id\":%s,\"ev\":[{\"e\":\"skipped\"}]}\n", id); continue; }
        vf_reset();
        vf_run(child, NULL, 10000);
        printf("{\"id\":%s,\"ev\":[", id);
        print_log();
        printf("]}\n");
        fflush(stdout);
    }
    return 0;
}
