/* Variables with a value for each thread, under a deterministic schedule.
 * Line: ID SCHEDULE | ops of thread 0 | ops of thread 1 | ...
 *   g V, e V, d V     what the variable is, whether it is empty, delete
 *   u V K             update, to object K (1, 2) of the variable's pool, or 0 for NULL
 *   w V N, r V        write through the variable, read through it
 *   fork K, join K
 */
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "tlsv.h"
#include "vf.h"
#include "dsched.h"
#undef malloc

thrd_local_extern(rec_t, vrec)
thrd_local_extern(int, vint)
typedef long *longp;
thrd_local_external(longp, vptr)
thrd_static(short, vshort, NULL)
thrd_static(rec_t, vown, NULL)
thrd_local(char, vchar, NULL)
thrd_static_plain(longp, vps, NULL)

#define PLAIN __attribute__((no_sanitize_thread, noinline))
#define MAXPROG 8
#define MAXA 64
#define NV 7
#define NPOOL (2 * NV)            /* two of each variable's */
static rec_t pool[NPOOL];          /* usable as any of the types */
static char *tok[20000]; static int ntok, pbeg[MAXPROG], pend_[MAXPROG], nprog;
static char *schedtxt;
static thrd_t thr[MAXPROG];
static __thread int me;
static const void *seen[MAXA]; static int nseen;
/* addresses as small numbers: -K for the pool's */
static PLAIN int id(const void *p) {
    int i;
    if (!p) return 0;
    for (i = 0; i < NPOOL; i++) if (p == &pool[i]) return -1 - i;
    for (i = 0; i < nseen; i++) if (seen[i] == p) return i + 1;
    if (nseen == MAXA) return 999;
    seen[nseen++] = p;
    return nseen;
}
static PLAIN void at(const char *k, int v, long x) { ev("\"e\":\"%s\",\"t\":%d,\"v\":%d,\"x\":%ld", k, me, v, x); }

static void *get(int v) {
    switch (v) {
    case 0: return vrec();
    case 1: return vint();
    case 2: return vptr();
    case 3: return vshort();
    case 4: return vown();
    case 5: return vchar();
    default: return vps();
    }
}
static bool empty(int v) {
    switch (v) {
    case 0: return is_vrec_empty();
    case 1: return is_vint_empty();
    case 2: return is_vptr_empty();
    case 3: return is_vshort_empty();
    case 4: return is_vown_empty();
    case 5: return is_vchar_empty();
    default: return is_vps_empty();
    }
}
static void del(int v) {
    switch (v) {
    case 0: vrec_del(); break;
    case 1: vint_del(); break;
    case 2: vptr_del(); break;
    case 3: vshort_del(); break;
    case 4: vown_del(); break;
    case 5: vchar_del(); break;
    default: vps_del();
    }
}
static void update(int v, void *p) {
    switch (v) {
    case 0: vrec_update(p); break;
    case 1: vint_update(p); break;
    case 2: vptr_update(p); break;
    case 3: vshort_update(p); break;
    case 4: vown_update(p); break;
    case 5: vchar_update(p); break;
    default: vps_update(p);
    }
}
static PLAIN void put(int v, void *p, long x) {
    switch (v) {
    case 0: case 4: ((rec_t *)p)->a = ((rec_t *)p)->b = x; break;
    case 1: *(int *)p = (int)x; break;
    case 2: case 6: *(long *)p = x; break;
    case 3: *(short *)p = (short)x; break;
    default: *(char *)p = (char)x;
    }
    ev("\"e\":\"write\",\"t\":%d,\"v\":%d,\"x\":%d,\"c\":%ld", me, v, id(p), x);
}
static PLAIN void see(int v, void *p) {
    long x;
    switch (v) {
    case 0: case 4: x = ((rec_t *)p)->a == ((rec_t *)p)->b ? ((rec_t *)p)->a : -77777; break;
    case 1: x = *(int *)p; break;
    case 2: case 6: x = *(long *)p; break;
    case 3: x = *(short *)p; break;
    default: x = *(char *)p;
    }
    ev("\"e\":\"read\",\"t\":%d,\"v\":%d,\"x\":%d,\"c\":%ld", me, v, id(p), x);
}
static int run(void *arg);
static PLAIN void forkev(int k) { ev("\"e\":\"fork\",\"t\":%d,\"k\":%d", me, k); }
static void ops(int p, int upto) {
    while (p < upto) {
        const char *w = tok[p++];
        int v = atoi(tok[p++]), x;
        sched_point();
        switch (*w) {
        case 'g': at("get", v, id(get(v))); break;
        case 'e': at("empty", v, empty(v)); break;
        case 'd': del(v); at("del", v, 0); break;
        case 'u': x = atoi(tok[p++]); if (x) x += 2 * v; update(v, x ? &pool[x - 1] : NULL); at("update", v, -x); break;
        case 'w': x = atoi(tok[p++]); put(v, get(v), x); break;
        case 'r': see(v, get(v)); break;
        case 'f':
            forkev(v);
            if (thrd_create(&thr[v], run, (void *)(intptr_t)v)) { ev("\"e\":\"no thread\""); _exit(3); }
            break;
        case 'j': thrd_join(thr[v], NULL); ev("\"e\":\"join\",\"t\":%d,\"k\":%d", me, v); break;
        default: ev("\"e\":\"scripterror\",\"op\":\"%s\"", w); _exit(3);
        }
    }
}
static int run(void *arg) { me = (int)(intptr_t)arg; ops(pbeg[me], pend_[me]); return 0; }
static void ended(int self) { (void)self; ev("\"e\":\"tend\",\"t\":%d", me); }
static void stuck(const char *how) { ev("\"e\":\"stuck\",\"how\":\"%s\"", how); }

static void child(void *x) {
    static struct schedule s;
    (void)x;
    if (!sched_parse(schedtxt, &s)) { ev("\"e\":\"scripterror\",\"op\":\"schedule\""); return; }
    sched_ended = ended; sched_stuck = stuck;
    sched_start(&s);
    ops(pbeg[0], pend_[0]);
    sched_stop();
}

int main(int argc, char **argv) {
    FILE *f = fopen(argv[argc - 1], "r"); char *text, *p, *e, *s, *id, *w; long n; size_t i;
    if (!f) return 9;
    fseek(f, 0, SEEK_END); n = ftell(f); rewind(f);
    text = malloc(n + 1); if (fread(text, 1, n, f) != (size_t)n) return 9;
    text[n] = 0; fclose(f);
    vf_setup(1 << 20, 4 << 20);
    for (p = text; *p; p = e) {
        e = strchr(p, '\n');
        if (e) *e++ = 0; else e = p + strlen(p);
        ntok = 0; nprog = 0;
        if (!(id = strtok_r(p, " ", &s))) continue;
        schedtxt = strtok_r(NULL, " ", &s);
        while ((w = strtok_r(NULL, " ", &s))) {
            if (*w == '|') { if (nprog) pend_[nprog - 1] = ntok; pbeg[nprog++] = ntok; }
            else tok[ntok++] = w;
        }
        if (nprog) pend_[nprog - 1] = ntok;
        if (vf_timeouts > 2) { printf("{\"id\":%s,\"ev\":[{\"e\":\"skipped\"}]}\n", id); continue; }
        vf_reset();
        vf_run(child, NULL, 10000);
        printf("{\"id\":%s,\"ev\":[", id);
        for (i = 0; i + 1 < vf->len; i++) putchar(vf->log[i] == '\n' ? ',' : vf->log[i]);
        printf("]}\n");
        fflush(stdout);
    }
    return 0;
}
