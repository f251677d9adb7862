/* Arenas.  Line: ID SCHEDULE | ops of thread 0 | ops of thread 1 | ...  (schedule - : one thread)
 *   new A T        arena with threshold T          sco A      scope with an arena
 *   al A N         (-1: its capacity) arena_alloc / malloc_by         cal A C N  arena_calloc / calloc_by
 *   am A N         arena_alloc / malloc_arena      cam A C N  arena_calloc / calloc_arena
 *   clear A, free A, probe A K (scopes: deferred), cap A, fail N, look
 */
#include "raii.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef memalign
#include "vf.h"
#include "dsched.h"
#include <stdio.h>
#include <string.h>
#include <stdint.h>

#define MAXA 24
#define MAXB 2500
static char *tok[60000]; static int ntok, pbeg[16], pend_[16], nprog;
static char *schedtxt;
static arena_t A[MAXA]; static unique_t *U[MAXA];
static struct { unsigned char *p; size_t n; int a, z; } B[MAXB];
static int nb;
static __thread int pos, me, inop;

static int num(void) { return atoi(tok[pos++]); }
static unsigned char pat(int b, size_t i) { return (unsigned char)(b * 29 + i * 7 + (i >> 8) + 3); }
/* every block given and not cleared has what was written to it */
static int kept(void) {
    int b; size_t i, sz; long base;
    for (b = 0; b < nb; b++) if (B[b].p) {
        if (!vf_block_of(B[b].p, &base, &sz)) return 0;
        for (i = 0; i < B[b].n; i++) if (B[b].p[i] != pat(b, i)) return 0;
    }
    return 1;
}
static void freed(void *p) { if (inop) ev("\"e\":\"rel\",\"t\":%d,\"base\":%ld", me, vf_off(p)); }
static void given(int a, size_t n, unsigned char *p, int zero, int k, long before) {
    long base = -1; size_t size = 0, i; int z = 1;
    if (zero) { long b2; size_t s2; if (p && vf_block_of(p, &b2, &s2)) for (i = 0; i < n; i++) if (p[i]) { z = 0; break; } }
    if (!p || !vf_block_of(p, &base, &size)) base = -1;
    ev("\"e\":\"al\",\"t\":%d,\"a\":%d,\"n\":%ld,\"off\":%ld,\"base\":%ld,\"size\":%ld,\"z\":%d,\"kept\":%d,\"fresh\":%ld", me, a, (long)n,
       p ? vf_off(p) : -1L, base, (long)size, z, k, nprog > 1 ? 0L : vf->allocs - before);
    if (base < 0 || nb >= MAXB) return;
    B[nb].p = p; B[nb].n = n; B[nb].a = a;
    for (i = 0; i < n; i++) p[i] = pat(nb, i);
    nb++;
}
static void drop(int a) { int b; for (b = 0; b < nb; b++) if (B[b].a == a) B[b].p = NULL; }
static void probe(void *x) { ev("\"e\":\"probe\",\"t\":%d,\"k\":%d,\"kept\":%d", me, (int)(intptr_t)x, kept()); }

static void op1(const char *o) {
    if (!strcmp(o, "new")) {
        int a = num(), t = num();
        A[a] = arena_init(t); U[a] = NULL;
        ev("\"e\":\"new\",\"t\":%d,\"a\":%d,\"k\":\"arena\",\"th\":%d", me, a, t ? t : 10);
    } else if (!strcmp(o, "sco")) {
        int a = num();
        U[a] = unique_init_arena(); A[a] = NULL;
        ev("\"e\":\"new\",\"t\":%d,\"a\":%d,\"k\":\"scope\",\"th\":10", me, a);
    } else if (!strcmp(o, "al") || !strcmp(o, "am")) {
        int a = num(), n = num(); long before = vf->allocs; void *p; 
        if (n < 0) { n = (int)arena_capacity(U[a] ? (arena_t)U[a]->arena : A[a]); if (n <= 0 || n > 1000000) n = 8; }
        ev("\"e\":\"alb\",\"t\":%d,\"a\":%d,\"n\":%d", me, a, n);
        p = !U[a] ? arena_alloc(A[a], n) : o[1] == 'l' ? malloc_by(U[a], n) : malloc_arena(U[a], n);
        given(a, n, p, 0, kept(), before);
    } else if (!strcmp(o, "cal") || !strcmp(o, "cam")) {
        int a = num(), c = num(), n = num(); long before = vf->allocs; void *p;
        ev("\"e\":\"alb\",\"t\":%d,\"a\":%d,\"n\":%d", me, a, c * n);
        p = !U[a] ? arena_calloc(A[a], c, n) : o[2] == 'l' ? calloc_by(U[a], c, n) : calloc_arena(U[a], c, n);
        given(a, (size_t)c * n, p, 1, kept(), before);
    } else if (!strcmp(o, "clear")) {
        int a = num();
        drop(a);
        ev("\"e\":\"clear\",\"t\":%d,\"a\":%d", me, a);
        arena_clear(U[a] ? (arena_t)U[a]->arena : A[a]);
        ev("\"e\":\"cleared\",\"t\":%d,\"a\":%d,\"kept\":%d", me, a, kept());
    } else if (!strcmp(o, "free")) {
        int a = num();
        ev("\"e\":\"free\",\"t\":%d,\"a\":%d", me, a);
        if (U[a]) { free_arena(U[a]); drop(a); }
        else { drop(a); arena_free(A[a]); }
        ev("\"e\":\"freed\",\"t\":%d,\"a\":%d,\"kept\":%d", me, a, kept());
    } else if (!strcmp(o, "probe")) {
        int a = num(), k = num();
        size_t x = raii_deferred(U[a], probe, (void *)(intptr_t)k);
        ev("\"e\":\"%s\",\"t\":%d,\"a\":%d,\"k\":%d", x == (size_t)-1 ? "noreg" : "reg", me, a, k);
    } else if (!strcmp(o, "cap")) {
        int a = num(); size_t c = arena_capacity(U[a] ? (arena_t)U[a]->arena : A[a]);
        ev("\"e\":\"cap\",\"t\":%d,\"a\":%d,\"c\":%ld", me, a, c > 1000000000 ? 1000000000L : (long)c);
    } else if (!strcmp(o, "fail")) vf_fail_in = num();
    else if (!strcmp(o, "look")) ev("\"e\":\"look\",\"t\":%d,\"kept\":%d", me, kept());
    else { ev("\"e\":\"scripterror\",\"op\":\"%s\"", o); _exit(3); }
}
static void run(int k) {
    volatile int at;
    me = k; pos = pbeg[k];
    while (pos < pend_[k]) {
        const char *o = tok[pos++];
        at = pos;
        inop = 1;
        if (vf_fail_in > 0 && nprog == 1 && strcmp(o, "fail")) {
            int failed = 0, a = atoi(tok[pos]); arena_t r = *o == 'a' || *o == 'c' ? (U[a] ? (arena_t)U[a]->arena : A[a]) : NULL;
            size_t total = arena_total(r);
            try { op1(o); } catch_any { failed = 1; } end_try;
            if (failed) {
                ev("\"e\":\"failed\",\"t\":%d,\"kept\":%d,\"tot\":%d", me, kept(), total == arena_total(r));
                pos = at;      /* over the arguments */
                pos += !strcmp(o, "sco") || !strcmp(o, "clear") || !strcmp(o, "free") || !strcmp(o, "cap") ? 1 : o[0] == 'c' ? 3 : 2;
                if (!strcmp(o, "new") || !strcmp(o, "sco")) break;
            }
        } else op1(o);
        inop = 0;
    }
    inop = 0;
    vf_fail_in = 0;
}
static int thread(void *x) { int k = (int)(intptr_t)x; raii_init(); run(k); raii_destroy(); return 0; }
static void stuck(const char *how) { ev("\"e\":\"stuck\",\"how\":\"%s\"", how); }

static void child(void *x) {
    static struct schedule s; int i; thrd_t th[16];
    (void)x;
    raii_init();
    vf_on_free = freed;
    if (*schedtxt == '-') { run(0); return; }
    if (!sched_parse(schedtxt, &s)) { ev("\"e\":\"scripterror\",\"op\":\"schedule\""); return; }
    sched_stuck = stuck;
    sched_start(&s);
    for (i = 1; i < nprog; i++) if (thrd_create(&th[i], thread, (void *)(intptr_t)i)) { ev("\"e\":\"scripterror\",\"op\":\"thread\""); return; }
    run(0);
    for (i = 1; i < nprog; i++) thrd_join(th[i], NULL);
    sched_stop();
}

int main(int argc, char **argv) {
    FILE *f = fopen(argv[argc - 1], "r"); char *text, *p, *e, *s, *id, *w; long n; size_t i;
    if (!f) return 9;
    fseek(f, 0, SEEK_END); n = ftell(f); rewind(f);
    text = malloc(n + 1); if (fread(text, 1, n, f) != (size_t)n) return 9;
    text[n] = 0; fclose(f);
    vf_setup(1 << 20, 128 << 20);
    for (p = text; *p; p = e) {
        e = strchr(p, '\n');
        if (e) *e++ = 0; else e = p + strlen(p);
        ntok = 0; nprog = 0;
        if (!(id = strtok_r(p, " ", &s))) continue;
        schedtxt = strtok_r(NULL, " ", &s);
        while ((w = strtok_r(NULL, " ", &s))) {
            if (*w == '|') { if (nprog) pend_[nprog - 1] = ntok; pbeg[nprog++] = ntok; }
            else tok[ntok++] = w;
        }
        if (nprog) pend_[nprog - 1] = ntok;
        if (vf_timeouts > 2) { printf("{\"id\":%s,\"ev\":[{\"e\":\"skipped\"}]}\n", id); continue; }
        vf_reset();
        vf_run(child, NULL, 10000);
        printf("{\"id\":%s,\"ev\":[", id);
        for (i = 0; i + 1 < vf->len; i++) putchar(vf->log[i] == '\n' ? ',' : vf->log[i]);
        printf("]}\n");
        fflush(stdout);
    }
    return 0;
}
