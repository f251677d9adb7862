/* Atomic operations, flags, locks, and plain data under a deterministic schedule.
 * Line: ID SCHEDULE obj NAME SIZE HEX ... | ops of thread 0 | ops of thread 1 | ...
 *   op O NAME A B     NAME of lib/gen_atomops.py's table, A and B bytes in hex, or -
 *   await O NAME A    until the operation, a load, returns A
 *   if HEX N          skip the next N operations unless the last result was HEX
 *   dw D V, dr D      plain data
 *   fence N, cfence, sfence N, yield, fork K, join K
 */
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "raii.h"
#include "vf.h"
#include "dsched.h"
#undef malloc
#include "ops.inc"

#define MAXPROG 8
#define NOPS (int)(sizeof optab / sizeof *optab)
static char *tok[20000]; static int ntok;
static int pbeg[MAXPROG], pend_[MAXPROG], nprog;
static int beg0;
static char *schedtxt;
static thrd_t thr[MAXPROG];
static struct { char name[8]; int size; unsigned char b[40] __attribute__((aligned(16))); } obj[8];
static int nobj;
static long data[8];
static __thread int me;
static __thread int inop;
static __thread unsigned char res[16]; static __thread int nres;

#define PLAIN __attribute__((no_sanitize_thread, noinline))
static PLAIN int find(const char *n) { int i; for (i = 0; i < nobj; i++) if (!strcmp(obj[i].name, n)) return i; ev("\"e\":\"scripterror\",\"op\":\"%s\"", n); _exit(3); }
static PLAIN int unhex(const char *h, unsigned char *o) {
    int n = 0; unsigned x;
    if (*h == '-') return 0;
    for (; *h; h += 2) { sscanf(h, "%2x", &x); o[n++] = (unsigned char)x; }
    return n;
}
static PLAIN void bytes(char *o, const unsigned char *b, int n) {
    int i; *o++ = '[';
    for (i = 0; i < n; i++) o += sprintf(o, "%s%d", i ? "," : "", b[i]);
    *o++ = ']'; *o = 0;
}
static PLAIN void dwr(int d, long v) { data[d] = v; ev("\"e\":\"dw\",\"t\":%d,\"d\":\"%d\",\"v\":%ld", me, d, v); }
static PLAIN void drd(int d) { ev("\"e\":\"dr\",\"t\":%d,\"d\":\"%d\",\"v\":%ld", me, d, data[d]); }

static struct { int t, o, ord; char k; size_t len; } last;
static PLAIN void at(const volatile void *a, char k, int ord) {
    int i;
    if (!inop) return;
    if (k < 'a') k += 32;      /* what is not atomic is seen as relaxed */
    for (i = 0; i < nobj; i++) if ((unsigned char *)a >= obj[i].b + 16 && (unsigned char *)a < obj[i].b + 24) break;
    if (i == nobj && k != 'f') return;
    if (k == 'f') i = 0;
    if (k == 'r' && last.t == me && last.o == i && last.ord == ord && last.k == k && last.len == vf->len) return;
    ev("\"e\":\"at\",\"t\":%d,\"o\":\"%s\",\"k\":\"%c\",\"ord\":%d", me, k == 'f' ? "" : obj[i].name, k, ord);
    last.t = me; last.o = i; last.ord = ord; last.k = k; last.len = vf->len;
}
static PLAIN void call(int o, const char *op, int sc, const unsigned char *a, int na, const unsigned char *b, int nb) {
    char x[80], y[80];
    bytes(x, a, na); bytes(y, b, nb);
    ev("\"e\":\"call\",\"t\":%d,\"o\":\"%s\",\"op\":\"%s\",\"sc\":%s,\"a\":%s,\"b\":%s", me, o < 0 ? "" : obj[o].name, op, sc ? "true" : "false", x, y);
    inop = 1;
}
static PLAIN void ret(void) { char x[80]; inop = 0; bytes(x, res, nres); ev("\"e\":\"ret\",\"t\":%d,\"r\":%s", me, x); }
static PLAIN int opnum(const char *n) {
    int i;
    for (i = 0; i < NOPS; i++) if (!strcmp(optab[i].n, n)) return i;
    ev("\"e\":\"scripterror\",\"op\":\"%s\"", n); _exit(3);
}
static int run(void *arg);
static PLAIN void forkev(int k) { ev("\"e\":\"fork\",\"t\":%d,\"k\":%d", me, k); }
static void ops(int p, int upto) {
    while (p < upto) {
        const char *w = tok[p++];
        unsigned char a[16], b[16]; int na, nb, i, o;
        if (!strcmp(w, "op")) {
            o = find(tok[p++]); i = opnum(tok[p++]); na = unhex(tok[p++], a); nb = unhex(tok[p++], b);
            call(o, optab[i].op, optab[i].sc, a, na, b, nb);
            nres = optab[i].f(obj[o].b + 16, a, b, res);
            ret();
        } else if (!strcmp(w, "await")) {
            o = find(tok[p++]); i = opnum(tok[p++]); na = unhex(tok[p++], a);
            call(o, "await", optab[i].sc, a, na, b, 0);
            while (nres = optab[i].f(obj[o].b + 16, a, b, res), memcmp(res, a, na)) thrd_yield();
            ret();
        } else if (!strcmp(w, "if")) {
            na = unhex(tok[p++], a); i = atoi(tok[p++]);
            if (nres != na || memcmp(res, a, na))
                while (i--) {          /* over one operation */
                    w = tok[p++];
                    p += !strcmp(w, "op") ? 4 : !strcmp(w, "await") ? 3 : !strcmp(w, "dw") ? 2 : !strcmp(w, "yield") || !strcmp(w, "cfence") ? 0 : !strcmp(w, "if") ? 2 : 1;
                }
        } else if (!strcmp(w, "dw")) { i = atoi(tok[p++]); dwr(i, atol(tok[p++])); }
        else if (!strcmp(w, "dr")) drd(atoi(tok[p++]));
        else if (!strcmp(w, "yield")) thrd_yield();
        else if (!strcmp(w, "fence")) {
            i = atoi(tok[p++]); call(-1, "fence", 0, a, 0, b, 0);
            if (i == 2) atomic_thread_fence(memory_order_acquire);
            else if (i == 3) atomic_thread_fence(memory_order_release);
            else if (i == 4) atomic_thread_fence(memory_order_acq_rel);
            else atomic_thread_fence(memory_order_seq_cst);
            nres = 0; ret();
        } else if (!strcmp(w, "cfence")) {
            call(-1, "fence", 0, a, 0, b, 0);
            c89atomic_thread_fence(memory_order_seq_cst);
            nres = 0; ret();
        } else if (!strcmp(w, "fork")) {
            int k = atoi(tok[p++]);
            forkev(k);
            if (thrd_create(&thr[k], run, (void *)(intptr_t)k)) { ev("\"e\":\"no thread\""); _exit(3); }
        } else if (!strcmp(w, "join")) {
            int k = atoi(tok[p++]);
            thrd_join(thr[k], NULL);
            ev("\"e\":\"join\",\"t\":%d,\"k\":%d", me, k);
        } else { ev("\"e\":\"scripterror\",\"op\":\"%s\"", w); _exit(3); }
    }
}
static int run(void *arg) { me = (int)(intptr_t)arg; ops(pbeg[me], pend_[me]); return 0; }
static void ended(int self) { (void)self; ev("\"e\":\"tend\",\"t\":%d", me); }
static void stuck(const char *how) { ev("\"e\":\"stuck\",\"how\":\"%s\"", how); }

static void child(void *x) {
    static struct schedule s; int p = 0, i, j; char t[80];
    (void)x;
    if (!sched_parse(schedtxt, &s)) { ev("\"e\":\"scripterror\",\"op\":\"schedule\""); return; }
    for (nobj = 0; p < beg0; nobj++) {
        p++;
        strncpy(obj[nobj].name, tok[p++], 7);
        obj[nobj].size = atoi(tok[p++]);
        memset(obj[nobj].b, 0xA5, sizeof obj[nobj].b);
        unhex(tok[p++], obj[nobj].b + 16);
        bytes(t, obj[nobj].b + 16, obj[nobj].size);
        ev("\"e\":\"obj\",\"o\":\"%s\",\"v\":%s", obj[nobj].name, t);
    }
    sched_ended = ended; sched_stuck = stuck; sched_at = at;
    sched_start(&s);
    ops(pbeg[0], pend_[0]);
    sched_stop();
    for (i = 0; i < nobj; i++)
        for (j = 0; j < 40; j++)
            if ((j < 16 || j >= 16 + obj[i].size) && obj[i].b[j] != 0xA5) { ev("\"e\":\"written beside %s\"", obj[i].name); return; }
}

int main(int argc, char **argv) {
    FILE *f = fopen(argv[argc - 1], "r"); char *text, *p, *e, *s, *id, *w; long n; size_t i;
    if (!f) return 9;
    fseek(f, 0, SEEK_END); n = ftell(f); rewind(f);
    text = malloc(n + 1); if (fread(text, 1, n, f) != (size_t)n) return 9;
    text[n] = 0; fclose(f);
    vf_setup(1 << 20, 4 << 20);
    for (p = text; *p; p = e) {
        e = strchr(p, '\n');
        if (e) *e++ = 0; else e = p + strlen(p);
        ntok = 0; nprog = 0; beg0 = 0;
        if (!(id = strtok_r(p, " ", &s))) continue;
        schedtxt = strtok_r(NULL, " ", &s);
        while ((w = strtok_r(NULL, " ", &s))) {
            if (*w == '|') { if (nprog) pend_[nprog - 1] = ntok; else beg0 = ntok; pbeg[nprog++] = ntok; }
            else tok[ntok++] = w;
        }
        if (nprog) pend_[nprog - 1] = ntok;
        if (vf_timeouts > 2) { printf("{\"id\":%s,\"ev\":[{\"e\":\"skipped\"}]}\n", id); continue; }
        vf_reset();
        vf_run(child, NULL, 10000);
        printf("{\"id\":%s,\"ev\":[", id);
        for (i = 0; i + 1 < vf->len; i++) putchar(vf->log[i] == '\n' ? ',' : vf->log[i]);
        printf("]}\n");
        fflush(stdout);
    }
    return 0;
}
