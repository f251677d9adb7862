/* Runs scripts of argument list operations, one process a script, and logs them
 * as events of spec/Args.tla.
 *   ID OP ARGS ; OP ARGS ; ...
 *   mk L CTX FMT V..     CTX n: args_for, z: raii_args_for(NULL), t: of the thread's scope,
 *                        u, v: of a scope of its own, x..: the same by raii_args_ex
 *   get L I SC           SC a: get_args, n: raii_get_args(NULL), t, u, v: raii_get_args(that scope)
 *   in L I ; afree L ; probe SC K ; end SC
 *   thr L .. endthr      the operations between in a thread given the list
 *   spw L FMT V .. endthr  the same in a thread given the arguments
 */
#include "raii.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef memalign
#include "vf.h"
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>

static char *tok[100000]; static int ntok, ptok;
static const char *nxt(void) { return ptok < ntok ? tok[ptok++] : ""; }
static int num(void) { return atoi(nxt()); }

enum { NL = 40, NV = 320 };
static args_t list[NL]; static void *arr[NL]; static char fmt[NL][NV + 1]; static int made;
static memory_t *U, *V;
static future_t P;
static uint64_t val[NV]; static int nval;

static void freed(void *p) {
    int i;
    for (i = 0; i < made; i++) {
        if (list[i] && p == (void *)list[i]) { ev("\"e\":\"free\",\"l\":%d,\"part\":1", i); return; }
        if (arr[i] && p == arr[i]) { ev("\"e\":\"free\",\"l\":%d,\"part\":0", i); return; }
    }
}

/* Where the System V ABI puts variadic arguments: integers in the general registers
 * left, doubles in the vector ones, in their own order; the others on the stack. */
static uint64_t G[6], S[NV]; static double D[8];
static void place(const char *f, int regs) {
    int i, g = 0, d = 0, s = 0;
    for (i = 0; i < 6; i++) G[i] = 0xdeadbeef00000000ull + i;
    for (i = 0; i < 8; i++) D[i] = -1.25 * i;
    for (i = 0; i < NV; i++) S[i] = 0xbadbadbad0000000ull + i;
    for (i = 0; f[i]; i++) {
        if (f[i] == 'f' && d < 8) memcpy(&D[d++], &val[i], 8);
        else if (f[i] != 'f' && g < regs) G[g++] = val[i];
        else S[s++] = val[i];
    }
}
#define DS D[0], D[1], D[2], D[3], D[4], D[5], D[6], D[7]
#define S8(k) S[k], S[k + 1], S[k + 2], S[k + 3], S[k + 4], S[k + 5], S[k + 6], S[k + 7]
#define S64(k) S8(k), S8(k + 8), S8(k + 16), S8(k + 24), S8(k + 32), S8(k + 40), S8(k + 48), S8(k + 56)
#define SS S64(0), S64(64), S64(128), S64(192), S64(256)
static args_t by_ex(memory_t *scope, const char *desc, ...) {
    va_list ap; args_t a;
    va_start(ap, desc); a = raii_args_ex(scope, desc, ap); va_end(ap);
    return a;
}
static memory_t *scope(char c) { return c == 't' ? raii_init() : c == 'u' ? U : c == 'v' ? V : NULL; }

static void limbs(char *o, uint64_t v) {
    sprintf(o, "[%d,%d,%d,%d]", (int)(v & 0xffff), (int)(v >> 16 & 0xffff), (int)(v >> 32 & 0xffff), (int)(v >> 48 & 0xffff));
}
static void readvals(int l) {
    const char *f = nxt(); int i;
    if (f[0] == '-') f = "";
    strncpy(fmt[l], f, NV);
    nval = (int)strlen(fmt[l]);
    for (i = 0; i < nval; i++) val[i] = strtoull(nxt(), NULL, 16);
}
static void made_ev(int l, const char *ctx, args_t a) {
    static char b[NV * 40]; char *o = b; int i; size_t sz;
    o += sprintf(o, "\"fmt\":[");
    for (i = 0; i < nval; i++) o += sprintf(o, i ? ",%d" : "%d", fmt[l][i]);
    o += sprintf(o, "],\"v\":[");
    for (i = 0; i < nval; i++) { char t[40]; limbs(t, val[i]); o += sprintf(o, i ? ",%s" : "%s", t); }
    sprintf(o, "]");
    list[l] = a; arr[l] = a && vf_is_live(a->args, &sz) ? a->args : NULL;
    ev("\"e\":\"mk\",\"l\":%d,\"ctx\":\"%s\",%s,\"n\":%d,\"parts\":%s,\"ok\":%d", l, ctx, b, a ? (int)a->n_args : -1, arr[l] ? "[0,1]" : "[1]",
       a && is_type(a, RAII_ARGS) && vf_is_live(a, &sz));
    if (made <= l) made = l + 1;
}
static void value_ev(const char *e, int l, int i, const char *sc, values_type r) {
    char t[40]; uint64_t v = 0; int k, z = 1;
    int c = i >= 0 && i < (int)strlen(fmt[l]) ? fmt[l][i] : 0;
    for (k = 0; k < (int)sizeof r; k++) if (((unsigned char *)&r)[k]) z = 0;
    switch (c) {
        case 'l': v = (uint64_t)r.s_long; break;
        case 'z': v = (uint64_t)r.max_size; break;
        case 'u': v = r.u_int; break;
        case 'i': v = (uint32_t)r.integer; break;
        case 'd': v = (uint64_t)r.long_long; break;
        case 'c': v = (unsigned char)r.schar; break;
        case 's': v = (uint64_t)(uintptr_t)r.char_ptr; break;
        case 'a': v = (uint64_t)(uintptr_t)r.array; break;
        case 'x': v = (uint64_t)(uintptr_t)r.func; break;
        case 'f': memcpy(&v, &r.precision, 8); break;
        default: v = (uint64_t)(uintptr_t)r.object; break;
    }
    limbs(t, v);
    ev("\"e\":\"%s\",\"l\":%d,\"i\":%d,\"sc\":\"%s\",\"r\":%s,\"z\":%d", e, l, i, sc, t, z);
}

static void probe(void *d) { ev("\"e\":\"probe\",\"k\":%d", (int)(intptr_t)d); }
static void ops(int inthread);
static int cur;
static void_t body(args_t a) {
    ev("\"e\":\"in_thread\",\"l\":%d,\"same\":%d", cur, a == list[cur]);
    ops(1);
    ev("\"e\":\"leave\"");
    return (void_t)(intptr_t)(cur + 1000);
}
static void_t body_ex(args_t a) {
    made_ev(cur, "p", a);
    return body(a);
}
/* the thread's own defers show when its scope ends */

static void ops(int inthread) {
    while (ptok < ntok) {
        const char *op = nxt();
        if (!strcmp(op, ";")) continue;
        if (!strcmp(op, "endthr")) return;
        if (!strcmp(op, "mk")) {
            int l = num(); char c[4]; args_t a; strncpy(c, nxt(), 3); c[3] = 0; readvals(l);
            if (c[0] == 'n') { place(fmt[l], 5); a = args_for(fmt[l], G[0], G[1], G[2], G[3], G[4], DS, SS); }
            else if (c[0] == 'x') { place(fmt[l], 4); a = by_ex(scope(c[1]), fmt[l], G[0], G[1], G[2], G[3], DS, SS); }
            else { place(fmt[l], 4); a = raii_args_for(scope(c[0]), fmt[l], G[0], G[1], G[2], G[3], DS, SS); }
            { char k[2] = {0}; k[0] = c[0] == 'x' ? c[1] : c[0]; if (k[0] == 'z') k[0] = 'n'; made_ev(l, k, a); }
        } else if (!strcmp(op, "get")) {
            int l = num(), i = num(); char sc[2];
            sc[0] = nxt()[0]; sc[1] = 0;
            if (sc[0] == 'a') value_ev("get", l, i, "n", get_args(list[l], i));
            else value_ev("get", l, i, sc, raii_get_args(scope(sc[0]), list[l], i));
        } else if (!strcmp(op, "in")) {
            int l = num(), i = num();
            value_ev("in", l, i, "-", args_in(list[l], (size_t)(long)i));
        } else if (!strcmp(op, "afree")) {
            int l = num();
            ev("\"e\":\"afree\",\"l\":%d", l);
            args_free(list[l]);
            ev("\"e\":\"afreed\",\"l\":%d", l);
        } else if (!strcmp(op, "probe")) {
            char sc[2]; int k; sc[0] = nxt()[0]; sc[1] = 0; k = num();
            raii_deferred(scope(sc[0]), probe, (void *)(intptr_t)k);
            ev("\"e\":\"reg\",\"sc\":\"%s\",\"k\":%d", sc, k);
        } else if (!strcmp(op, "end")) {
            char sc[2]; sc[0] = nxt()[0]; sc[1] = 0;
            ev("\"e\":\"end\",\"sc\":\"%s\"", sc);
            if (sc[0] == 't') raii_deferred_clean();
            else if (sc[0] == 'u') { raii_delete(U); U = NULL; }
            else if (sc[0] == 'v') { raii_delete(V); V = NULL; }
            else { thrd_destroy(P); P = NULL; }
            ev("\"e\":\"ended\",\"sc\":\"%s\"", sc);
        } else if (!strcmp(op, "thr")) {
            int l = num(); void *r;
            cur = l;
            r = thrd_get(thrd_async(body, list[l])).object;
            ev("\"e\":\"joined\",\"ok\":%d", (intptr_t)r == l + 1000);
        } else if (!strcmp(op, "spw")) {
            int l = num(); result_t r; readvals(l);
            cur = l;
            if (!P) P = thrd_scope();
            place(fmt[l], 4);
            r = thrd_spawn_ex(body_ex, fmt[l], G[0], G[1], G[2], G[3], DS, SS);
            thrd_sync(P);
            ev("\"e\":\"joined\",\"ok\":%d", (intptr_t)thrd_result(r).object == l + 1000);
        } else { ev("\"e\":\"scripterror\",\"op\":\"%s\"", op); return; }
    }
}

static void child(void *x) {
    (void)x;
    raii_init();
    U = unique_init(); V = unique_init();
    vf_on_free = freed;
    ops(0);
    if (P) { ev("\"e\":\"end\",\"sc\":\"p\""); thrd_destroy(P); ev("\"e\":\"ended\",\"sc\":\"p\""); }
    if (V) { ev("\"e\":\"end\",\"sc\":\"v\""); raii_delete(V); ev("\"e\":\"ended\",\"sc\":\"v\""); }
    if (U) { ev("\"e\":\"end\",\"sc\":\"u\""); raii_delete(U); ev("\"e\":\"ended\",\"sc\":\"u\""); }
    ev("\"e\":\"end\",\"sc\":\"t\"");
}

int main(int argc, char **argv) {
    FILE *f = fopen(argv[argc - 1], "r"); char *text, *p, *e, *s, *id, *w; long n; size_t i;
    if (!f) return 9;
    fseek(f, 0, SEEK_END); n = ftell(f); rewind(f);
    text = malloc(n + 1); if (fread(text, 1, n, f) != (size_t)n) return 9;
    text[n] = 0; fclose(f);
    vf_setup(1 << 20, 16 << 20);
    for (p = text; *p; p = e) {
        e = strchr(p, '\n');
        if (e) *e++ = 0; else e = p + strlen(p);
        ntok = ptok = 0;
        if (!(id = strtok_r(p, " ", &s))) continue;
        while ((w = strtok_r(NULL, " ", &s))) tok[ntok++] = w;
        if (vf_timeouts > 2) { printf("{\"id\":%s,\"ev\":[{\"e\":\"skipped\"}]}\n", id); continue; }
        vf_reset();
        vf_run(child, NULL, 5000);
        printf("{\"id\":%s,\"ev\":[", id);
        for (i = 0; i + 1 < vf->len; i++) putchar(vf->log[i] == '\n' ? ',' : vf->log[i]);
        printf("]}\n");
        fflush(stdout);
    }
    return 0;
}
