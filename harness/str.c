/* Runs scripts of string and number calls, one process a script, and logs each
 * call with its arguments and result as events of spec/Strings.tla.
 *   ID OP ARGS ; OP ARGS ; ...       byte strings in hex ('-' is empty), numbers in decimal,
 *   64-bit values as 16 hex digits
 */
#include "raii.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef memalign
#include "vf.h"
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <limits.h>

static char *tok[100000]; static int ntok, ptok;
static const char *nxt(void) { return ptok < ntok ? tok[ptok++] : ""; }
static int num(void) { return atoi(nxt()); }
static uint64_t num64(void) { return strtoull(nxt(), NULL, 16); }

/* an input: exact bytes at a chosen alignment, `slack` bytes of `after` behind it */
typedef struct { unsigned char *p, *copy; size_t n, slack; } in;
static void *inputs[16]; static int ninputs;
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static in arg(int off, int term, size_t slack, int after) {
    const char *h = nxt(); in a; size_t i; unsigned char *b;
    a.n = h[0] == '-' ? 0 : strlen(h) / 2;
    a.slack = slack;
    b = vf_malloc(off + a.n + term + slack);
    inputs[ninputs++] = b;
    a.p = b + off;
    for (i = 0; i < a.n; i++) a.p[i] = (unsigned char)(hexv(h[2 * i]) << 4 | hexv(h[2 * i + 1]));
    if (term) a.p[a.n] = 0;
    memset(a.p + a.n + term, after, slack);
    a.n += term;
    a.copy = malloc(a.n + slack + 1);
    memcpy(a.copy, a.p, a.n + slack);
    a.n -= term;
    return a;
}
static int same(in *a, int term) { return memcmp(a->p, a->copy, a->n + term + a->slack) == 0; }

/* text of the event being built */
static char line[4 << 20]; static int ll;
static void put(const char *fmt, ...) { va_list ap; va_start(ap, fmt); ll += vsnprintf(line + ll, sizeof line - ll, fmt, ap); va_end(ap); }
static void bytes(const unsigned char *p, size_t n) {
    size_t i; put("[");
    for (i = 0; i < n; i++) put(i ? ",%d" : "%d", p[i]);
    put("]");
}
static void putin(const char *nm, in *a) { put(",\"%s\":", nm); bytes(a->p, a->n); }
static void limbs(const char *nm, uint64_t v) {
    put(",\"%s\":[%d,%d,%d,%d]", nm, (int)(v & 0xffff), (int)(v >> 16 & 0xffff), (int)(v >> 32 & 0xffff), (int)(v >> 48 & 0xffff));
}
static void start(const char *op) { ll = 0; put("\"e\":\"%s\"", op); }
static void done(void) { ev("%s", line); while (ninputs) vf_free(inputs[--ninputs]); }

static memory_t *U;
/* results to be intact until the end */
static struct { void *p; void *copy; size_t n; int own; } keep[200]; static int nkeep;
static void held(void *p, size_t n, int own) {
    if (nkeep == 200 || !p) return;
    keep[nkeep].p = p; keep[nkeep].n = n; keep[nkeep].copy = malloc(n + 1); keep[nkeep].own = own;
    memcpy(keep[nkeep++].copy, p, n);
}
/* block a result is in: its size, -1 if it is none */
static long blk(void *p) { size_t n; return vf_is_live(p, &n) ? (long)n : -1; }
static memory_t *scope(int sc) { return sc ? U : NULL; }

static void cstr(const char *nm, const char *s) {
    if (!s) put(",\"nul\":1,\"%s\":[]", nm);
    else { put(",\"nul\":0,\"%s\":", nm); bytes((const unsigned char *)s, strnlen(s, 300000)); }
}
static string vconcat(memory_t *sc, int n, ...) { va_list ap; string r; va_start(ap, n); r = str_concat_ex(sc, n, ap); va_end(ap); return r; }

static void one(const char *op) {
    in a, b, c; int i, n, o, o2, sc; long l; uint64_t v; char buf[64];
    start(op);
    if (!strcmp(op, "strlen")) {
        o = num(); a = arg(o, 1, 0, 0);
        l = (long)simd_strlen((char *)a.p);
        putin("s", &a); put(",\"r\":%ld,\"same\":%d", l, same(&a, 1));
    } else if (!strcmp(op, "strcmp")) {
        o = num(); o2 = num(); a = arg(o, 1, 0, 0); b = arg(o2, 1, 0, 0);
        n = simd_strcmp((char *)a.p, (char *)b.p);
        putin("s", &a); putin("t", &b);
        put(",\"r\":%d,\"eq\":%d,\"mt\":%d,\"same\":%d", n == 0, is_str_eq((char *)a.p, (char *)b.p), is_str_empty((char *)a.p), same(&a, 1) && same(&b, 1));
    } else if (!strcmp(op, "memchr") || !strcmp(op, "memrchr")) {
        char *r; o = num(); n = num(); o2 = num(); a = arg(o, 0, 16, o2);      /* n: byte sought, o2: bytes behind */
        r = op[3] == 'r' ? simd_memrchr((char *)a.p, (uint8_t)n, (uint32_t)a.n) : simd_memchr((char *)a.p, (uint8_t)n, (uint32_t)a.n);
        putin("s", &a);
        l = !r ? -1 : (r - (char *)a.p);
        if (l < -1 || l > 1000000) l = -2;
        put(",\"c\":%d,\"r\":%ld,\"same\":%d", n, l, same(&a, 0));
    } else if (!strcmp(op, "memchr8")) {
        o = num(); n = num(); a = arg(o, 0, 8, n);
        putin("s", &a);
        put(",\"c\":%d,\"r\":%d,\"has\":%d,\"k\":%d,\"same\":%d", n, (int)memchr8((char *)a.p, (uint8_t)n), hasbyte(cast((char *)a.p), (uint8_t)n),
            memchr(a.p, n, 8) ? (int)memchr8k((char *)a.p, (uint8_t)n) : -1, same(&a, 0));
    } else if (!strcmp(op, "known")) {      /* searches of a byte known to be there, or of printable text */
        o = num(); n = num(); a = arg(o, 0, 16, 'x');
        putin("s", &a);
        put(",\"c\":%d,\"mk\":%d,\"pk\":%d,\"p\":%d,\"rk\":%d,\"prk\":%d,\"pr\":%d,\"same\":%d", n, (int)memchrk((char *)a.p, a.n, n), (int)pmemchrk((char *)a.p, a.n, n), (int)pmemchr((char *)a.p, a.n, n),
            (int)memrchrk((char *)a.p, a.n, n), (int)pmemrchrk((char *)a.p, a.n, n), (int)pmemrchr((char *)a.p, a.n, n), same(&a, 0));
    } else if (!strcmp(op, "knownb")) {     /* a byte known to be there, among bytes of any kind */
        o = num(); n = num(); a = arg(o, 0, 16, 'x');
        putin("s", &a);
        put(",\"c\":%d,\"mk\":%d,\"rk\":%d,\"same\":%d", n, (int)memchrk((char *)a.p, a.n, n), (int)memrchrk((char *)a.p, a.n, n), same(&a, 0));
    } else if (!strcmp(op, "strpos")) {
        a = arg(num(), 1, 0, 0); b = arg(0, 1, 0, 0);
        n = strpos((char *)a.p, (char *)b.p);
        putin("s", &a); putin("t", &b);
        put(",\"r\":%d,\"in\":%d,\"same\":%d", n, is_str_in((char *)a.p, (char *)b.p), same(&a, 1) && same(&b, 1));
    } else if (!strcmp(op, "split")) {
        string *r; int cnt = -7; sc = num(); o = num(); a = arg(num(), 1, 0, 0); b = arg(0, 1, 0, 0);
        if (sc == 2) r = raii_split((char *)a.p, o ? NULL : (char *)b.p, &cnt);
        else r = str_split_ex(scope(sc), (char *)a.p, o ? NULL : (char *)b.p, &cnt);
        putin("s", &a); if (o) put(",\"t\":[32]"); else putin("t", &b);
        put(",\"nul\":%d,\"cnt\":%d,\"r\":[", !r, r ? cnt : 0);
        if (r) for (i = 0; i < 20000 && r[i]; i++) { if (i) put(","); bytes((unsigned char *)r[i], strnlen(r[i], 300000)); }
        put("],\"same\":%d", same(&a, 1) && same(&b, 1));
        if (r && blk(r) > 0) held(r, blk(r), sc == 0);
    } else if (!strcmp(op, "concat")) {
        string r; in x[6]; char *y[6]; int k = 1; sc = num(); n = num();
        for (i = 0; i < n; i++) { x[i] = arg(i & 3, 1, 0, 0); y[i] = (char *)x[i].p; }
        for (; i < 6; i++) y[i] = NULL;
        if (sc == 2) r = raii_concat(n, y[0], y[1], y[2], y[3], y[4], y[5]);
        else r = vconcat(scope(sc), n, y[0], y[1], y[2], y[3], y[4], y[5]);
        put(",\"a\":[");
        for (i = 0; i < n; i++) { if (i) put(","); bytes(x[i].p, x[i].n); k = k && same(&x[i], 1); }
        put("]"); cstr("r", r); put(",\"same\":%d", k);
        if (r) held(r, strnlen(r, 300000) + 1, sc == 0);
    } else if (!strcmp(op, "replace")) {
        string r; sc = num(); a = arg(num(), 1, 0, 0); b = arg(0, 1, 0, 0); c = arg(0, 1, 0, 0);
        if (sc == 2) r = raii_replace((char *)a.p, (char *)b.p, (char *)c.p);
        else r = str_replace_ex(scope(sc), (char *)a.p, (char *)b.p, (char *)c.p);
        putin("s", &a); putin("t", &b); putin("u", &c); cstr("r", r); put(",\"same\":%d", same(&a, 1) && same(&b, 1) && same(&c, 1));
        if (r) held(r, strnlen(r, 300000) + 1, sc == 0);
    } else if (!strcmp(op, "memdup")) {
        unsigned char *r; sc = num(); a = arg(num(), 0, 4, 'z');
        r = sc == 2 ? raii_memdup(a.p, a.n) : (unsigned char *)str_memdup_ex(U, a.p, a.n);
        putin("s", &a);
        put(",\"nul\":%d,\"r\":", !r); bytes(r, r ? a.n + 1 : 0);
        put(",\"same\":%d,\"other\":%d", same(&a, 0), r != a.p);
        if (r) held(r, a.n + 1, 0);
    } else if (!strcmp(op, "copy")) {
        char *d; o = num(); a = arg(0, 1, 0, 0);       /* o: how many, 0 for all */
        d = vf_malloc(a.n + 8); memset(d, '#', a.n + 8);
        l = str_copy(d, (char *)a.p, o) == d;
        putin("s", &a); put(",\"n\":%d,\"ok\":%ld,\"r\":", o, l); bytes((unsigned char *)d, a.n + 2); put(",\"same\":%d", same(&a, 1));
        vf_free(d);
    } else if (!strcmp(op, "enc")) {
        u_string r; sc = num(); a = arg(num(), 1, 0, 0);
        r = sc == 2 ? raii_encode64(a.p) : str_encode64_ex(U, a.p);
        putin("s", &a); cstr("r", (char *)r); put(",\"same\":%d", same(&a, 1));
        if (r) held(r, strnlen((char *)r, 300000) + 1, 0);
    } else if (!strcmp(op, "dec")) {
        u_string r; long sz; sc = num(); a = arg(num(), 1, 0, 0);
        r = sc == 2 ? raii_decode64(a.p) : str_decode64_ex(U, a.p);
        sz = r ? blk(r) : 0;
        putin("s", &a); put(",\"is\":%d,\"nul\":%d,\"r\":", is_base64(a.p), !r); bytes(r, sz > 0 ? sz : 0); put(",\"same\":%d", same(&a, 1));
        if (sz > 0) held(r, sz, 0);
    } else if (!strcmp(op, "itoa") || !strcmp(op, "itoa8")) {
        char *d = vf_malloc(64); v = num64(); memset(d, '#', 64);
        n = op[4] ? (int)itoa8((int32_t)(int64_t)v, d) : (int)simd_itoa((int64_t)v, d);
        limbs("v", v); put(",\"n\":%d", n); cstr("r", d);
        vf_free(d);
    } else if (!strcmp(op, "atou") || !strcmp(op, "atoi") || !strcmp(op, "htou") || !strcmp(op, "atou8") || !strcmp(op, "htou8")) {
        o = num(); o2 = num(); a = arg(o, 0, 24, o2);
        v = !strcmp(op, "atou") ? simd_atou((char *)a.p, a.n) : !strcmp(op, "atoi") ? (uint64_t)simd_atoi((char *)a.p, a.n)
          : !strcmp(op, "htou") ? simd_htou((char *)a.p, a.n) : !strcmp(op, "atou8") ? atou8((char *)a.p, a.n) : htou8((char *)a.p, a.n);
        putin("s", &a); limbs("r", v); put(",\"same\":%d", same(&a, 0));
    } else if (!strcmp(op, "atod")) {
        char d[400]; double f; o = num(); o2 = num(); a = arg(o, 0, 24, o2); n = num();
        f = simd_atod((char *)a.p, a.n);
        if (f > -1e30 && f < 1e30) sprintf(d, "%.*f", n, f); else strcpy(d, "?");
        putin("s", &a); cstr("r", d); put(",\"same\":%d", same(&a, 0));
    } else if (!strcmp(op, "utoap")) {
        char *d = vf_malloc(64); n = num(); v = num64(); memset(d, '#', 64);
        l = utoap(n, v, d) == d;
        put(",\"n\":%d,\"ok\":%ld", n, l); limbs("v", v); cstr("r", d);
        vf_free(d);
    } else if (!strcmp(op, "utoa2p")) {
        n = num(); utoa2p_ex(n, buf);
        put(",\"x\":%d,\"r\":[%d,%d],\"w\":[%d,%d]", n, buf[0], buf[1], utoa2p(n) & 255, utoa2p(n) >> 8);
    } else if (!strcmp(op, "cast8")) {
        o = num(); a = arg(o, 0, 9, 'q');
        putin("s", &a); limbs("r", cast8((char *)a.p, a.n)); put(",\"same\":%d", same(&a, 0));
    } else if (!strcmp(op, "bits")) {
        v = num64(); limbs("v", v);
        put(",\"ctz\":%d,\"clz\":%d,\"ffs\":%d,\"hz\":%d", v ? countr_zero(v) : -1, v ? countl_zero(v) : -1, countr_index(v), haszero(v));
    } else { ev("\"e\":\"scripterror\",\"what\":\"%s\"", op); _exit(9); }
    done();
}

static void script(void *arg) {
    int i, ok = 1;
    (void)arg;
    U = unique_init();
    while (ptok < ntok) {
        one(nxt());
        if (ptok < ntok && !strcmp(tok[ptok], ";")) ptok++;
    }
    for (i = 0; i < nkeep; i++) if (memcmp(keep[i].p, keep[i].copy, keep[i].n)) ok = 0;
    for (i = 0; i < nkeep; i++) if (keep[i].own) vf_free(keep[i].p);
    ev("\"e\":\"held\",\"ok\":%d", ok);
    raii_delete(U);
    raii_destroy();
    vf_audit();
    _exit(0);
}

int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r"); char *text, *p, *e, *s, *id, *w; long n; size_t i;
    if (!f) return 9;
    fseek(f, 0, SEEK_END); n = ftell(f); rewind(f);
    text = malloc(n + 1); if (fread(text, 1, n, f) != (size_t)n) return 9;
    text[n] = 0; fclose(f);
    vf_setup(16 << 20, 16 << 20);
    for (p = text; *p; p = e) {
        e = strchr(p, '\n');
        if (e) *e++ = 0; else e = p + strlen(p);
        ntok = ptok = 0;
        if (!(id = strtok_r(p, " ", &s))) continue;
        while ((w = strtok_r(NULL, " ", &s))) tok[ntok++] = w;
        if (vf_timeouts > 2) { printf("{\"id\":%s,\"ev\":[{\"e\":\"skipped\"}]}\n", id); continue; }
        vf_reset();
        vf_run(script, NULL, 5000);
        printf("{\"id\":%s,\"ev\":[", id);
        for (i = 0; i + 1 < vf->len; i++) putchar(vf->log[i] == '\n' ? ',' : vf->log[i]);
        printf("]}\n");
        fflush(stdout);
    }
    return 0;
}
