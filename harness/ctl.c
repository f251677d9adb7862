/* Runs scripts (see lib/ctlgen.py) against the library, one process each, and
 * logs what the script calls and what the library does as events of spec/Raii.tla.
 *   ctl FILE     one script a line: ID TOKENS...
 *   prints one line a script: {"id":ID,"ev":[...]}
 * With MT a line is ID SCHEDULE SCRIPT SCRIPT ..., a script for each thread, the
 * first for the main one; the events carry the thread (spec/Threads.tla).
 */
#include "raii.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef memalign
#include "vf.h"
#ifdef MT
#include "dsched.h"
#endif
#include <stdio.h>
#include <string.h>
#include <pthread.h>
#include <unistd.h>

EX_EXCEPTION(my_error);
EX_EXCEPTION(other_error);
EX_EXCEPTION(usr_error);
EX_EXCEPTION(my_err);            /* names that begin alike */
EX_EXCEPTION(my_error_2);
EX_EXCEPTION(My_error);          /* and in which only the case differs */
EX_EXCEPTION(an_exception_whose_name_is_as_long_as_that_of_a_program_which_says_at_length_what_it_is_that_went_wrong_with_it);
EX_EXCEPTION(an_exception_whose_name_is_as_long_as_that_of_a_program_which_says_at_length_what_it_is_that_went_wrong_with_us);
/* the ones the library has */
#define LIB_EXCEPTIONS(X) X(invalid_type) X(range_error) X(divide_by_zero) X(future_error) X(system_error) X(domain_error) \
    X(length_error) X(invalid_argument) X(division_by_zero) X(out_of_memory) X(sig_int) X(sig_abrt) X(sig_alrm) X(sig_bus) \
    X(sig_fpe) X(sig_ill) X(sig_quit) X(sig_segv) X(sig_term) X(sig_trap) X(sig_hup) X(sig_winch) X(access_violation) \
    X(array_bounds_exceeded) X(breakpoint) X(flt_overflow) X(int_overflow) X(illegal_instruction) X(stack_overflow) \
    X(invalid_handle) X(bad_alloc) X(logic_error) X(out_of_range)
extern const char EX_NAME(out_of_range)[], EX_NAME(sig_fpe)[];

/* ---- scripts */
typedef struct block_s block;
typedef struct node_s {
    char op;
    const char *s, *s2;        /* scope, name */
    int a, b, c;
    block *blk[8];
    int nblk;
    struct node_s *next;
} node;
struct block_s { node *first; };

static void die(const char *what, const char *s) { ev("\"e\":\"scripterror\",\"what\":\"%s %s\"", what, s); _exit(9); }
static char *tok[200000];
static int ntok, ptok;

static const char *nxt(void) { return ptok < ntok ? tok[ptok++] : ""; }
static int num(void) { return atoi(nxt()); }
static node *pstmt(void);
static block *pblock(void) {
    block *b = calloc(1, sizeof *b); node **tail = &b->first;
    if (strcmp(nxt(), "{")) { die("{ expected", ""); }
    while (ptok < ntok && strcmp(tok[ptok], "}")) { *tail = pstmt(); tail = &(*tail)->next; }
    ptok++;
    return b;
}
static node *pstmt(void) {
    node *n = calloc(1, sizeof *n); int i;
    n->op = nxt()[0];
    switch (n->op) {
    case 'D': n->s = nxt(); n->a = num(); n->b = num(); n->blk[n->nblk++] = pblock(); break;
    case 'M': n->s = nxt(); n->a = num(); n->b = num(); n->c = num(); break;
    case 'W': n->s = nxt(); n->a = num(); n->b = num(); break;
    case 'K': case 'F': case 'L': case 'V': case 'l': n->a = num(); break;
    case 'N': case 'O': case 'X': case 'Z': n->s = nxt(); break;
    case 'T': case 'c': case 'r': case 'P': case 'J': n->s = nxt(); break;
    case 't': n->a = num(); n->b = num(); n->c = num(); break;
    case 'S': case 'x': n->s = nxt(); n->a = num(); break;
    case 'h': n->s = nxt(); n->s2 = nxt(); break;
    case 'Y': n->s = nxt(); n->a = num(); n->b = num();       /* clauses, id, number of blocks */
        for (i = 0; i < n->b; i++) n->blk[n->nblk++] = pblock();
        break;
    case 'G': n->a = num(); n->b = num(); n->blk[n->nblk++] = pblock(); break;
    case 'p': case 'q': n->a = num(); n->b = num(); break;
    case 'u': n->a = num(); break;
    case 'H': n->a = num(); n->b = num(); break;
    default: break;
    }
    return n;
}

/* ---- state of a script, one a thread */
enum { W_MAIN, W_BODY, W_CATCH, W_IF, W_FIN, W_GUARD, W_CB };
enum { X_END, X_RETHROW, X_BREAK, X_RETURN, X_GDEFER, X_GMALLOC, X_GCALLOC };
typedef struct frame_s {       /* a try or a guard */
    node *nd; int id, caught, threw, alive, value;
    unique_t *scope; ex_context_t *ctx;
    node *pc;                  /* guard: next statement */
    ex_ptr_t **prot; void ***pptr; int *ord, nord;      /* what is protected, the last at the end */
    struct frame_s *up;        /* guards, inner first */
} frame;
typedef struct { int where; frame *f; } env;

#define NLAB 2000
enum { L_NONE, L_LIVE, L_GONE, L_ARENA };
struct lab { int st; int idx; memory_t *scope; char sname[12]; };
struct mem { void *p; int i; size_t n; int seed, inner; };
static struct lab lab[NLAB];
static struct mem mems[NLAB]; static volatile int nmem;
#define NU 8
struct ctl {
    memory_t *u[NU + 1]; int ubusy[NU + 1], uarena[NU + 1];
    frame *guards;
};
static __thread struct ctl *C;
#define NT 4
static struct ctl ctls[NT];
static __thread int nohook;

static int exec(block *b, env *e);

/* text fit for the log */
static const char *q(const char *s) {
    static __thread char buf[4][1200]; static __thread int k;
    char *o = buf[k++ & 3]; int i;
    if (!s) return "";
    for (i = 0; i < 1190 && s[i]; i++) o[i] = (s[i] > 31 && s[i] < 127 && s[i] != '"' && s[i] != '\\') ? s[i] : '?';
    o[i] = 0;
    return o;
}
static const char *base(const char *f) { const char *s; if (!f) return ""; s = strrchr(f, '/'); return s ? s + 1 : f; }

static frame *cur_guard(void) {
    frame *g = C->guards;
    while (g && !g->alive) g = g->up;
    return g;
}

static memory_t *T(void) {
    if (!raii_local()) { raii_init(); ev("\"e\":\"rinit\""); }
    return raii_local();
}
/* scope named by a statement, NULL if there is none now */
static memory_t *scope_of(const char *s, char *name) {
    if (s[0] == 'T') { strcpy(name, "T"); return T(); }
    if (s[0] == 'G') {
        frame *g = cur_guard();
        if (!g) return NULL;
        sprintf(name, "G%d", g->id);
        return g->scope;
    }
    strcpy(name, s);
    return C->u[atoi(s + 1)];
}

/* ---- memory */
static void fill(struct mem *m) {
    size_t i; unsigned char *c = m->p;
    for (i = 0; i < m->n; i++) c[i] = (unsigned char)(m->seed * 31 + i * 7 + 1);
}
static int intact(struct mem *m) {
    size_t i, sz; unsigned char *c = m->p; long b;
    if (m->inner ? !vf_block_of(m->p, &b, &sz) : !vf_is_live(m->p, &sz)) return 0;
    for (i = 0; i < m->n; i++) if (c[i] != (unsigned char)(m->seed * 31 + i * 7 + 1)) return 0;
    return 1;
}
static void lab_free(struct mem *m, int custom) {
    lab[m->i].st = L_GONE;
    ev("\"e\":\"free\",\"i\":%d,\"ok\":%d,\"by\":%d", m->i, intact(m), custom);
}
static void on_free(void *p) {
    int i; frame *g;
    if (nohook) return;
    for (i = 0; i < nmem; i++) if (mems[i].p == p) { lab_free(&mems[i], 0); return; }
    if (C) for (g = C->guards; g; g = g->up) if ((void *)g->scope == p) g->alive = 0;
}
static void mfree(void *p) {
    int i;
    for (i = 0; i < nmem; i++) if (mems[i].p == p) { lab_free(&mems[i], 1); break; }
    nohook = 1;
    vf_free(p);
    nohook = 0;
}
enum { Z_ANY, Z_ZERO, Z_WRONG, Z_ARGS, Z_OWN, Z_OWNZERO, Z_IN, Z_INZERO };
static void mreg(node *n, const char *sname, memory_t *sc, void *p, int zeroed, long idx) {
    struct mem *m; size_t live = 0; int zok = zeroed != Z_WRONG; size_t i;
    int inner = zeroed >= Z_IN; long base;
    if (inner) { if (vf_block_of(p, &base, &live)) live -= vf_off(p) - base; else live = 0; }
    else if (!vf_is_live(p, &live)) live = 0;
    if (zeroed == Z_ZERO || zeroed == Z_INZERO || zeroed == Z_OWNZERO) for (i = 0; i < (size_t)n->b && i < live; i++) if (((unsigned char *)p)[i]) zok = 0;
    m = &mems[__sync_fetch_and_add(&nmem, 1)];
    m->p = p; m->i = n->a; m->n = (size_t)n->b < live ? n->b : live; m->seed = n->a; m->inner = inner;
    fill(m);
    lab[n->a].st = inner ? L_ARENA : L_LIVE; lab[n->a].scope = sc; lab[n->a].idx = (int)idx; strcpy(lab[n->a].sname, sname);
    if (zeroed == Z_OWN || zeroed == Z_OWNZERO) {
        lab[n->a].st = L_ARENA;
        ev("\"e\":\"own\",\"i\":%d,\"off\":%ld,\"size\":%zu,\"want\":%d,\"zok\":%d", n->a, vf_off(p), live, n->b, zok);
        return;
    }
    ev("\"e\":\"%s\",\"s\":\"%s\",\"i\":%d,\"off\":%ld,\"size\":%zu,\"want\":%d,\"zok\":%d,\"idx\":%ld",
       inner ? "amalloc" : zeroed == Z_ARGS ? "args" : "malloc", sname, n->a, vf_off(p), live, n->b, zok, idx);
}

/* ---- memory the library's own routines make for a scope: *n is given the size it must have */
static string concat_of(memory_t *sc, int k, ...) {
    va_list ap; string r;
    va_start(ap, k);
    r = str_concat_ex(sc, k, ap);
    va_end(ap);
    return r;
}
static void *libmem(node *n, memory_t *sc, int mine, int *kind, long *idx) {
    static const char b64[] = "QUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJD", abc[] = "ABCABCABCABCABCABCABCABCABC";
    char src[64], want[512]; int i, k = n->b % 9, good = 0; char *r, **w; args_t a;
    for (i = 0; i < 60; i++) src[i] = (char)('a' + i % 26);
    src[60] = 0;
    *kind = Z_ANY;
    switch (n->c) {
    case 4:
        k = n->b % 60; src[k] = 0;
        r = mine ? raii_memdup(src, k) : str_memdup_ex(sc, src, k);
        n->b = k + 1; good = r && !strcmp(r, src);
        break;
    case 5:
        src[k] = 0;
        r = mine ? raii_concat(3, src, "xyz", src) : concat_of(sc, 3, src, "xyz", src);
        sprintf(want, "%sxyz%s", src, src); n->b = 2 * k + 4; good = r && !strcmp(r, want);
        break;
    case 6:
        for (i = 0; i < k; i++) src[2 * i + 1] = ',';
        src[2 * k + 1] = 0;
        w = mine ? raii_split(src, ",", &i) : str_split_ex(sc, src, ",", &i);
        n->b = (k + 2) * (int)sizeof(char *) + 2 * k + 2;
        good = w && i == k + 1 && w[k] && w[k][0] == src[2 * k] && !w[k][1] && !w[k + 1];
        r = (char *)w;
        break;
    case 7:
        src[k + 1] = 'b'; src[k + 2] = 0;
        r = mine ? raii_replace(src, "b", "UVW") : str_replace_ex(sc, src, "b", "UVW");
        i = k > 0;                              /* the text has a b of its own */
        n->b = k + 2 + 2 * (1 + i) + 1; good = r && (int)strlen(r) == n->b - 1 && !strcmp(r + n->b - 4, "UVW");
        break;
    case 8:
        strcpy(want, b64); want[4 * k] = 0; strcpy(src, abc); src[3 * k] = 0;
        r = (char *)(mine ? raii_encode64((u_string_t)src) : str_encode64_ex(sc, (u_string_t)src));
        n->b = 4 * k + 1; good = r && !strcmp(r, want);
        break;
    case 9:
        k++; strcpy(src, b64); src[4 * k] = 0; strcpy(want, abc); want[3 * k] = 0;
        r = (char *)(mine ? raii_decode64((u_string_t)src) : str_decode64_ex(sc, (u_string_t)src));
        n->b = 3 * k + 1; good = r && !strcmp(r, want);
        break;
    default:        /* a list of arguments, bound when it is first read */
        a = mine ? args_for("lsl", 4711L, "word", 815L) : raii_args_for(sc, "lsl", 4711L, "word", 815L);
        good = get_args(a, 0).s_long == 4711 && get_args(a, 2).s_long == 815 && !strcmp(get_args(a, 1).char_ptr, "word");
        r = (char *)a->args;
        n->b = 3 * sizeof(raii_values_t);
        *idx = (long)raii_deferred_count(sc) - 1;
        *kind = Z_ARGS;
        break;
    }
    if (!good) *kind = Z_WRONG;
    if (n->c != 10) *idx = raii_last_mid(sc);
    return r;
}

/* ---- a request that cannot be met: just over what 32 bits hold, or products over what 64 do */
static void huge(node *n, const char *sn, memory_t *sc) {
    size_t over = ((size_t)1 << 32) + 24, half = SIZE_MAX / 4 + 3, live = 0; void *p;
    int mine = n->s[0] == 'T', in = n->s[0] == 'U' && C->uarena[atoi(n->s + 1)];
    if (in) switch (n->b % 4) {
    case 0: p = malloc_by(sc, over); break;
    case 1: p = calloc_by(sc, 3, over); break;
    case 2: p = malloc_arena(sc, over << 10); break;
    default: p = calloc_arena(sc, 1, over); break;
    } else switch (n->b % 10) {
    case 0: p = mine ? malloc_default(over) : malloc_by(sc, over); break;
    case 1: p = mine ? calloc_default(1, over) : calloc_by(sc, 1, over); break;
    case 2: p = malloc_full(sc, over, mfree); break;
    case 3: p = calloc_full(sc, 1, over, mfree); break;
    case 4: p = mine ? calloc_default(4, half) : calloc_by(sc, 4, half); break;
    case 5: p = calloc_full(sc, 4, half, mfree); break;
    case 6: p = try_malloc(over); break;
    case 7: p = try_calloc(4, half); break;
    case 8: p = try_realloc(NULL, over); break;
    default: p = malloc_full(sc, SIZE_MAX / 2 - 64, mfree); break;
    }
    vf_told_big = 0;
    if (!vf_is_live(p, &live)) live = 0;
    ev("\"e\":\"malloc\",\"s\":\"%s\",\"i\":%d,\"off\":%ld,\"size\":%zu,\"want\":%d,\"zok\":1,\"idx\":0", sn, n->a, vf_off(p), live, 2000000000);
}

/* ---- memory the program has to give back itself */
static void own(node *n) {
    struct mem *m; void *p; size_t i, sz = 0, keep; int ok = 1;
    if (lab[n->a].st != L_NONE) return;
    vf_op = "own";
    p = n->c & 1 ? try_calloc(n->b, 1) : try_malloc(n->b);
    mreg(n, "", NULL, p, n->c & 1 ? Z_OWNZERO : Z_OWN, -1);
    if (n->c < 2) return;
    for (m = mems; m->i != n->a; m++) ;
    vf_op = "resize";
    p = try_realloc(m->p, n->b = n->c < 4 ? n->b * 3 + 5 : n->b / 2 + 1);
    if (!vf_is_live(p, &sz)) sz = 0;
    keep = m->n < (size_t)n->b ? m->n : (size_t)n->b;
    for (i = 0; i < keep && i < sz; i++) if (((unsigned char *)p)[i] != (unsigned char)(m->seed * 31 + i * 7 + 1)) ok = 0;
    m->p = p; m->n = (size_t)n->b < sz ? (size_t)n->b : sz;
    fill(m);
    ev("\"e\":\"resize\",\"i\":%d,\"off\":%ld,\"size\":%zu,\"want\":%d,\"kept\":%d", n->a, vf_off(p), sz, n->b, ok);
}
static void disown(void) {
    int i;
    for (i = 0; i < nmem; i++) if (mems[i].p && !mems[i].inner && !lab[mems[i].i].scope && lab[mems[i].i].st == L_ARENA) {
        struct mem m = mems[i];
        lab[m.i].st = L_GONE;
        ev("\"e\":\"giveback\",\"i\":%d,\"ok\":%d", m.i, intact(&m));
        mems[i].p = NULL;
        vf_free(m.p);
    }
}

/* ---- defers */
static void cb_run(void *arg) {
    node *n = arg; env e = {W_CB, NULL};
    lab[n->a].st = L_GONE;
    ev("\"e\":\"run\",\"i\":%d", n->a);
    exec(n->blk[0], &e);
    ev("\"e\":\"ret\",\"i\":%d", n->a);
}
static void dreg(node *n, const char *sname, memory_t *sc, long idx) {
    lab[n->a].st = idx < 0 ? L_NONE : L_LIVE; lab[n->a].scope = sc; lab[n->a].idx = (int)idx;
    strcpy(lab[n->a].sname, sname);
    ev("\"e\":\"defer\",\"s\":\"%s\",\"i\":%d,\"idx\":%ld", sname, n->a, idx);
}

/* ---- protected pointers: objects are small integers */
struct obj { int v, p; struct obj *next; };
static __thread struct obj *unused;     /* what was released is used again, the last first */
static void pfree(void *x) {
    struct obj *o = x;
    ev("\"e\":\"pfree\",\"p\":%d,\"v\":%d", o->p, o->v);
    if (o->v > 0) { o->v = -1; o->next = unused; unused = o; }
}
static struct obj *mkobj(int p, int v) {
    struct obj *o = unused;
    if (!v) return NULL;
    if (o) unused = o->next; else o = malloc(sizeof *o);
    o->v = v; o->p = p;
    return o;
}
#define ex_protected_slot (*pq)
static void unprot(ex_ptr_t *pq) { unprotected(slot); }
#undef ex_protected_slot

static int exec_from(node *n, env *e);
/* the rest of the block runs within the function the pointer is protected in */
static __attribute__((noinline)) int do_prot(node *n, env *e) {
    void *volatile slot_v = mkobj(n->a, n->b);
    void *slot = (void *)slot_v; int r;
    protected(slot, pfree);
    e->f->prot[n->a] = &EX_PNAME(slot); e->f->pptr[n->a] = &slot; e->f->ord[e->f->nord++] = n->a;
    ev("\"e\":\"prot\",\"p\":%d,\"v\":%d", n->a, n->b);
    r = exec_from(n->next, e);
    e->f->prot[n->a] = NULL;
    return r;
}

/* ---- throwing */
#line 70367 "ctl.c"     /* more lines than two bytes hold */
#define THROW(E) { ev("\"e\":\"throw\",\"n\":\"" #E "\",\"msg\":\"\",\"file\":\"ctl.c\",\"line\":%d,\"fn\":\"%s\"", __LINE__, __FUNCTION__); throw(E); }
static void do_throw(const char *s) {
#define IS(E) if (!strcmp(s, #E)) THROW(E)
    LIB_EXCEPTIONS(IS)
    if (!strcmp(s, "my_error")) THROW(my_error)
    else if (!strcmp(s, "other_error")) THROW(other_error)
    else if (!strcmp(s, "my_err")) THROW(my_err)
    else if (!strcmp(s, "my_error_2")) THROW(my_error_2)
    else if (!strcmp(s, "My_error")) THROW(My_error)
    else IS(an_exception_whose_name_is_as_long_as_that_of_a_program_which_says_at_length_what_it_is_that_went_wrong_with_it)
    else IS(an_exception_whose_name_is_as_long_as_that_of_a_program_which_says_at_length_what_it_is_that_went_wrong_with_us)
    else die("throw", s);
}
static void do_panic(const char *s) {
    if (s[strlen(s) - 1] & 1) { ev("\"e\":\"throw\",\"n\":\"panic\",\"msg\":\"%s\",\"file\":\"ctl.c\",\"line\":%d,\"fn\":\"%s\"", s, __LINE__, __FUNCTION__); raii_panic(s); }
    else { ev("\"e\":\"throw\",\"n\":\"panic\",\"msg\":\"%s\",\"file\":\"ctl.c\",\"line\":%d,\"fn\":\"%s\"", s, __LINE__, __FUNCTION__); _panic(s); }
}
static int *volatile nullp = NULL;
static volatile int zero = 0, sink;
static const struct { const char *n; int sig; } sigs[] = {{"sig_segv", SIGSEGV}, {"sig_abrt", SIGABRT}, {"sig_fpe", SIGFPE},
    {"sig_ill", SIGILL}, {"sig_int", SIGINT}, {"sig_term", SIGTERM}, {"sig_quit", SIGQUIT}, {"sig_hup", SIGHUP},
    {"sig_trap", SIGTRAP}, {"sig_alrm", SIGALRM}, {"sig_bus", SIGBUS}, {"sig_winch", SIGWINCH}, {"usr1", SIGUSR1}, {"usr2", SIGUSR2}, {"pipe", SIGPIPE}};
static int sig_of(const char *s) {
    unsigned i;
    for (i = 0; i < sizeof sigs / sizeof *sigs; i++) if (!strcmp(sigs[i].n, s)) return sigs[i].sig;
    if (s[0] == 'r' && s[1] == 't') return SIGRTMIN + atoi(s + 2);
    die("signal", s);
    return 0;
}
/* an exception of the program's own for a signal */
static void do_name(const char *s, const char *name) {
    const char *names[] = {EX_NAME(my_error), EX_NAME(other_error), EX_NAME(usr_error), EX_NAME(out_of_range), EX_NAME(sig_fpe)};
    unsigned i;
    for (i = 0; i < sizeof names / sizeof *names; i++) if (!strcmp(names[i], name)) break;
    if (i == sizeof names / sizeof *names) die("name", name);
    ex_signal(sig_of(s), names[i]);
    ev("\"e\":\"named\",\"num\":%d,\"n\":\"%s\"", sig_of(s), name);
}
static void do_sig(const char *s, int hw) {
    int sig = sig_of(s);
    sigset_t m;
    pthread_sigmask(SIG_SETMASK, NULL, &m);
    if (sigismember(&m, sig)) { ev("\"e\":\"sigblk\",\"n\":\"%s\"", s); return; }
    ev("\"e\":\"sig\",\"n\":\"%s\",\"num\":%d,\"hw\":%d", s, sig, hw);
    if (hw && sig == SIGSEGV) *nullp = 1;
    else if (hw && sig == SIGFPE) __asm__ volatile("idivl %2" : "=a"(sink) : "a"(1), "r"(zero) : "edx");
    else if (hw && sig == SIGILL) __asm__ volatile("ud2");
    else if (hw && sig == SIGTRAP) __asm__ volatile("int3");
    else if (hw && sig == SIGABRT) abort();
    else raise(sig);
    ev("\"e\":\"nosig\"");
}

/* ---- callbacks of the process */
static void do_throw(const char *name);
static int cb_throws[2];
static void term_cb(void) { ev("\"e\":\"termcb\""); if (cb_throws[0]) do_throw("my_error"); }
static void ctrl_cb(void) { ev("\"e\":\"ctrlcb\""); if (cb_throws[1]) do_throw("bad_alloc"); }

/* ---- try */
#define NPROT 1200
static frame *new_frame(node *n) {
    frame *f = calloc(1, sizeof *f); f->nd = n; f->id = n->a;
    if (n->op == 'Y') { f->prot = calloc(NPROT, sizeof *f->prot); f->pptr = calloc(NPROT, sizeof *f->pptr); f->ord = calloc(NPROT, sizeof *f->ord); }
    return f;
}
static void log_catch(frame *f, int ci, const char *err, const char *file, int line) {
    f->threw = 1;
    ev("\"e\":\"catch\",\"id\":%d,\"ci\":%d,\"err\":\"%s\",\"file\":\"%s\",\"line\":%d,\"msg\":\"%s\"",
       f->id, ci + 1, q(err), q(base(file)), line, q(raii_message()));
}
static int in_catch(frame *f, int ci, int is_if) {
    env e; e.where = is_if ? W_IF : W_CATCH; e.f = f;
    f->caught = !is_if;
    return exec(f->nd->blk[1 + ci], &e);
}
static int in_finally(frame *f, const char *err) {
    env e; e.where = W_FIN; e.f = f;
    f->threw = err != NULL;
    ev("\"e\":\"fin\",\"id\":%d,\"err\":\"%s\"", f->id, q(err));
    return exec(f->nd->blk[f->nd->nblk - 1], &e);
}
static void in_body(frame *f) { env e; e.where = W_BODY; e.f = f; exec(f->nd->blk[0], &e); ev("\"e\":\"tbody\",\"id\":%d", f->id); }
static void cend(frame *f) { ev("\"e\":\"cend\",\"id\":%d", f->id); }
static void fend(frame *f) { ev("\"e\":\"fend\",\"id\":%d", f->id); }
static void re(void) { ev("\"e\":\"rethrow\""); }
#define TRY_BODY in_body(f);
#define TRY_CATCH(ci, is_if) log_catch(f, ci, err, err_file, err_line); if (in_catch(f, ci, is_if) == X_RETHROW) { re(); rethrow(); } cend(f);
#define TRY_FIN if (in_finally(f, err) == X_RETHROW) { re(); rethrow(); } fend(f);
struct tmpl { const char *key, *cl; int fin; void (*fn)(frame *); };
#include "templates.inc"

static void do_try(node *n) {
    unsigned i; frame *f = new_frame(n);
    for (i = 0; i < sizeof tmpls / sizeof *tmpls; i++) if (!strcmp(tmpls[i].key, n->s)) break;
    if (i == sizeof tmpls / sizeof *tmpls) die("template", n->s);
    ev("\"e\":\"try\",\"id\":%d,\"cl\":[%s],\"fin\":%d", n->a, tmpls[i].cl, tmpls[i].fin);
    tmpls[i].fn(f);
    ev("\"e\":\"tend\",\"id\":%d", n->a);
}

/* ---- guard */
static void g_enter(frame *f, unique_t *scope) {
    f->scope = scope; f->ctx = ex_local(); f->alive = 1;
    f->up = C->guards; C->guards = f;
    f->pc = f->nd->blk[0]->first;
    ev("\"e\":\"guard\",\"id\":%d,\"s\":\"G%d\"", f->id, f->id);
}
static int g_step(frame *f) {
    env e; int r; e.where = W_GUARD; e.f = f;
    for (;;) {
        r = exec_from(f->pc, &e);      /* sets f->pc past a statement that needs the section itself */
        return r;
    }
}
static long cnt(memory_t *s) { return (long)raii_deferred_count(s); }
static __thread long cnt0;
static void g_pre(frame *f, const char *op) { cnt0 = cnt(f->scope); vf_op = op; }
static void g_defer(frame *f, node *n) { long c = cnt(f->scope); char s[12]; sprintf(s, "G%d", f->id); dreg(n, s, f->scope, c > cnt0 ? c - 1 : -1); }
static void g_mem(frame *f, node *n, void *p, int z) { char s[12]; sprintf(s, "G%d", f->id); mreg(n, s, f->scope, p, z, cnt(f->scope) - 1); }
static void g_end(frame *f) { ev("\"e\":\"gend\",\"id\":%d", f->id); }
static void g_ret(frame *f) { ev("\"e\":\"gret\",\"id\":%d,\"v\":%d", f->id, f->value); }
static node *prev_pc(frame *f);

#define GUARD_BODY(RET)                                                            \
    int op; node *n; void *p;                                                  \
    _assign_ptr(scope);                                                        \
    g_enter(f, scope);                                                         \
 again:                                                                        \
    op = g_step(f); n = prev_pc(f);                                            \
    if (op == X_GDEFER) { g_pre(f, "defer"); _defer(cb_run, n); g_defer(f, n); goto again; }   \
    if (op == X_GMALLOC) { g_pre(f, "malloc"); p = _malloc(n->b); g_mem(f, n, p, 0); goto again; }      \
    if (op == X_GCALLOC) { g_pre(f, "malloc"); p = _calloc(1, n->b); g_mem(f, n, p, 1); goto again; }   \
    if (op == X_BREAK) { g_end(f); break; }                                    \
    if (op == X_RETURN) { g_ret(f); RET }                                      \
    g_end(f);

static __attribute__((noinline)) int guard_val(frame *f)
guard
    GUARD_BODY(_return(f->value))
unguarded(7)

static __attribute__((noinline)) void guard_void(frame *f)
guard
    GUARD_BODY(_return(NONE))
guarded

block(static __attribute__((noinline)) int, guard_block, frame *f)
    GUARD_BODY(_return(f->value))
unblocked(7)

static node *prev_pc(frame *f) { return (node *)f->nd->s; }     /* last statement taken */

static void do_guard(node *n) {
    frame *f; int v = 7; node *c = calloc(1, sizeof *c);
    *c = *n; f = new_frame(c);
    T();
    ev("\"e\":\"ginit\"");
    vf_op = "guard";
    if (n->b == 0) v = guard_val(f);
    else if (n->b == 1) { f->value = 7; guard_void(f); }
    else v = guard_block(f);
    f->alive = 0;
    ev("\"e\":\"gdone\",\"id\":%d,\"v\":%d", n->a, v);
}

/* ---- statements */
static int exec(block *b, env *e) { return exec_from(b->first, e); }

/* the program's functions for what is thrown, about a scope of its own */
static memory_t *hook_scope; static int hook_flag, hook_u;          /* hook_u 0: the scope of the thread */
static void on_setup(ex_context_t *ctx, const char *ex, const char *panic) {
    ev("\"e\":\"setup\",\"n\":\"%s\",\"v\":\"%s\"", ex ? ex : "-", panic ? panic : "");
    ex_data_set(ctx, hook_scope);
    if (hook_flag) ex_unwind_set(ctx, true);
}
static void on_unwind(void *data) {
    if (data == hook_scope) { if (hook_u) ev("\"e\":\"unwind\",\"s\":\"U%d\"", hook_u); else ev("\"e\":\"unwind\",\"s\":\"T\""); }
    else { ev("\"e\":\"unwind\",\"s\":\"another\""); return; }
    { int u = hook_u; C->ubusy[u]++; raii_deferred_free(data); C->ubusy[u]--; }
}
static void set_hook(memory_t *sc, int u, int f) {
    hook_scope = sc; hook_u = u; hook_flag = f;
    exception_setup_func = sc ? on_setup : NULL;
    exception_unwind_func = sc ? on_unwind : NULL;
    if (sc && !u) ev("\"e\":\"hook\",\"s\":\"T\",\"f\":%d", f);
    else if (sc) ev("\"e\":\"hook\",\"s\":\"U%d\",\"f\":%d", u, f);
    else ev("\"e\":\"hook\",\"s\":\"\",\"f\":0");
}
static void del(int r) {
    memory_t *sc = C->u[r]; int i, arena = C->uarena[r];
    if (arena) free_arena(sc); else raii_delete(sc);
    if (arena) for (i = 0; i < nmem; i++) if (mems[i].inner && lab[mems[i].i].st == L_ARENA && lab[mems[i].i].scope == sc) { lab[mems[i].i].st = L_GONE; mems[i].p = NULL; }
    C->u[r] = NULL;
}
static int exec_from(node *n, env *e) {
    for (; n; n = n->next) {
        char sn[12]; memory_t *sc; void *p; long idx; int r; struct lab *L;
        int direct_guard = e->where == W_GUARD && e->f->ctx == ex_local();
        switch (n->op) {
        case 'D':
            if (n->s[0] == 'G' && direct_guard && n->b) { e->f->nd->s = (char *)n; e->f->pc = n->next; return X_GDEFER; }
            if (!(sc = scope_of(n->s, sn))) break;
            vf_op = "defer";
            if (n->s[0] == 'T') {
                if (n->b) { idx = cnt(sc); raii_recover(cb_run, n); idx = cnt(sc) > idx ? idx : -1; }
                else idx = (long)raii_defer(cb_run, n);
            } else if (n->b) { idx = cnt(sc); raii_recover_by(sc, cb_run, n); idx = cnt(sc) > idx ? idx : -1; }
            else idx = (long)raii_deferred(sc, cb_run, n);
            dreg(n, sn, sc, idx);
            break;
        case 'M':
            if (n->s[0] == 'G' && direct_guard && n->c < 2) {
                e->f->nd->s = (char *)n; e->f->pc = n->next;
                return n->c ? X_GCALLOC : X_GMALLOC;
            }
            if (!(sc = scope_of(n->s, sn))) break;
            vf_op = "malloc";
            if (n->c > 3) {
                node as = *n; int kind;
                p = libmem(&as, sc, n->s[0] == 'T', &kind, &idx);
                mreg(&as, sn, sc, p, kind, idx);
                break;
            }
            if (n->s[0] == 'U' && C->uarena[atoi(n->s + 1)] && n->c < 4) {     /* memory of the arena the scope has */
                p = n->c == 0 ? malloc_by(sc, n->b) : n->c == 1 ? calloc_by(sc, 1, n->b) : n->c == 2 ? malloc_arena(sc, n->b) : calloc_arena(sc, 1, n->b);
                mreg(n, sn, sc, p, n->c & 1 ? Z_INZERO : Z_IN, -1);
                break;
            }
            if (0) {
        case 'W':       /* more than there can be */
                if (!(sc = scope_of(n->s, sn))) break;
                vf_op = "malloc"; vf_told_big = 1;
                huge(n, sn, sc);
                break;
            }
            if (n->c == 0) p = n->s[0] == 'T' ? malloc_default(n->b) : malloc_by(sc, n->b);
            else if (n->c == 1) p = n->s[0] == 'T' ? calloc_default(1, n->b) : calloc_by(sc, 1, n->b);
            else if (n->c == 2) p = malloc_full(sc, n->b, mfree);
            else p = calloc_full(sc, 1, n->b, mfree);
            mreg(n, sn, sc, p, n->c & 1 ? Z_ZERO : Z_ANY, raii_last_mid(sc));
            break;
        case 'K': case 'F':
            L = &lab[n->a];
            if (L->st != L_LIVE) break;
            if (n->op == 'K') {
                for (r = 0; r < nmem; r++) if (mems[r].i == n->a) break;
                if (r < nmem) break;            /* memory is not to be disowned */
            }
            L->st = L_GONE;
            ev("\"e\":\"%s\",\"s\":\"%s\",\"i\":%d,\"idx\":%d", n->op == 'K' ? "cancel" : "fire", L->sname, n->a, L->idx);
            if (L->scope == raii_local()) { if (n->op == 'K') raii_defer_cancel(L->idx); else raii_defer_fire(L->idx); }
            else if (n->op == 'K') raii_deferred_cancel(L->scope, L->idx); else raii_deferred_fire(L->scope, L->idx);
            break;
        case 'l':           /* memory is as it was written */
            L = &lab[n->a];
            if (L->st != L_LIVE && L->st != L_ARENA) break;
            for (r = 0; r < nmem; r++) if (mems[r].i == n->a) break;
            if (r < nmem) ev("\"e\":\"look\",\"i\":%d,\"ok\":%d", n->a, intact(&mems[r]));
            break;
        case 'N': case 'O':
            r = atoi(n->s + 1);
            if (C->u[r]) break;
            vf_op = "new";
            C->u[r] = n->op == 'O' ? unique_init_arena() : unique_init(); C->ubusy[r] = 0; C->uarena[r] = n->op == 'O';
            ev("\"e\":\"new\",\"s\":\"%s\"", n->s);
            break;
        case 'X':
            r = atoi(n->s + 1);
            if (!C->u[r] || C->ubusy[r] || C->u[r] == hook_scope) break;
            C->ubusy[r]++;
            ev("\"e\":\"del\",\"s\":\"%s\"", n->s);
            del(r);
            break;
        case 'x':
            r = n->s[0] == 'U' ? atoi(n->s + 1) : n->s[0] == 'T' ? 0 : -1;
            if (r > 0 && (!C->u[r] || C->ubusy[r])) break;
            set_hook(r < 0 ? NULL : r ? C->u[r] : T(), r, n->a);
            break;
        case 'Z':
            if (!(sc = scope_of(n->s, sn))) break;
            if (n->s[0] == 'U') C->ubusy[atoi(n->s + 1)]++;
            ev("\"e\":\"clean\",\"s\":\"%s\"", sn);
            raii_deferred_free(sc);
            if (n->s[0] == 'U') C->ubusy[atoi(n->s + 1)]--;
            break;
        case 'C':
            T();
            ev("\"e\":\"clean\",\"s\":\"T\"");
            raii_deferred_clean();
            break;
        case 'T': do_throw(n->s); break;
        case 'P': do_panic(n->s); break;
        case 'S': do_sig(n->s, n->a); break;
        case 'R':
            if ((e->where == W_CATCH) || (e->where == W_FIN && e->f->threw) || (e->where == W_IF && e->f->caught)) return X_RETHROW;
            break;
        case 'Y': do_try(n); break;
        case 'G': do_guard(n); break;
        case 'B': if (direct_guard) return X_BREAK; break;
        case 'V': if (direct_guard) { e->f->value = e->f->nd->b == 1 ? 7 : n->a; return X_RETURN; } break;
        case 'p':
            if (e->where != W_BODY || e->f->prot[n->a]) break;
            return do_prot(n, e);
        case 'q':
            if (e->where != W_BODY || !e->f->prot[n->a]) break;
            *e->f->pptr[n->a] = mkobj(n->a, n->b);
            ev("\"e\":\"pset\",\"p\":%d,\"v\":%d", n->a, n->b);
            break;
        case 'u':
            if (e->where != W_BODY || !e->f->prot[n->a]) break;
            { /* with it go the ones protected later */
                frame *f = e->f; ex_ptr_t *stop = f->prot[n->a];
                ev("\"e\":\"unprot\",\"p\":%d", n->a);
                while (f->ord[--f->nord] != n->a) f->prot[f->ord[f->nord]] = NULL;
                f->prot[n->a] = NULL;
                unprot(stop);
            }
            break;
        case 'c':
            if (e->where == W_CATCH || e->where == W_IF || ex_uncaught_exception() > 0) {
                r = raii_caught(n->s);
                ev("\"e\":\"caught\",\"n\":\"%s\",\"r\":%d", n->s, r);
                if (e->where == W_IF && r) e->f->caught = 1;
            }
            if (e->where == W_IF && !e->f->caught) return X_END;
            break;
        case 'r': {
            frame *g = cur_guard();
            if (e->where != W_CB || !g || g->ctx != ex_local()) break;
            if (n->s[0] == '~') {
                const char *m = _get_message();
                r = _recover(m);
                ev("\"e\":\"recov\",\"n\":\"%s\",\"r\":%d,\"self\":1", q(m), r);
            } else {
                r = _recover(n->s);
                ev("\"e\":\"recov\",\"n\":\"%s\",\"r\":%d,\"self\":0", n->s, r);
            }
            break; }
        case 'm':
            if (e->where == W_CATCH || e->where == W_IF || ex_uncaught_exception() > 0)
                ev("\"e\":\"msg\",\"v\":\"%s\"", q(raii_message()));
            break;
        case 'g': {
            frame *g = cur_guard();
            if (e->where != W_CB || !g || g->ctx != ex_local()) break;
            ev("\"e\":\"gmsg\",\"v\":\"%s\"", q(_get_message()));
            break; }
        case 'j':           /* what the thread's scope says, in a defer of an unwinding */
            if (e->where == W_CB && raii_local() && ex_uncaught_exception() > 0)
                ev("\"e\":\"smsg\",\"v\":\"%s\"", q(raii_message_by(raii_local())));
            break;
        case 'J':
            if (e->where == W_CB && raii_local() && ex_uncaught_exception() > 0) {
                const char *m = n->s[0] == '~' ? raii_message_by(raii_local()) : n->s;
                r = raii_is_caught(raii_local(), m);
                ev("\"e\":\"scaught\",\"n\":\"%s\",\"r\":%d,\"self\":%d", q(m), r, n->s[0] == '~');
            }
            break;
        case 't': own(n); break;
        case 'w': ev("\"e\":\"unc\",\"v\":%d", ex_uncaught_exception()); break;
        case 'h': do_name(n->s, n->s2); break;
        case 'A': ex_signal_default(); ev("\"e\":\"arm\",\"v\":0"); break;
        case 'a': ex_signal_setup(); ev("\"e\":\"arm\",\"v\":1"); break;
        case 'e': ex_flags_reset(); ev("\"e\":\"reset\""); break;
        case 'I': T(); break;
#ifdef MT
        case 'y': thrd_yield(); break;
#endif
        case 'L': vf_fail_in = n->a; break;
        case 'H':
            cb_throws[0] = n->a == 2; cb_throws[1] = n->b == 2;
            exception_terminate_func = n->a ? term_cb : NULL;
            exception_ctrl_c_func = n->b ? ctrl_cb : NULL;
            ev("\"e\":\"cbs\",\"t\":%d,\"c\":%d", n->a, n->b);
            break;
        default: die("statement", (char[]){n->op, 0});
        }
        if (e->where == W_IF && !e->f->caught) return X_END;
    }
    return X_END;
}

static void leave(void) {
    int i;
    for (i = 0; i <= NU; i++) if (C->u[i]) {
        if (hook_scope) set_hook(NULL, -1, 0);
        C->ubusy[i]++;
        ev("\"e\":\"del\",\"s\":\"U%d\"", i);
        del(i);
    }
    ev("\"e\":\"end\"");
}
#ifdef MT
static block *progs[NT]; static int nprogs; static char *schedtxt;
static void stuck(const char *how) { vf_tag = -1; ev("\"e\":\"stuck\",\"how\":\"%s\"", how); }
static int thread(void *arg) {
    env e = {W_MAIN, NULL}; int k = (int)(intptr_t)arg;
    vf_tag = k;
    C = &ctls[k];
    exec(progs[k], &e);
    leave();
    raii_destroy();            /* as a thread of the library's own does */
    ev("\"e\":\"tover\"");
    return 0;
}
static void script(void *arg) {
    env e = {W_MAIN, NULL}; int k; thrd_t id[NT]; struct schedule s;
    (void)arg;
    if (!sched_parse(schedtxt, &s)) die("schedule", schedtxt);
    vf_on_free = on_free;
    sched_stuck = stuck;
    vf_tag = 0;
    C = &ctls[0];
    ev("\"e\":\"threads\",\"n\":%d", nprogs);
    sched_start(&s);
    for (k = 1; k < nprogs; k++) if (thrd_create(&id[k], thread, (void *)(intptr_t)k) != thrd_success) die("thread", "");
    exec(progs[0], &e);
    for (k = 1; k < nprogs; k++) thrd_join(id[k], NULL);
    sched_stop();
    leave();
}
#else
static void script(void *arg) {
    env e = {W_MAIN, NULL};
    C = &ctls[0];
    vf_on_free = on_free;
    exec(arg, &e);
    vf_fail_in = 0;
    disown();
    leave();
}
#endif

static void run_line(char *line) {
    char *s, *id; block *b = NULL; char *p; size_t i;
    ntok = ptok = 0;
    id = strtok_r(line, " \n", &s);
    if (!id) return;
#ifdef MT
    schedtxt = strtok_r(NULL, " \n", &s);
#endif
    while ((p = strtok_r(NULL, " \n", &s))) tok[ntok++] = p;
    if (vf_timeouts > 2) { printf("{\"id\":%s,\"ev\":[{\"e\":\"skipped\"}]}\n", id); return; }
    vf_reset();
    vf_most = (1 << 16) + (size_t)ntok * 60;
#ifdef MT
    for (nprogs = 0; ptok < ntok && nprogs < NT; nprogs++) progs[nprogs] = pblock();
#else
    b = pblock();
#endif
    vf_run(script, b, 5000);
    printf("{\"id\":%s,\"ev\":[", id);
    for (i = 0; i + 1 < vf->len; i++) putchar(vf->log[i] == '\n' ? ',' : vf->log[i]);
    printf("]}\n");
    fflush(stdout);
}

int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r"); char *text, *p, *e; long n;
    if (!f) { perror(argv[1]); return 9; }
    /* all of it now: a child leaving by exit() would move the shared offset */
    fseek(f, 0, SEEK_END); n = ftell(f); rewind(f);
    text = malloc(n + 1); if (fread(text, 1, n, f) != (size_t)n) return 9;
    text[n] = 0; fclose(f);
#ifndef MT
    vf_says = 1;
#endif
    vf_setup(1 << 22, 32 << 20);
    for (p = text; *p; p = e) {
        e = strchr(p, '\n');
        if (e) *e++ = 0; else e = p + strlen(p);
        run_line(p);
    }
    return 0;
}
