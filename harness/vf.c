#define _GNU_SOURCE
#include "vf.h"
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <poll.h>
#include <fcntl.h>

struct vf_shared *vf;
volatile long vf_fail_in = 0;
__thread long vf_fail_mine = 0;
void (*vf_on_fail)(void) = NULL;
const char *volatile vf_op = "";
__thread int vf_told_big;
void (*vf_on_free)(void *p) = NULL;

static size_t logcap;
size_t vf_most;      /* what one run may log, 0 for all there is room for */
/* The pool: blocks are never reused within a script, released ones are filled
 * with 0xdd and checked at the end, live ones have a red zone on both sides. */
#define RZ 32
#define MAGIC_LIVE 0x4c495645u
#define MAGIC_DEAD 0x44454144u
struct hdr { uint32_t magic; uint32_t pad; size_t size; struct hdr *next; size_t pad2; unsigned char rz[RZ]; };
static unsigned char *pool;
static size_t poolcap;
struct poolst { volatile size_t used; struct hdr *volatile first; volatile int lock; };
static struct poolst *ps;   /* in the pool itself, private to the child */

static void plock(void) { while (__sync_lock_test_and_set(&ps->lock, 1)) ; }
static void punlock(void) { __sync_lock_release(&ps->lock); }

void vf_setup(size_t logsize, size_t poolsize) {
    logcap = logsize;
    vf = mmap(NULL, sizeof(*vf) + logsize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    poolcap = poolsize;
    pool = mmap(NULL, poolsize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (vf == MAP_FAILED || pool == MAP_FAILED) { perror("mmap"); exit(9); }
    ps = (struct poolst *)pool;
    ps->used = 64;
    signal(SIGPIPE, SIG_IGN);
}

void vf_reset(void) {
    vf->live = vf->bad = vf->smash = vf->allocs = vf->failed = vf->overflow = 0;
    vf->len = 0;
}

long vf_off(const void *p) {
    if ((unsigned char *)p < pool || (unsigned char *)p >= pool + poolcap) return -1;
    return (long)((unsigned char *)p - pool);
}

static int fail_now(void) {
    __sync_fetch_and_add(&vf->allocs, 1);
    if (vf_fail_in > 0 && --vf_fail_in == 0) {
        vf->failed++;
        ev("\"e\":\"afail\",\"op\":\"%s\"", vf_op);
        return 1;
    }
    if (vf_fail_mine > 0 && --vf_fail_mine == 0) {
        vf->failed++;
        vf_on_fail();
        return 1;
    }
    return 0;
}

static void *palloc(size_t align, size_t n) {
    struct hdr *h; size_t o, tot;
    if (n > poolcap) {
        if (vf_told_big) { vf_told_big = 0; vf->failed++; ev("\"e\":\"afail\",\"op\":\"%s\"", vf_op); }
        errno = ENOMEM; return NULL;
    }
    plock();
    o = ps->used;
    o = (o + sizeof(struct hdr) + align - 1) / align * align;      /* user address */
    tot = o + n + RZ;
    if (tot > poolcap) { punlock(); errno = ENOMEM; return NULL; }
    ps->used = (tot + 15) & ~(size_t)15;
    h = (struct hdr *)(pool + o) - 1;
    h->magic = MAGIC_LIVE; h->size = n;
    memset(h->rz, 0xa5, RZ);
    memset(pool + o + n, 0xa5, RZ);
    h->next = ps->first; ps->first = h;
    punlock();
    __sync_fetch_and_add(&vf->live, 1);
    return pool + o;
}

static struct hdr *find(const void *p) {
    struct hdr *h;
    if ((unsigned char *)p < pool + 64 + sizeof(struct hdr) || (unsigned char *)p >= pool + poolcap) return NULL;
    if ((uintptr_t)p & 7) return NULL;
    h = (struct hdr *)p - 1;
    return h->magic == MAGIC_LIVE ? h : NULL;
}

int vf_is_live(const void *p, size_t *size) {
    struct hdr *h = find(p);
    if (h && size) *size = h->size;
    return h != NULL;
}

/* the live block that holds p, if any */
int vf_block_of(const void *p, long *base, size_t *size) {
    struct hdr *h;
    for (h = ps->first; h; h = h->next) {
        unsigned char *u = (unsigned char *)(h + 1);
        if (h->magic == MAGIC_LIVE && (unsigned char *)p >= u && (unsigned char *)p < u + h->size) {
            *base = vf_off(u); *size = h->size;
            return 1;
        }
    }
    return 0;
}

static int rz_ok(struct hdr *h) {
    unsigned char *u = (unsigned char *)(h + 1); int i;
    for (i = 0; i < RZ; i++) if (h->rz[i] != 0xa5 || u[h->size + i] != 0xa5) return 0;
    return 1;
}

void *vf_malloc(size_t n) {
    void *p;
    if (fail_now()) { errno = ENOMEM; return NULL; }
    p = palloc(16, n);
    if (p) memset(p, 0xcd, n);
    return p;
}
void *vf_calloc(size_t c, size_t n) {
    void *p;
    if (fail_now()) { errno = ENOMEM; return NULL; }
    if (n && c > SIZE_MAX / n) { c = 1; n = SIZE_MAX; }
    p = palloc(16, c * n);
    if (p) memset(p, 0, c * n);
    return p;
}
void *vf_memalign(size_t a, size_t n) {
    if (fail_now()) { errno = ENOMEM; return NULL; }
    return palloc(a < 16 ? 16 : a, n);
}
static void release(void *p) {
    struct hdr *h = find(p);
    if (!h) { __sync_fetch_and_add(&vf->bad, 1); return; }
    if (!rz_ok(h)) __sync_fetch_and_add(&vf->smash, 1);
    h->magic = MAGIC_DEAD;
    memset(p, 0xdd, h->size);
    __sync_fetch_and_sub(&vf->live, 1);
}
void vf_free(void *p) {
    if (!p) return;
    if (vf_on_free) vf_on_free(p);
    release(p);
}
void *vf_realloc(void *p, size_t n) {
    void *q; struct hdr *h;
    if (fail_now()) { errno = ENOMEM; return NULL; }
    if (!p) { q = palloc(16, n); if (q) memset(q, 0xcd, n); return q; }
    h = find(p);
    if (!h) { __sync_fetch_and_add(&vf->bad, 1); return NULL; }
    q = palloc(16, n);
    if (!q) return NULL;
    memset(q, 0xcd, n);
    memcpy(q, p, h->size < n ? h->size : n);
    release(p);
    return q;
}

void vf_audit(void) {
    struct hdr *h; size_t i; unsigned char *u;
    for (h = ps->first; h; h = h->next) {
        int ok = (h->magic == MAGIC_LIVE || h->magic == MAGIC_DEAD) && rz_ok(h);
        if (ok && h->magic == MAGIC_DEAD) {
            u = (unsigned char *)(h + 1);
            for (i = 0; i < h->size; i++) if (u[i] != 0xdd) { ok = 0; break; }
        }
        if (!ok) vf->smash++;
        if (h->magic != MAGIC_LIVE && h->magic != MAGIC_DEAD) break;   /* list no longer trusted */
    }
}

static int vf_child;
int vf_timeouts, vf_endless;
__thread int vf_tag = -1;
static volatile int evl;
void ev_lock(void) { while (__sync_lock_test_and_set(&evl, 1)) ; }
void ev_unlock(void) { __sync_lock_release(&evl); }

void ev(const char *fmt, ...) {
    va_list ap; int n; size_t room;
    sigset_t all, old;
    sigfillset(&all);
    pthread_sigmask(SIG_SETMASK, &all, &old);
    ev_lock();
    room = (vf_most && vf_most < logcap ? vf_most : logcap) - vf->len;
    if (!vf_child) room = logcap - vf->len;
    if (room < 8192 && vf_child) { vf->overflow = 1; _exit(77); }     /* endless: no more of it */
    else {
        char *o = vf->log + vf->len;
        o[0] = '{';
        va_start(ap, fmt);
        n = vsnprintf(o + 1, room - 40, fmt, ap);
        va_end(ap);
        if (n < 0 || (size_t)n >= room - 40) { vf->overflow = 1; if (vf_child) _exit(77); }
        else {
            if (vf_tag >= 0) n += sprintf(o + n + 1, ",\"t\":%d", vf_tag);
            o[n + 1] = '}'; o[n + 2] = '\n'; vf->len += n + 3;
        }
    }
    ev_unlock();
    pthread_sigmask(SIG_SETMASK, &old, NULL);
}

int vf_says;
static int vf_err = -1;
/* what was said on standard error, as one line of plain text without the lines of a backtrace */
static const char *said(void) {
    static char b[400001], o[6001]; ssize_t n, i; size_t k = 0; char *l, *e;
    n = pread(vf_err, b, 400000, 0);
    if (n < 0) n = 0;
    for (i = 0; i < n; i++) if (b[i] != '\n' && (b[i] < 32 || b[i] > 126 || b[i] == '"' || b[i] == '\\')) b[i] = '?';
    b[n] = 0;
    for (l = b; *l; l = e) {
        e = strchr(l, '\n');
        if (e) *e++ = 0; else e = l + strlen(l);
        if (!*l || strstr(l, "[0x") || k + strlen(l) + 2 > 6000) continue;
        k += sprintf(o + k, "%s%s", k ? "|" : "", l);
    }
    o[k] = 0;
    return o;
}
static void audit_child(void) { vf_audit(); }

void vf_run(void (*fn)(void *), void *arg, int timeout_ms) {
    pid_t pid; int st = 0; int fds[2]; struct pollfd pf; int timed = 0;
    fflush(stdout);
    if (vf_says) {
        if (vf_err < 0 && (vf_err = memfd_create("vf", 0)) < 0) { perror("memfd"); exit(9); }
        if (ftruncate(vf_err, 0)) exit(9);
        lseek(vf_err, 0, SEEK_SET);
    }
    if (pipe(fds)) { perror("pipe"); exit(9); }
    pid = fork();
    if (pid < 0) { perror("fork"); exit(9); }
    if (pid == 0) {
        struct rlimit rl = {0, 0};
        int dn = open("/dev/null", O_RDWR);
        close(fds[0]);
        vf_child = 1;
        for (st = 1; st < 32; st++) signal(st, SIG_DFL);      /* whatever was inherited */
        { sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, NULL); }
        setrlimit(RLIMIT_CORE, &rl);
        if (!getenv("VF_SHOW")) { dup2(dn, 1); dup2(vf_says ? vf_err : dn, 2); }
        dup2(dn, 0);
        if (dn > 2) close(dn);
        atexit(audit_child);       /* first registered, runs last */
        fn(arg);
        exit(0);
    }
    close(fds[1]);
    pf.fd = fds[0]; pf.events = 0;
    for (;;) {      /* the pipe closes when the child ends */
        int r = poll(&pf, 1, timeout_ms);
        if (r == 0) { timed = 1; kill(pid, SIGKILL); break; }
        if (r > 0) break;
        if (errno != EINTR) break;
    }
    close(fds[0]);
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (timed) vf_timeouts++;
    if (vf->overflow && ++vf_endless == 40) vf_timeouts += 3;      /* seen enough */
    ev("\"e\":\"exit\",\"how\":\"%s\",\"v\":%d,\"live\":%ld,\"bad\":%ld,\"smash\":%ld,\"afails\":%ld%s%s%s",
       timed ? "timeout" : vf->overflow ? "endless" : WIFEXITED(st) ? "code" : "signal",
       timed || vf->overflow ? 0 : WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), vf->live, vf->bad, vf->smash, vf->failed,
       vf_says && st ? ",\"says\":\"" : "", vf_says && st ? said() : "", vf_says && st ? "\"" : "");
}
