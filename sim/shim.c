/* Simulation runtime, preloaded into the simulated process (LD_PRELOAD).
 *
 *  - a cooperative "baton" scheduler: registered threads (Python caller threads and OpenMP team members) are real
 *    pthreads of which exactly one runs; who runs next is drawn from one seeded PRNG (or read from a replay list);
 *  - preemption points: every memory access of the library's compiled code (the extensions are compiled with
 *    -fsanitize=thread and this file supplies the __tsan callbacks), every executed line of its Python code
 *    (sim_pypoint), and the OpenMP runtime calls;
 *  - an OpenMP runtime (the GOMP and omp entry points) whose teams run under that scheduler, and which may grant fewer threads than asked;
 *  - an allocator seam: malloc/calloc called from the library's extensions can fail, and new memory is filled with garbage;
 *  - a disk seam: libc file calls on paths below one scratch prefix are logged, and can fail, be short or be interrupted.
 *
 * Everything is off until sim_begin(); threads that are not registered pass through untouched.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <math.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>

/* ------------------------------------------------------------------ PRNG */
static uint64_t g_rng, g_seed;
static uint64_t rnd(void) { /* splitmix64 */
    uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static double rndu(void) { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

/* ------------------------------------------------------------- scheduler */
#define MAXT 512
enum { FREE = 0, RUNNABLE = 1, BLOCKED = 2, DONE = 3 };
typedef struct Team Team;
typedef struct Th {
    int id, state, used, uid;
    int64_t left, quantum;      /* points until the next decision, and the quantum that was granted */
    uint64_t pts;               /* points consumed in finished quanta */
    void *wait;                 /* what a blocked thread waits for */
    sem_t sem;
    Team *team; int tnum; unsigned ws_seq; void *ws_cur; int single_seq;
    unsigned nteam;             /* teams started so far: the grants are drawn from a stream of their own */
    pthread_t pt;
} Th;
struct WS { unsigned seq; int live; long next, end, incr, chunk; int kind; };
struct Team { int n, alive, arrived; unsigned gen; void (*fn)(void *); void *data; struct WS ws[64]; Th *members[MAXT]; unsigned singles; };

static Th T[MAXT];
static int g_nt;
static volatile int g_on;
static __thread Th *me;
static __thread Team *serial_team;   /* for unregistered threads */
static int g_mode;                   /* 0 seeded, 1 explicit replay list */
static double g_lnmaxq;
static double g_switch_p;
static uint64_t g_total, g_max_points;
static uint64_t g_nswitch, g_ndecide, g_npoints_c, g_npoints_py, g_defer, g_teams, g_short_teams;
static int g_grant_p;                /* percent of teams granted fewer threads */
static int g_max_threads = 4;
static uint64_t g_hash;
typedef struct { int32_t from, to; uint64_t pts; int32_t kind, pad; } Ev; /* kind 0 preemption, 1 the thread could not go on */
#define MAXEV 400000
static Ev *g_tr; static int g_ntr;   /* recorded switches */
static Ev *g_ex; static int g_nex;   /* explicit replay list */
#define MAXU 8192
static int g_exi[2][MAXU], g_nuid;     /* next explicit event per thread, preemptions and forced switches */
typedef int (*gilchk_t)(void);
static gilchk_t g_gil;
static int g_fatal;                  /* 1 deadlock, 2 step budget */
static int g_fatal_fd = -1;
#define W_LINE 50

static uint64_t pts_now(Th *t) { return t->pts + (uint64_t)(t->quantum - t->left); }

static void fatal(int code) {
    g_fatal = code;
    if (g_fatal_fd >= 0) { char b[64]; int n = snprintf(b, sizeof b, "FATAL %d\n", code); if (write(g_fatal_fd, b, n) < 0) {} }
    _exit(70 + code);
}

static void ex_arm(Th *t) { /* explicit mode: run until this thread's next listed preemption */
    int *pi = &g_exi[0][t->uid]; uint64_t p = pts_now(t);
    while (*pi < g_nex && !(g_ex[*pi].from == t->uid && g_ex[*pi].kind == 0 && g_ex[*pi].pts >= p)) (*pi)++;
    t->pts = p;
    if (*pi < g_nex) t->quantum = t->left = (int64_t)(g_ex[*pi].pts - p) - 1;
    else t->quantum = t->left = (int64_t)1 << 60;
}

static void arm(Th *t) {
    if (g_mode == 1) { ex_arm(t); return; }
    double q = exp(rndu() * g_lnmaxq);
    t->pts = pts_now(t);
    t->quantum = t->left = (int64_t)q + 1;
}

static Th *pick(Th *t, int must, int *found) {
    /* choose the next thread; must: t itself cannot continue */
    Th *c[MAXT]; int n = 0;
    for (int i = 0; i < g_nt; i++) if (T[i].used && T[i].state == RUNNABLE && !(must && &T[i] == t)) c[n++] = &T[i];
    *found = n;
    if (!n) return NULL;
    if (g_mode == 1) {
        uint64_t p = pts_now(t);
        int *pi = &g_exi[must ? 1 : 0][t->uid], i = *pi;
        while (i < g_nex && !(g_ex[i].from == t->uid && g_ex[i].kind == (must ? 1 : 0) && (must ? g_ex[i].pts >= p : 1))) i++;
        *pi = i;
        if (i < g_nex && g_ex[i].pts <= p) {
            *pi = i + 1;
            for (int k = 0; k < n; k++) if (c[k]->uid == g_ex[i].to) return c[k];
        }
        return must ? c[0] : t;
    }
    if (n == 1) return c[0];
    return c[rnd() % n];
}

static void record(Th *t, Th *n, int kind) {
    uint64_t p = pts_now(t);
    g_hash = (g_hash ^ (p * 1000003ull + (uint64_t)t->uid * 131 + n->uid)) * 0x100000001B3ull;
    if (g_ntr < MAXEV && g_tr) { g_tr[g_ntr].from = t->uid; g_tr[g_ntr].to = n->uid; g_tr[g_ntr].pts = p; g_tr[g_ntr].kind = kind; g_tr[g_ntr].pad = 0; g_ntr++; }
}

static void give(Th *n) { sem_post(&n->sem); }
static void park(Th *t) { while (sem_wait(&t->sem) != 0) {} }

static void decide(Th *t) {
    int found; Th *n;
    g_ndecide++;
    g_total += (uint64_t)(t->quantum - t->left);
    if (g_max_points && g_total > g_max_points) fatal(2);
    n = pick(t, 0, &found);
    if (n && n != t) {
        g_nswitch++;
        record(t, n, 0);
        arm(t);
        give(n);
        park(t);
    } else arm(t);
}

static void slow_c(Th *t) {
    if (!g_on) { t->quantum = t->left = (int64_t)1 << 40; return; }
    int others = 0;
    for (int i = 0; i < g_nt; i++) if (T[i].used && T[i].state == RUNNABLE && &T[i] != t) { others = 1; break; }
    if (others && g_gil && g_gil()) { g_defer++; t->quantum += 64; t->left += 64; return; }
    decide(t);
}

static inline void cpoint(void) {
    Th *t = me;
    if (!t) return;
    if (--t->left >= 0) return;
    slow_c(t);
}

/* called with the GIL held: returns 1 when the caller must call sim_pyyield (GIL released) */
int sim_pypoint(void) {
    Th *t = me;
    if (!t || !g_on) return 0;
    g_npoints_py++;
    t->left -= W_LINE;
    return t->left < 0;
}
void sim_pyyield(void) { Th *t = me; if (t && g_on) decide(t); }
/* unconditional decision point (used by the simulated locks) */
void sim_force_yield(void) {
    Th *t = me; if (!t || !g_on) return;
    int found; Th *n = pick(t, 1, &found);
    g_total += 1;
    if (g_max_points && g_total > g_max_points) fatal(2);
    if (!n) return;
    record(t, n, 1); g_nswitch++;
    give(n); park(t);
}

static void block(Th *t, void *obj) { /* give the baton away until somebody makes t runnable */
    int found; Th *n;
    t->state = BLOCKED; t->wait = obj;
    n = pick(t, 1, &found);
    if (!n) fatal(1);
    record(t, n, 1);
    give(n); park(t);
}
static void wake(void *obj) {
    for (int i = 0; i < g_nt; i++) if (T[i].used && T[i].state == BLOCKED && T[i].wait == obj) { T[i].state = RUNNABLE; T[i].wait = NULL; }
}

static Th *newth(void) {
    if (g_nt >= MAXT) fatal(3);
    Th *t = &T[g_nt];
    memset(t, 0, sizeof *t);
    t->id = g_nt++; t->used = 1; t->uid = g_nuid < MAXU - 1 ? g_nuid++ : MAXU - 1; t->state = RUNNABLE;
    sem_init(&t->sem, 0, 0);
    arm(t);
    return t;
}

/* Python caller threads */
int sim_new_thread(void) { return newth()->id; }
void sim_attach(int id) { me = &T[id]; park(me); }
void sim_detach(void) { /* end of a registered thread: passes the baton on */
    Th *t = me; int found; Th *n;
    t->state = DONE; wake(t); me = NULL;
    g_total += (uint64_t)(t->quantum - t->left);
    n = pick(t, 1, &found);
    if (!n) fatal(1);
    record(t, n, 1);
    give(n);
}
void sim_join(int id) { Th *t = me; while (T[id].state != DONE) block(t, &T[id]); }
int sim_in_thread(void) { return me != NULL; }
int sim_current(void) { return me ? me->id : -1; }

void sim_begin(uint64_t seed, int mode, double maxq, int grant_p, uint64_t max_points, Ev *ex, int nex, int fatal_fd) {
    g_rng = g_seed = seed; g_mode = mode; g_lnmaxq = log(maxq < 1 ? 1 : maxq); g_grant_p = grant_p; g_max_points = max_points;
    g_ex = ex; g_nex = nex; g_fatal_fd = fatal_fd;
    memset(g_exi, 0, sizeof g_exi);
    g_nt = 0; g_nuid = 0; g_total = g_nswitch = g_ndecide = g_npoints_c = g_npoints_py = g_defer = g_teams = g_short_teams = 0;
    g_hash = 1469598103934665603ull; g_ntr = 0;
    if (!g_tr) g_tr = malloc(sizeof(Ev) * MAXEV);
    g_gil = (gilchk_t)dlsym(RTLD_DEFAULT, "PyGILState_Check");
    g_on = 1;
    me = newth();
}
void sim_end(void) { g_total += me ? (uint64_t)(me->quantum - me->left) : 0; g_on = 0; me = NULL; }
void sim_stats(uint64_t *o) {
    o[0] = g_total; o[1] = g_nswitch; o[2] = g_ndecide; o[3] = g_npoints_py; o[4] = g_defer; o[5] = g_teams; o[6] = g_short_teams;
    o[7] = g_hash; o[8] = (uint64_t)g_nt; o[9] = (uint64_t)g_ntr;
}
int sim_trace(Ev *out, int max) { int n = g_ntr < max ? g_ntr : max; memcpy(out, g_tr, sizeof(Ev) * n); return n; }
void sim_set_max_threads(int n) { g_max_threads = n; }

/* ------------------------------------------------- instrumentation calls */
#define PT(name) void name(void *a) { (void)a; cpoint(); }
PT(__tsan_read1) PT(__tsan_read2) PT(__tsan_read4) PT(__tsan_read8) PT(__tsan_read16)
PT(__tsan_write1) PT(__tsan_write2) PT(__tsan_write4) PT(__tsan_write8) PT(__tsan_write16)
PT(__tsan_unaligned_read2) PT(__tsan_unaligned_read4) PT(__tsan_unaligned_read8) PT(__tsan_unaligned_read16)
PT(__tsan_unaligned_write2) PT(__tsan_unaligned_write4) PT(__tsan_unaligned_write8) PT(__tsan_unaligned_write16)
PT(__tsan_volatile_read1) PT(__tsan_volatile_read2) PT(__tsan_volatile_read4) PT(__tsan_volatile_read8) PT(__tsan_volatile_read16)
PT(__tsan_volatile_write1) PT(__tsan_volatile_write2) PT(__tsan_volatile_write4) PT(__tsan_volatile_write8) PT(__tsan_volatile_write16)
PT(__tsan_vptr_read)
void __tsan_vptr_update(void *a, void *v) { (void)a; (void)v; cpoint(); }
void __tsan_func_entry(void *a) { (void)a; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_read_range(void *a, long n) { (void)a; (void)n; cpoint(); }
void __tsan_write_range(void *a, long n) { (void)a; (void)n; cpoint(); }
#define AT(bits, ty) \
ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { (void)mo; cpoint(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { (void)mo; cpoint(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { (void)mo; cpoint(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; cpoint(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; cpoint(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; cpoint(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; cpoint(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; cpoint(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; cpoint(); \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; cpoint(); \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { (void)mo; (void)fmo; cpoint(); \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------------------------------------------------------------- OpenMP */
static Team *cur_team(void) { return me ? me->team : serial_team; }

static void *worker(void *a) {
    Th *t = a; int found; Th *n;
    me = t; park(t);
    t->team->fn(t->team->data);
    Team *tm = t->team;
    tm->alive--;
    if (tm->alive == 0) wake(tm);
    t->state = DONE; me = NULL;
    g_total += (uint64_t)(t->quantum - t->left);
    n = pick(t, 1, &found);
    if (!n) fatal(1);
    record(t, n, 1);
    give(n);
    return NULL;
}

static void run_team(void (*fn)(void *), void *data, unsigned nthreads, const struct WS *ws) {
    Team *tm = calloc(1, sizeof *tm);
    Th *t = me;
    if (ws) { tm->ws[0] = *ws; tm->ws[0].live = 1; tm->ws[0].seq = 0; }
    tm->fn = fn; tm->data = data;
    if (!g_on || !t) {
        Team *old = serial_team;
        tm->n = 1;
        if (t) { /* registered but simulation over */ Team *o2 = t->team; t->team = tm; fn(data); t->team = o2; free(tm); return; }
        serial_team = tm; fn(data); serial_team = old; free(tm); return;
    }
    int want = nthreads ? (int)nthreads : g_max_threads;
    if (want < 1) want = 1;
    if (t->team && t->team->n > 1) want = 1; /* nested parallelism is off */
    if (want > MAXT - g_nt - 2) want = MAXT - g_nt - 2;
    if (want < 1) want = 1;
    int g = want;
    g_teams++;
    uint64_t save = g_rng;
    g_rng = g_seed ^ (0xA24BAED4963EE407ull * (uint64_t)(t->uid + 1)) ^ ((uint64_t)t->nteam++ << 20);
    if (want > 1 && g_grant_p > 0 && (int)(rnd() % 100) < g_grant_p) { g = 1 + (int)(rnd() % want); if (g < want) g_short_teams++; }
    g_rng = save;
    tm->n = g; tm->alive = g - 1;
    Team *ot = t->team; int on = t->tnum; unsigned oseq = t->ws_seq; void *ocur = t->ws_cur; int osg = t->single_seq;
    t->team = tm; t->tnum = 0; t->ws_seq = ws ? 1 : 0; t->ws_cur = ws ? &tm->ws[0] : NULL; t->single_seq = 0;
    Th *mem[MAXT]; mem[0] = t;
    for (int i = 1; i < g; i++) {
        Th *w = newth(); mem[i] = w;
        w->team = tm; w->tnum = i; w->ws_seq = ws ? 1 : 0; w->ws_cur = ws ? &tm->ws[0] : NULL;
        if (pthread_create(&w->pt, NULL, worker, w) != 0) fatal(4);
    }
    fn(data);
    while (tm->alive > 0) block(t, tm);
    for (int i = 1; i < g; i++) pthread_join(mem[i]->pt, NULL);
    t->team = ot; t->tnum = on; t->ws_seq = oseq; t->ws_cur = ocur; t->single_seq = osg;
    /* slots of finished workers at the end of the table can be used again; ids stay unique while a team lives */
    while (g_nt > 0 && T[g_nt - 1].state == DONE && T[g_nt - 1].team == tm) { sem_destroy(&T[g_nt - 1].sem); T[g_nt - 1].used = 0; g_nt--; }
    free(tm);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void)flags; run_team(fn, data, n, NULL); }
void GOMP_parallel_start(void (*fn)(void *), void *data, unsigned n) { (void)n; run_team(fn, data, 1, NULL); }
void GOMP_parallel_end(void) {}

void GOMP_barrier(void) {
    Th *t = me; Team *tm = cur_team();
    if (!t || !g_on || !tm || tm->n == 1) return;
    unsigned gen = tm->gen;
    if (++tm->arrived == tm->n) { tm->arrived = 0; tm->gen++; wake(&tm->gen); cpoint(); return; }
    while (tm->gen == gen) block(t, &tm->gen);
}

/* critical sections and locks: owner table keyed by address */
#define MAXL 256
static struct { void *key; Th *owner; int depth; } L[MAXL]; static int g_nl;
static int lk(void *key) {
    for (int i = 0; i < g_nl; i++) if (L[i].key == key) return i;
    if (g_nl >= MAXL) fatal(5);
    L[g_nl].key = key; L[g_nl].owner = NULL; return g_nl++;
}
static void lock(void *key) { Th *t = me; if (!t || !g_on) return; cpoint(); int i = lk(key); while (L[i].owner) block(t, &L[i]); L[i].owner = t; }
static void unlock(void *key) { Th *t = me; if (!t || !g_on) return; int i = lk(key); L[i].owner = NULL; wake(&L[i]); cpoint(); }
static char k_crit, k_atom, k_ord;
void GOMP_critical_start(void) { lock(&k_crit); }
void GOMP_critical_end(void) { unlock(&k_crit); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&k_atom); }
void GOMP_atomic_end(void) { unlock(&k_atom); }
void GOMP_ordered_start(void) { lock(&k_ord); }
void GOMP_ordered_end(void) { unlock(&k_ord); }
_Bool GOMP_single_start(void) {
    Th *t = me; Team *tm = cur_team();
    if (!t || !tm) return 1;
    unsigned s = (unsigned)t->single_seq++;
    if (s == tm->singles) { tm->singles++; return 1; }
    return 0;
}
void omp_init_lock(void *l) { (void)l; }
void omp_destroy_lock(void *l) { (void)l; }
void omp_set_lock(void *l) { lock(l); }
void omp_unset_lock(void *l) { unlock(l); }

static _Bool ws_next(struct WS *w, long *a, long *b, int nthr) {
    long left;
    cpoint();
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return 0;
    long c = w->chunk < 1 ? 1 : w->chunk;
    left = (w->end - w->next + w->incr + (w->incr > 0 ? -1 : 1)) / w->incr;
    if (w->kind == 2) { long g = (left + nthr - 1) / nthr; if (g > c) c = g; }
    if (c > left) c = left;
    *a = w->next; w->next += c * w->incr; *b = w->next;
    if (w->incr > 0 ? *b > w->end : *b < w->end) *b = w->end;
    return 1;
}
static _Bool ws_start(int kind, long s, long e, long inc, long ch, long *a, long *b) {
    static __thread struct WS lone;
    Th *t = me; Team *tm = cur_team();
    if (!tm || (!t && tm->n == 1) || !t) {
        lone.next = s; lone.end = e; lone.incr = inc; lone.chunk = ch; lone.kind = kind;
        if (t) t->ws_cur = &lone; else if (tm) tm->ws[1] = lone;
        return ws_next(t ? &lone : (tm ? &tm->ws[1] : &lone), a, b, 1);
    }
    unsigned q = t->ws_seq++;
    struct WS *w = &tm->ws[q % 64];
    if (!w->live || w->seq != q) { w->live = 1; w->seq = q; w->next = s; w->end = e; w->incr = inc; w->chunk = ch; w->kind = kind; }
    t->ws_cur = w;
    return ws_next(w, a, b, tm->n);
}
static _Bool ws_cont(long *a, long *b) {
    Th *t = me; Team *tm = cur_team();
    struct WS *w = t ? t->ws_cur : (tm ? (tm->ws[1].incr ? &tm->ws[1] : &tm->ws[0]) : NULL);
    if (!w) return 0;
    return ws_next(w, a, b, tm ? tm->n : 1);
}
#define LOOP(nm, KD) \
_Bool GOMP_loop_##nm##_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(KD, s, e, i, c, a, b); } \
_Bool GOMP_loop_##nm##_next(long *a, long *b) { return ws_cont(a, b); } \
void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { (void)f; \
    struct WS w; memset(&w, 0, sizeof w); w.next = s; w.end = e; w.incr = i; w.chunk = c; w.kind = KD; run_team(fn, d, n, &w); }
LOOP(static, 1) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
#define LOOPR(nm) \
_Bool GOMP_loop_##nm##_start(long s, long e, long i, long *a, long *b) { return ws_start(1, s, e, i, 1, a, b); } \
_Bool GOMP_loop_##nm##_next(long *a, long *b) { return ws_cont(a, b); } \
void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { (void)f; \
    struct WS w; memset(&w, 0, sizeof w); w.next = s; w.end = e; w.incr = i; w.chunk = 1; w.kind = 1; run_team(fn, d, n, &w); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { if (me) me->ws_cur = NULL; GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { if (me) me->ws_cur = NULL; }

int omp_get_thread_num(void) { cpoint(); return me && me->team ? me->tnum : 0; }
int omp_get_num_threads(void) { Team *tm = cur_team(); return tm ? tm->n : 1; }
int omp_get_max_threads(void) { return g_max_threads; }
void omp_set_num_threads(int n) { if (n > 0) g_max_threads = n; }
int omp_get_num_procs(void) { return g_max_threads; }
int omp_in_parallel(void) { Team *tm = cur_team(); return tm && tm->n > 1; }
void omp_set_dynamic(int x) { (void)x; }
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int x) { (void)x; }
int omp_get_level(void) { return cur_team() != NULL; }
double omp_get_wtime(void) { return (double)g_total * 1e-9; }

/* ------------------------------------------------------------- allocator */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
static struct { uintptr_t a, b; } R[256]; static int g_nr;
static volatile int g_heap_on;        /* 1: fill, 2: can fail, 3: both */
static uint64_t g_heap_pat;
static int64_t g_heap_fail_at = -1, g_heap_fail_len = 1;
static uint64_t g_heap_calls, g_heap_failed, g_heap_filled;
void sim_ranges(uintptr_t *p, int n) { g_nr = 0; for (int i = 0; i < n && i < 256; i++) { R[i].a = p[2 * i]; R[i].b = p[2 * i + 1]; g_nr++; } }
void sim_heap(int flags, uint64_t pat, int64_t fail_at, int64_t fail_len) {
    g_heap_pat = pat; g_heap_fail_at = fail_at; g_heap_fail_len = fail_len; g_heap_calls = g_heap_failed = g_heap_filled = 0; g_heap_on = flags;
}
void sim_heap_stats(uint64_t *o) { o[0] = g_heap_calls; o[1] = g_heap_failed; o[2] = g_heap_filled; }
static int from_lib(void *ra) { uintptr_t p = (uintptr_t)ra; for (int i = 0; i < g_nr; i++) if (p >= R[i].a && p < R[i].b) return 1; return 0; }
static int heap_fail(void *ra) {
    if (!(g_heap_on & 2) || !from_lib(ra)) return 0;
    uint64_t k = g_heap_calls++;
    if (g_heap_fail_at >= 0 && (int64_t)k >= g_heap_fail_at && (int64_t)k < g_heap_fail_at + g_heap_fail_len) { g_heap_failed++; errno = ENOMEM; return 1; }
    return 0;
}
static void fill(void *p, size_t n) {
    uint64_t *q = p; size_t k = n / 8;
    for (size_t i = 0; i < k; i++) q[i] = g_heap_pat;
    memset((char *)p + k * 8, (int)(g_heap_pat & 255), n - k * 8);
    g_heap_filled++;
}
void *malloc(size_t n) {
    if (__builtin_expect(!g_heap_on, 1)) return __libc_malloc(n);
    if (heap_fail(__builtin_return_address(0))) return NULL;
    void *p = __libc_malloc(n);
    if (p && (g_heap_on & 1)) fill(p, n);
    return p;
}
void *calloc(size_t a, size_t b) {
    if (__builtin_expect(g_heap_on & 2, 0) && heap_fail(__builtin_return_address(0))) return NULL;
    return __libc_calloc(a, b);
}

/* ------------------------------------------------------------------ disk */
enum { D_CREAT = 1, D_OPEN, D_TRUNC, D_WRITE, D_FSYNC, D_RENAME, D_UNLINK, D_LINK, D_FSYNCDIR, D_CLOSE, D_READ, D_MKDIR };
typedef struct { uint32_t op, fault; int64_t ino, off; uint32_t len, plen; } DRec;
static volatile int g_disk_on;
static char g_prefix[1024]; static size_t g_prefix_len;
static unsigned char *g_dlog; static size_t g_dcap; static uint64_t *g_dpos;
static pthread_mutex_t g_dmx = PTHREAD_MUTEX_INITIALIZER;
typedef struct { int64_t at; int32_t kind, err; int64_t arg; int32_t opmask, fired; } DFault;
/* kind: 1 fail with err; 2 short (arg bytes, at least 1); 3 arg bytes, then every following write fails with err (sticky);
 *       4 EINTR once; 5 fail with err from here on (sticky, all mutating ops) */
static DFault *g_df; static int g_ndf;
static int64_t g_dop, g_rop;           /* mutating operations, reads */
static int g_sticky_err, g_sticky_all;
static uint64_t g_dfired[16];
static unsigned char g_fd[65536];      /* 1 tracked file, 2 tracked dir */

void sim_disk(const char *prefix, unsigned char *log, uint64_t cap, uint64_t *pos, DFault *f, int nf) {
    snprintf(g_prefix, sizeof g_prefix, "%s", prefix); g_prefix_len = strlen(g_prefix);
    g_dlog = log; g_dcap = cap; g_dpos = pos; *g_dpos = 0; g_df = f; g_ndf = nf; g_dop = g_rop = 0; g_sticky_err = 0; g_sticky_all = 0;
    memset(g_dfired, 0, sizeof g_dfired); memset(g_fd, 0, sizeof g_fd);
    g_disk_on = 1;
}
void sim_disk_off(void) { g_disk_on = 0; }
void sim_disk_faults(DFault *f, int nf) { g_df = f; g_ndf = nf; g_dop = g_rop = 0; g_sticky_err = g_sticky_all = 0; }
void sim_disk_stats(uint64_t *o) { for (int i = 0; i < 8; i++) o[i] = g_dfired[i]; o[8] = (uint64_t)g_dop; o[9] = (uint64_t)g_rop; }

static int tracked(const char *p, char *out) {
    char b[4096];
    if (!p) return 0;
    if (p[0] != '/') { char cwd[2048]; if (!getcwd(cwd, sizeof cwd)) return 0; snprintf(b, sizeof b, "%s/%s", cwd, p); }
    else snprintf(b, sizeof b, "%s", p);
    if (strncmp(b, g_prefix, g_prefix_len) != 0 || (b[g_prefix_len] != '/' && b[g_prefix_len] != 0)) return 0;
    if (out) snprintf(out, 2048, "%s", b);
    return 1;
}
static void dlog(uint32_t op, uint32_t fault, int64_t ino, int64_t off, const void *data, uint32_t len, const char *path) {
    uint32_t pl = path ? (uint32_t)strlen(path) : 0;
    size_t need = sizeof(DRec) + len + pl;
    if (*g_dpos + need > g_dcap) return;
    DRec r = { op, fault, ino, off, len, pl };
    memcpy(g_dlog + *g_dpos, &r, sizeof r);
    if (len) memcpy(g_dlog + *g_dpos + sizeof r, data, len);
    if (pl) memcpy(g_dlog + *g_dpos + sizeof r + len, path, pl);
    *g_dpos += need;
}
static DFault *dfault(int op, int read) {
    int64_t k = read ? g_rop++ : g_dop++;
    for (int i = 0; i < g_ndf; i++) {
        int isread = (g_df[i].opmask & (1 << D_READ)) != 0;
        if (isread != read || g_df[i].fired || g_df[i].at > k) continue;
        if (g_df[i].opmask && !(g_df[i].opmask & (1 << op))) continue;
        g_df[i].fired = 1; if (g_df[i].kind >= 0 && g_df[i].kind < 8) g_dfired[g_df[i].kind]++;
        return &g_df[i];
    }
    return NULL;
}
static int simple_fault(int op) { /* for operations without a partial form: 0 or an errno */
    DFault *f = dfault(op, 0);
    if (f) {
        if (f->kind == 1) return f->err;
        if (f->kind == 5) { g_sticky_all = f->err; return f->err; }
        if (f->kind == 3) { g_sticky_err = f->err; }
    }
    if (g_sticky_all) return g_sticky_all;
    return 0;
}
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); 
REAL(int, openat, int, const char *, int, ...)
REAL(int, close, int)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
REAL(int, fsync, int)
REAL(int, fdatasync, int)
REAL(int, ftruncate, int, off_t)
REAL(int, renameat2, int, const char *, int, const char *, unsigned)
REAL(int, unlinkat, int, const char *, int)
REAL(int, linkat, int, const char *, int, const char *, int)
REAL(int, truncate, const char *, off_t)
REAL(int, mkdir, const char *, mode_t)
#define LOAD(name) if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int64_t ino_of(int fd) { struct stat st; return fstat(fd, &st) == 0 ? (int64_t)st.st_ino : -1; }

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
    LOAD(openat);
    char ap[2048];
    if (!g_disk_on || (dfd != AT_FDCWD && path[0] != '/') || !tracked(path, ap)) return real_openat(dfd, path, flags, mode);
    struct stat st; int existed = stat(ap, &st) == 0;
    int mut = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (mut) { int e = simple_fault(existed ? D_OPEN : D_CREAT); if (e) { dlog(D_OPEN, (uint32_t)e, -1, 0, NULL, 0, ap); errno = e; return -1; } }
    int fd = real_openat(dfd, path, flags, mode);
    if (fd < 0) return fd;
    if (fstat(fd, &st) == 0 && fd < 65536) {
        if (S_ISDIR(st.st_mode)) g_fd[fd] = 2;
        else {
            g_fd[fd] = 1;
            if (!existed) dlog(D_CREAT, 0, (int64_t)st.st_ino, 0, NULL, 0, ap);
            else if (mut) { dlog(D_OPEN, 0, (int64_t)st.st_ino, 0, NULL, 0, ap); if (flags & O_TRUNC) dlog(D_TRUNC, 0, (int64_t)st.st_ino, 0, NULL, 0, NULL); }
        }
    }
    return fd;
}
#define OPENARGS mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENARGS return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { OPENARGS return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { OPENARGS return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { OPENARGS return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int trk(int fd) { return g_disk_on && fd >= 0 && fd < 65536 ? g_fd[fd] : 0; }

int close(int fd) {
    LOAD(close);
    if (!trk(fd)) return real_close(fd);
    int kind = g_fd[fd], e = kind == 1 ? simple_fault(D_CLOSE) : 0; g_fd[fd] = 0;
    if (kind == 1) { dlog(D_CLOSE, 0, ino_of(fd), 0, NULL, 0, NULL); }
    int r = real_close(fd);
    if (e) { errno = e; return -1; }
    return r;
}
static ssize_t do_write(int fd, const void *b, size_t n, int64_t off) {
    LOAD(write); LOAD(pwrite);
    if (trk(fd) != 1) return off >= 0 ? real_pwrite(fd, b, n, off) : real_write(fd, b, n);
    DFault *f = dfault(D_WRITE, 0);
    size_t m = n; int err = 0;
    if (g_sticky_all) err = g_sticky_all; else if (g_sticky_err) err = g_sticky_err;
    else if (f) {
        if (f->kind == 1) err = f->err;
        else if (f->kind == 4) err = EINTR;
        else if (f->kind == 5) { g_sticky_all = f->err; err = f->err; }
        else if (f->kind == 2) { m = (size_t)f->arg % (n ? n : 1); if (m == 0) m = 1; if (m > n) m = n; }
        else if (f->kind == 3) { m = (size_t)f->arg % (n + 1); g_sticky_err = f->err; if (m == 0) err = f->err; }
    }
    if (err) { dlog(D_WRITE, (uint32_t)err, ino_of(fd), 0, NULL, 0, NULL); errno = err; return -1; }
    int64_t at = off >= 0 ? off : (int64_t)lseek(fd, 0, SEEK_CUR);
    if (off < 0 && (fcntl(fd, F_GETFL) & O_APPEND)) { struct stat st; if (fstat(fd, &st) == 0) at = st.st_size; }
    ssize_t r = off >= 0 ? real_pwrite(fd, b, m, off) : real_write(fd, b, m);
    if (r > 0) dlog(D_WRITE, 0, ino_of(fd), at, b, (uint32_t)r, NULL);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    static ssize_t (*real_writev)(int, const struct iovec *, int);
    if (!real_writev) real_writev = dlsym(RTLD_NEXT, "writev");
    if (trk(fd) != 1) return real_writev(fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return tot ? tot : r; tot += r; if ((size_t)r < v[i].iov_len) break; }
    return tot;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { (void)o; (void)i; (void)off; (void)n; 
    static ssize_t (*rs)(int, int, off_t *, size_t); if (!rs) rs = dlsym(RTLD_NEXT, "sendfile");
    if (trk(o) == 1) { errno = ENOTSOCK; return -1; } return rs(o, i, off, n); }
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int a, off_t *ao, int b, off_t *bo, size_t n, unsigned fl) {
    static ssize_t (*rs)(int, off_t *, int, off_t *, size_t, unsigned); if (!rs) rs = dlsym(RTLD_NEXT, "copy_file_range");
    if (trk(b) == 1) { errno = EXDEV; return -1; } return rs ? rs(a, ao, b, bo, n, fl) : -1; }
ssize_t read(int fd, void *b, size_t n) {
    LOAD(read);
    if (trk(fd) != 1) return real_read(fd, b, n);
    DFault *f = dfault(D_READ, 1);
    if (f) {
        if (f->kind == 1) { errno = f->err; return -1; }
        if (f->kind == 4) { errno = EINTR; return -1; }
        if (f->kind == 2 && n > 1) { n = 1 + (size_t)f->arg % (n - 1); }
    }
    return real_read(fd, b, n);
}
static int do_sync(int fd, int data) {
    LOAD(fsync); LOAD(fdatasync);
    int k = trk(fd);
    if (!k) return data ? real_fdatasync(fd) : real_fsync(fd);
    int e = simple_fault(D_FSYNC);
    if (e) { dlog(D_FSYNC, (uint32_t)e, ino_of(fd), 0, NULL, 0, NULL); errno = e; return -1; }
    dlog(k == 2 ? D_FSYNCDIR : D_FSYNC, 0, ino_of(fd), 0, NULL, 0, NULL);
    return 0;
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }
static int do_ftrunc(int fd, off_t n) {
    LOAD(ftruncate);
    if (trk(fd) != 1) return real_ftruncate(fd, n);
    int e = simple_fault(D_TRUNC);
    if (e) { errno = e; return -1; }
    int r = real_ftruncate(fd, n);
    if (r == 0) dlog(D_TRUNC, 0, ino_of(fd), n, NULL, 0, NULL);
    return r;
}
int ftruncate(int fd, off_t n) { return do_ftrunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftrunc(fd, n); }
static int do_trunc(const char *p, off_t n) {
    LOAD(truncate); char ap[2048];
    if (!g_disk_on || !tracked(p, ap)) return real_truncate(p, n);
    int e = simple_fault(D_TRUNC); if (e) { errno = e; return -1; }
    struct stat st; int r = real_truncate(p, n);
    if (r == 0 && stat(ap, &st) == 0) dlog(D_TRUNC, 0, (int64_t)st.st_ino, n, NULL, 0, NULL);
    return r;
}
int truncate(const char *p, off_t n) { return do_trunc(p, n); }
int truncate64(const char *p, off_t n) { return do_trunc(p, n); }
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
    LOAD(renameat2); char x[2048], y[4200]; x[0] = 0;
    int ta = g_disk_on && (d1 == AT_FDCWD || a[0] == '/') && tracked(a, x);
    char y0[2048]; y0[0] = 0; int tb = g_disk_on && (d2 == AT_FDCWD || b[0] == '/') && tracked(b, y0);
    if (!ta && !tb) return real_renameat2(d1, a, d2, b, fl);
    int e = simple_fault(D_RENAME);
    if (e) { dlog(D_RENAME, (uint32_t)e, -1, 0, NULL, 0, NULL); errno = e; return -1; }
    int r = real_renameat2(d1, a, d2, b, fl);
    if (r == 0) { snprintf(y, sizeof y, "%s\n%s", x, y0); dlog(D_RENAME, 0, -1, 0, NULL, 0, y); }
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
static int do_unlink(int d, const char *p, int fl) {
    LOAD(unlinkat); char x[2048];
    if (!g_disk_on || !(d == AT_FDCWD || p[0] == '/') || !tracked(p, x)) return real_unlinkat(d, p, fl);
    int e = simple_fault(D_UNLINK); if (e) { errno = e; return -1; }
    int r = real_unlinkat(d, p, fl);
    if (r == 0) dlog(D_UNLINK, 0, -1, 0, NULL, 0, x);
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int remove(const char *p) { struct stat st; int dir = lstat(p, &st) == 0 && S_ISDIR(st.st_mode); return do_unlink(AT_FDCWD, p, dir ? AT_REMOVEDIR : 0); }
static int do_link(int d1, const char *a, int d2, const char *b, int fl) {
    LOAD(linkat); char x[2048], y0[2048], y[4200];
    if (!g_disk_on || !tracked(a, x) || !tracked(b, y0)) return real_linkat(d1, a, d2, b, fl);
    int e = simple_fault(D_LINK); if (e) { errno = e; return -1; }
    int r = real_linkat(d1, a, d2, b, fl);
    if (r == 0) { snprintf(y, sizeof y, "%s\n%s", x, y0); dlog(D_LINK, 0, -1, 0, NULL, 0, y); }
    return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_link(d1, a, d2, b, f); }
