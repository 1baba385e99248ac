/*
 * Concurrent replay driver.  The library is compiled with -fsanitize=thread but linked with the access
 * hooks below instead of the sanitizer's runtime: every access of the library to memory is an event.
 *
 * Threads hold programs of operations (init, finalize, isinit, integral calls on shared objects).
 * Only one thread runs at a time; a schedule (list of "thread n": run this thread for n shared events)
 * says which.  Accesses are classified by region
 *     private: own stack (and thread-local storage), own heap blocks of the current operation, own outputs
 *     G: globals of the library and heap blocks allocated by an initialization
 *     A: objects shared by all threads (arguments of the calls)
 *     F: private memory of another thread
 * and a trace of the shared events (consecutive equal ones collapsed) is printed.
 */
#define CONC 1
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>

#define MAXT 8
#define STACK (8l << 20)
#define ARENA (1l << 33)
#define NCLS 40

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static volatile long live_blocks = 0, bad_free = 0;
static int track = 0;

/* arenas: 0 objects built by the main thread, 1 initialization, 2+t private of thread t, OUTA+t outputs of t */
enum { AR_OBJ = 0, AR_INIT = 1, AR_PRIV = 2, AR_OUT = 2 + MAXT, AR_N = 2 + 2 * MAXT };
static char *ar_base[AR_N], *ar_top[AR_N];
static void *ar_free[AR_N][NCLS];
static char **ar_blk[AR_N]; static size_t ar_nb[AR_N], ar_cb[AR_N];
typedef struct { uint32_t cls, magic; uint64_t size; } hdr_t;
#define MAGIC 0x51ab10c5u
#define DEAD 0xdeadb10cu
static __thread int me = -1;              /* worker number, -1: main thread */
static __thread int op_init = 0;          /* inside an initialization / finalization */
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static int free_running = 0;

static void *ar_alloc(int a, size_t n) {
    int c = 5; while ((1ul << c) < n + sizeof(hdr_t)) c++;
    hdr_t *h = ar_free[a][c];
    if (h) ar_free[a][c] = *(void **)(h + 1);
    else { h = (hdr_t *)ar_top[a]; ar_top[a] += 1ul << c;
        if (ar_nb[a] == ar_cb[a]) ar_blk[a] = __real_realloc(ar_blk[a], (ar_cb[a] = 2 * ar_cb[a] + 64) * sizeof(char *));
        ar_blk[a][ar_nb[a]++] = (char *)h;
        if (ar_top[a] > ar_base[a] + ARENA) { printf("X out of memory\n.\n"); fflush(stdout); _Exit(3); } }
    h->cls = c; h->magic = MAGIC; h->size = n;
    memset(h + 1, 0xCB, n);
    return h + 1;
}
static void *block_of(int a, char *p) {      /* start of the block containing p */
    size_t l = 0, r = ar_nb[a];
    while (r - l > 1) { size_t m = (l + r) / 2; if (ar_blk[a][m] <= p) l = m; else r = m; }
    return ar_blk[a][l];
}
static int ar_of(void *p) { for (int a = 0; a < AR_N; a++) if ((char *)p >= ar_base[a] && (char *)p < ar_base[a] + ARENA) return a; return -1; }
static void ar_release(int a, void *p) { hdr_t *h = (hdr_t *)p - 1; h->magic = DEAD; memset(p, 0xDD, h->size < 64 ? h->size : 64); *(void **)p = ar_free[a][h->cls]; ar_free[a][h->cls] = h; }
static int cur_arena(void) { return me < 0 ? (op_init ? AR_INIT : AR_OBJ) : op_init ? AR_INIT : AR_PRIV + me; }
static void note_alloc(int d);
void *__wrap_malloc(size_t n) {
    if (!track) return __real_malloc(n);
    if (free_running) pthread_mutex_lock(&big);
    void *p = ar_alloc(cur_arena(), n); note_alloc(1);
    if (free_running) pthread_mutex_unlock(&big);
    return p;
}
void *__wrap_calloc(size_t a, size_t b) { if (!track) return __real_calloc(a, b); void *p = __wrap_malloc(a * b); memset(p, 0, a * b); return p; }
void __wrap_free(void *p) {
    if (!p) return;
    int a = ar_of(p);
    if (a < 0) { __real_free(p); return; }
    if (free_running) pthread_mutex_lock(&big);
    if (((hdr_t *)p - 1)->magic != MAGIC) bad_free++; else { ar_release(a, p); note_alloc(-1); }
    if (free_running) pthread_mutex_unlock(&big);
}
void *__wrap_realloc(void *q, size_t n) {
    if (!track) return __real_realloc(q, n);
    void *p = __wrap_malloc(n);
    if (q) { size_t o = ((hdr_t *)q - 1)->size; memcpy(p, q, o < n ? o : n); __wrap_free(q); }
    return p;
}

static void conc_init(void) {
    for (int a = 0; a < AR_N; a++) {
        ar_base[a] = ar_top[a] = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (ar_base[a] == (char *)MAP_FAILED) { printf("X mmap\n.\n"); fflush(stdout); _Exit(3); }
    }
}
#include "driver.c"

/* ---------------------------------------------------------------- threads and schedule */
typedef struct { char kind[16]; call_t *call; } op_t;
typedef struct {
    op_t ops[64]; int n, cur;
    char *stack; sem_t sem; pthread_t th;
    int done, blocked; void *lock; int inop; const char *opname;
    long events[64];        /* shared events per operation */
} thr_t;
static thr_t T[MAXT]; static int nthr = 0, active = 0, turn = -1;
static int seg_t[4096]; static long seg_n[4096]; static int nseg = 0, seg = 0; static long seg_left = 0;
static sem_t finished;
static void *lock_addr[64]; static int lock_owner[64]; static int nlock = 0;
static int last_up = 0;
static char *tr = NULL; static size_t tr_len = 0, tr_cap = 0; static long n_trace = 0;
static int known = 0, abandon = 0;
static long init_allocs = 0;

static void trace(int t, const char *fmt, ...) {
    char b[160]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (tr_len + 256 > tr_cap) { tr_cap = 2 * tr_cap + 65536; tr = __real_realloc(tr, tr_cap); }
    tr_len += sprintf(tr + tr_len, "T %d %s\n", t, b);
    n_trace++;
}
/* locations: library globals (by symbol) and heap blocks; an access is printed once per thread between two
   synchronization events of the thread (later equal ones have the same place in the happens-before order) */
typedef struct { char *lo, *hi; } sym_t;
static sym_t *SY = NULL; static int nsy = 0;
static int cmp_sym(const void *a, const void *b) { const sym_t *x = a, *y = b; return x->lo < y->lo ? -1 : x->lo > y->lo; }
static void read_symbols(const char *exe) {
    char cmd[4096]; snprintf(cmd, sizeof cmd, "nm -S --defined-only '%s'", exe);
    FILE *f = popen(cmd, "r"); char line[1024]; unsigned long lo, sz; char ty;
    int cap = 0;
    while (f && fgets(line, sizeof line, f))
        if (sscanf(line, "%lx %lx %c", &lo, &sz, &ty) == 3 && strchr("bBdDrRvV", ty)) {
            if (nsy == cap) SY = __real_realloc(SY, (cap = 2 * cap + 256) * sizeof *SY);
            SY[nsy].lo = (char *)lo; SY[nsy++].hi = (char *)lo + sz;
        }
    if (f) pclose(f);
    qsort(SY, nsy, sizeof *SY, cmp_sym);
}
#define LH (1 << 16)
static uintptr_t lkey[LH]; static int lid[LH], nloc = 0;
static unsigned lstamp[2][LH][MAXT]; static unsigned stamp[MAXT];
static int loc_slot(uintptr_t k) {
    unsigned h = (k >> 4) * 2654435761u % LH;
    while (lkey[h] && lkey[h] != k) h = (h + 1) % LH;
    if (!lkey[h]) { lkey[h] = k; lid[h] = nloc++; }
    return h;
}
static uintptr_t symbol_of(char *a) {
    int l = 0, r = nsy - 1;
    while (l <= r) { int m = (l + r) / 2; if (a < SY[m].lo) r = m - 1; else if (a >= SY[m].hi) l = m + 1; else return (uintptr_t)SY[m].lo; }
    return (uintptr_t)a & ~7ul;
}
static void sync_event(int t) { stamp[t]++; }
static void note_alloc(int d) { if (me >= 0 && active && op_init) init_allocs += d; else live_blocks += d; }

static int has_up_check(const char *k) { return strcmp(k, "init") && strcmp(k, "finalize") && strcmp(k, "isinit"); }
static int is_up(void) { int a = active; active = 0; int u = libgrpp_is_initialized() != 0; active = a; return u; }

static int runnable(int t) {
    if (T[t].done) return 0;
    if (T[t].lock) { for (int i = 0; i < nlock; i++) if (lock_addr[i] == T[t].lock && lock_owner[i] >= 0) return 0; return 1; }
    if (!T[t].inop && T[t].cur < T[t].n) {      /* guards of the specification: calls need an initialized library */
        const char *k = T[t].ops[T[t].cur].kind;
        if (has_up_check(k)) {
            if (!known || !is_up()) return 0;
            for (int u = 0; u < nthr; u++) if (T[u].inop && !strcmp(T[u].ops[T[u].cur].kind, "finalize")) return 0;
        }
        if (!strcmp(k, "finalize")) for (int u = 0; u < nthr; u++) if (T[u].inop && has_up_check(T[u].ops[T[u].cur].kind)) return 0;
    }
    return 1;
}
/* choose the thread to run next; -1: none */
static int choose(void) {
    while (seg < nseg) {
        if (seg_left != 0 && runnable(seg_t[seg])) return seg_t[seg];
        seg++; if (seg < nseg) seg_left = seg_n[seg];
    }
    if (turn >= 0 && turn < nthr && runnable(turn)) return turn;
    for (int t = 0; t < nthr; t++) if (runnable(t)) return t;
    return -1;
}
static int deadlock = 0;
static void hand_over(int next) { turn = next; if (next >= 0) sem_post(&T[next].sem); else sem_post(&finished); }
static void reschedule(void) {       /* called by the running thread; returns when it is to run again */
    int t = me, n = choose();
    if (n == t) return;
    if (n < 0) { deadlock = 1; }
    hand_over(n);
    sem_wait(&T[t].sem);
    if (abandon) pthread_exit(NULL);
}
static void up_event(int t);
/* a schedule entry (t, n): n > 0: run t for n shared accesses, n < 0: run t until the event -n
   (1 call, 2 acquire, 3 release, 4 return, 5 the initialized state changes) */
static void next_seg(void) { seg++; if (seg < nseg) seg_left = seg_n[seg]; reschedule(); }
static void point(void) {
    T[me].events[T[me].cur]++;
    if (seg < nseg && seg_left > 0) { if (--seg_left == 0) next_seg(); }
}
static void sync_point(int ev) {
    sync_event(me);
    if (seg < nseg && (seg_left == -ev || (ev == 4 && seg_left != -1))) next_seg();
}

static void up_event(int t) { int u = is_up(); if (u != last_up) { last_up = u; if (!u) known = 0; trace(t, "up %d", u); sync_point(5); } }
/* ---------------------------------------------------------------- access events */
static long total_acc = 0;
static inline void acc(void *p, size_t n, int w) {
    int t = me;
    if (t < 0 || !active || free_running) return;
    total_acc++;
    char *a = p;
    if (a >= T[t].stack && a < T[t].stack + STACK) return;
    char k; uintptr_t key;
    int r = ar_of(a);
    if (r == AR_PRIV + t || r == AR_OUT + t) return;
    if (r >= 0) {                                  /* heap: the block */
        k = r == AR_OBJ ? 'a' : r == AR_INIT ? 'g' : 'f';
        key = (uintptr_t)block_of(r, a);
    } else {
        k = 'g'; key = 0;
        for (int u = 0; u < nthr; u++) if (u != t && a >= T[u].stack && a < T[u].stack + STACK) { k = 'f'; key = (uintptr_t)a & ~7ul; }
        if (!key) key = symbol_of(a);
    }
    up_event(t);
    int s = loc_slot(key);
    if (lstamp[w][s][t] != stamp[t]) {
        lstamp[w][s][t] = stamp[t];
        trace(t, "%c%c %d", k, w ? 'w' : 'r', lid[s]);
    }
    point();
    up_event(t);
}
static void atomic_event(void *p, int order, int kind) {       /* kind 1 load, 2 store, 3 both */
    int t = me;
    if (t < 0 || !active || free_running) return;
    up_event(t);
    trace(t, "at%d%s %d", kind, order == 0 ? "x" : "s", lid[loc_slot(symbol_of(p))]);
    sync_event(t); point();
}
#define R(n) void __tsan_read##n(void *p) { acc(p, n, 0); } void __tsan_unaligned_read##n(void *p) { acc(p, n, 0); } \
             void __tsan_write##n(void *p) { acc(p, n, 1); } void __tsan_unaligned_write##n(void *p) { acc(p, n, 1); } \
             void __tsan_read_write##n(void *p) { acc(p, n, 0); acc(p, n, 1); } void __tsan_volatile_read##n(void *p) { acc(p, n, 0); } \
             void __tsan_volatile_write##n(void *p) { acc(p, n, 1); }
R(1) R(2) R(4) R(8) R(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void *p, void *q) { acc(p, 8, 1); }
void __tsan_read_range(void *p, long n) { acc(p, n, 0); }
void __tsan_write_range(void *p, long n) { acc(p, n, 1); }
void *__real_memset(void *, int, size_t); void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t);
void *__wrap_memset(void *p, int c, size_t n) { if (n) acc(p, n, 1); return __real_memset(p, c, n); }
void *__wrap_memcpy(void *p, const void *q, size_t n) { if (n) { acc((void *)q, n, 0); acc(p, n, 1); } return __real_memcpy(p, q, n); }
void *__wrap_memmove(void *p, const void *q, size_t n) { if (n) { acc((void *)q, n, 0); acc(p, n, 1); } return __real_memmove(p, q, n); }
/* atomics (not used by the library today) */
#define AT(n, ty) ty __tsan_atomic##n##_load(const volatile ty *p, int o) { atomic_event((void *)p, o, 1); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile ty *p, ty v, int o) { atomic_event((void *)p, o, 2); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); if (me >= 0 && active) up_event(me); } \
    ty __tsan_atomic##n##_exchange(volatile ty *p, ty v, int o) { atomic_event((void *)p, o, 3); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_add(volatile ty *p, ty v, int o) { atomic_event((void *)p, o, 3); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_sub(volatile ty *p, ty v, int o) { atomic_event((void *)p, o, 3); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int a, int b) { atomic_event((void *)p, a, 3); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int a, int b) { atomic_event((void *)p, a, 3); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {}
void __tsan_atomic_signal_fence(int o) {}

/* ---------------------------------------------------------------- locks */
static int lock_slot(void *l) { for (int i = 0; i < nlock; i++) if (lock_addr[i] == l) return i; lock_addr[nlock] = l; lock_owner[nlock] = -1; return nlock++; }
static void lock_take(void *l) {
    if (me < 0 || !active) return;
    up_event(me);
    int s = lock_slot(l);
    while (lock_owner[s] >= 0) { T[me].lock = l; reschedule(); }
    T[me].lock = NULL;
    lock_owner[s] = me;
    trace(me, "acq %d", s);
    sync_point(2);
}
static void lock_give(void *l) {
    if (me < 0 || !active) return;
    up_event(me);
    int s = lock_slot(l);
    lock_owner[s] = -1;
    trace(me, "rel %d", s);
    sync_point(3);
}
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static int crit_tag;
void GOMP_critical_start(void) { if (free_running) pthread_mutex_lock(&crit); else lock_take(&crit_tag); }
void GOMP_critical_end(void) { if (free_running) pthread_mutex_unlock(&crit); else lock_give(&crit_tag); }
void GOMP_critical_name_start(void **p) { if (free_running) pthread_mutex_lock(&crit); else lock_take(p); }
void GOMP_critical_name_end(void **p) { if (free_running) pthread_mutex_unlock(&crit); else lock_give(p); }
void GOMP_atomic_start(void) { GOMP_critical_start(); }
void GOMP_atomic_end(void) { GOMP_critical_end(); }
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int lib_mutex_lock(pthread_mutex_t *m) { if (me < 0 || !active || free_running) return pthread_mutex_lock(m); lock_take(m); return 0; }
int lib_once(pthread_once_t *o, void (*f)(void)) { lib_mutex_lock((pthread_mutex_t *)o); 
    int *d = (int *)o; static int *done[64]; static int nd = 0; int i; for (i = 0; i < nd && done[i] != d; i++) ;
    if (i == nd) { f(); done[nd++] = d; } lib_mutex_unlock((pthread_mutex_t *)o); return 0; }
void lib_omp_init_lock(void *l) {}
void lib_omp_set_lock(void *l) { if (me < 0 || !active || free_running) return; lock_take(l); }
void lib_omp_unset_lock(void *l) { if (me < 0 || !active || free_running) return; lock_give(l); }
int lib_mutex_unlock(pthread_mutex_t *m) { if (me < 0 || !active || free_running) return pthread_mutex_unlock(m); lock_give(m); return 0; }

/* ---------------------------------------------------------------- workers */
typedef struct { int n, nm; double *m[12]; int ret; } res_t;
static res_t RES[MAXT][64];
static void run_op(int t, int k) {
    op_t *o = &T[t].ops[k]; res_t *r = &RES[t][k];
    memset(r, 0, sizeof *r);
    if (!strcmp(o->kind, "init")) { op_init = 1; libgrpp_init(); op_init = 0; r->ret = 1; }
    else if (!strcmp(o->kind, "finalize")) { op_init = 1; libgrpp_finalize(); op_init = 0; r->ret = 0; }
    else if (!strcmp(o->kind, "isinit")) r->ret = libgrpp_is_initialized() != 0;
    else {
        r->nm = nmat(o->call); r->n = SH[o->call->a]->cart_size * SH[o->call->b]->cart_size;
        double *p[12];
        if (free_running) pthread_mutex_lock(&big);
        for (int i = 0; i < r->nm; i++) { p[i] = r->m[i] = ar_alloc(AR_OUT + t, r->n * sizeof(double)); }
        if (free_running) pthread_mutex_unlock(&big);
        for (int i = 0; i < r->nm; i++) for (int j = 0; j < r->n; j++) p[i][j] = NAN;
        invoke(o->call, p);
    }
}
static void *worker(void *arg) {
    int t = (int)(intptr_t)arg;
    me = t;
    if (free_running) { for (int k = 0; k < T[t].n; k++) run_op(t, k); T[t].cur = T[t].n; me = -1; return NULL; }
    sem_wait(&T[t].sem);
    if (abandon) return NULL;
    for (T[t].cur = 0; T[t].cur < T[t].n;) {
        int k = T[t].cur;
        if (!runnable(t)) { reschedule(); continue; }
        T[t].inop = 1;
        const char *kind = has_up_check(T[t].ops[k].kind) ? "comp" : T[t].ops[k].kind;
        if (!strcmp(kind, "finalize")) known = 0;
        trace(t, "call %s", kind);
        sync_point(1);
        run_op(t, k);
        up_event(t);
        uint64_t h = 1469598103934665603ull;
        for (int i = 0; i < RES[t][k].nm; i++) h = fnv(h, RES[t][k].m[i], RES[t][k].n * sizeof(double));
        if (!strcmp(kind, "comp")) trace(t, "ret comp %016llx", (unsigned long long)h);
        else trace(t, "ret %s %d", kind, RES[t][k].ret);
        if ((!strcmp(kind, "init") && is_up()) || (!strcmp(kind, "isinit") && RES[t][k].ret && is_up())) known = 1;
        T[t].inop = 0;
        T[t].cur++;
        sync_point(4);
        if (T[t].cur < T[t].n && !runnable(t)) reschedule();
    }
    T[t].done = 1;
    int n = choose();
    me = -1;
    hand_over(n);
    return NULL;
}
static call_t *CALLS;
static int conc_cmd(const char *op) {
    if (!CALLS) CALLS = ar_alloc(AR_OBJ, 256 * sizeof(call_t));
    if (!strcmp(op, "threads")) {          /* forget programs */
        nthr = ti(); nseg = 0;
        for (int t = 0; t < nthr; t++) {
            char *st = T[t].stack; memset(&T[t], 0, sizeof T[t]);
            if (!st) st = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            T[t].stack = st;
        }
        printf("R 0\n");
    } else if (!strcmp(op, "prog")) {      /* prog t init|finalize|isinit|@call */
        int t = ti(); op_t *o = &T[t].ops[T[t].n++];
        char k[32]; strcpy(k, tok());
        if (k[0] == '@') { o->call = &CALLS[atoi(k + 1)]; strncpy(o->kind, o->call->op, 15); printf("R 0\n"); return 1; }
        strncpy(o->kind, k, 15);
        printf("R 0\n");
    } else if (!strcmp(op, "call")) {      /* call id op arguments: a call threads can share */
        int id = ti(); char k[32]; strcpy(k, tok()); parse_call(&CALLS[id], k);
        printf("R 0\n");
    } else if (!strcmp(op, "sched")) {
        int n = ti(); for (nseg = 0; nseg < n; nseg++) { seg_t[nseg] = ti(); seg_n[nseg] = atol(tok()); }
        printf("R 0\n");
    } else if (!strcmp(op, "crun") || !strcmp(op, "race")) {
        free_running = !strcmp(op, "race");
        int mode = ti();                   /* 1: print matrices, 0: hashes */
        long lb = live_blocks, bf = bad_free;
        tr_len = 0; n_trace = 0; memset(lkey, 0, sizeof lkey); nloc = 0; for (int t = 0; t < MAXT; t++) stamp[t]++; nlock = 0; deadlock = 0; abandon = 0; turn = -1; seg = 0; seg_left = nseg ? seg_n[0] : 0; init_allocs = 0;
        known = last_up = is_up(); int up0 = last_up;
        sem_init(&finished, 0, 0);
        for (int t = 0; t < nthr; t++) {
            T[t].done = T[t].cur = T[t].inop = 0; T[t].lock = NULL; memset(T[t].events, 0, sizeof T[t].events);
            sem_init(&T[t].sem, 0, 0);
            pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, T[t].stack, STACK);
            pthread_create(&T[t].th, &at, worker, (void *)(intptr_t)t);
        }
        if (!free_running) {
            active = 1; turn = -1;
            int n = choose();
            if (n < 0) deadlock = 1;
            hand_over(n);
            sem_wait(&finished);
            active = 0;
        }
        int stuck = 0;
        if (!free_running) for (int t = 0; t < nthr; t++) if (!T[t].done) stuck = 1;
        int locked = 0;
        if (stuck) {           /* waiting for each other in a lock, or only for a library that nobody initializes */
            for (int t = 0; t < nthr; t++) if (!T[t].done && T[t].inop) locked = 1;
            if (!locked) { abandon = 1; for (int t = 0; t < nthr; t++) if (!T[t].done) sem_post(&T[t].sem); }
        }
        if (!locked) for (int t = 0; t < nthr; t++) pthread_join(T[t].th, NULL);
        abandon = 0;
        printf("U %d %d\n", up0, is_up());
        if (tr_len) fwrite(tr, 1, tr_len, stdout);
        for (int t = 0; t < nthr; t++) for (int k = 0; k < T[t].cur; k++) {
            res_t *r = &RES[t][k];
            printf("O %d %d %s %ld %d", t, k, T[t].ops[k].kind, T[t].events[k], r->ret);
            uint64_t h = 1469598103934665603ull;
            for (int i = 0; i < r->nm; i++) h = fnv(h, r->m[i], r->n * sizeof(double));
            printf(" %016llx\n", (unsigned long long)h);
            for (int i = 0; i < r->nm; i++) ar_release(AR_OUT + t, r->m[i]);
            r->nm = 0;
        }
        printf("H %ld %ld %ld %ld\n", live_blocks - lb, bad_free - bf, init_allocs, total_acc); total_acc = 0;
        if (stuck && !locked) printf("W\n");
        if (locked) { printf("D stuck\n.\n"); fflush(stdout); _Exit(4); }
        free_running = 0;
    } else return 0;
    return 1;
}
