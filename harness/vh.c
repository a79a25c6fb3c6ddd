// Native implementation of the engine intrinsics: values come from the replay file named by VH_REPLAY,
// one number per line in the order in which they are asked for; zero once it is exhausted.
#define _GNU_SOURCE
#define syscall libc_syscall
#include <unistd.h>
#undef syscall
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *in; static int opened;
static int trace;
static uint64_t next(const char *l, size_t n) {
    if (!opened) { opened = 1; const char *p = getenv("VH_REPLAY"); if (p) in = fopen(p, "r"); trace = getenv("VH_TRACE") != 0; }
    if (trace) { printf("VH-ASK %.*s\n", (int)n, l); fflush(stdout); }
    uint64_t v = 0;
    if (in && fscanf(in, "%lu", &v) != 1) v = 0;
    return v;
}
uint64_t vh_sym(uint32_t bits, const char *l, size_t n) {
    uint64_t v = next(l, n);
    if (bits < 64) v &= ((uint64_t)1 << bits) - 1;
    return v;
}
uint32_t vh_choice(uint32_t k, const char *l, size_t n) { uint64_t v = next(l, n); return v < k ? (uint32_t)v : 0; }
void vh_assume(uint32_t c) { if (!c) { printf("VH-ASSUME\n"); fflush(stdout); _Exit(0); } }
void vh_check(uint32_t c, const char *l, size_t n) {
    if (!c) { printf("VH-FAIL %.*s\n", (int)n, l); fflush(stdout); _Exit(101); }
}
void vh_cover(const char *l, size_t n) { printf("VH-COVER %.*s\n", (int)n, l); }
void vh_log(const char *l, size_t n, uint64_t v) { printf("VH-LOG %.*s %lu\n", (int)n, l, v); }
uint64_t vh_concrete(uint64_t v) { return v; }
uint32_t vh_is_symbolic(uint64_t v) { return 0; }
// The randomness the engine gives out (hash seeds, identifiers), so that native runs follow the same path.
#include <sys/types.h>
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    static uint64_t x = 1; (void)flags;
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = x >> 56; }
    return (ssize_t)n;
}
// ... and its clock.
#include <time.h>
#include <errno.h>
static uint64_t now = 0;
static int64_t live;
uint64_t vh_live(void) { return __atomic_load_n(&live, __ATOMIC_SEQ_CST); }
#define LIVE(p, n) __atomic_fetch_add(&live, (p) ? (n) : 0, __ATOMIC_SEQ_CST)
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t), __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); LIVE(p, 1); return p; }
void *calloc(size_t k, size_t n) { void *p = __libc_calloc(k, n); LIVE(p, 1); return p; }
void *realloc(void *o, size_t n) { void *p = __libc_realloc(o, n); LIVE(p, o ? 0 : 1); return p; }
void free(void *p) { LIVE(p, -1); __libc_free(p); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = __libc_memalign(a, n); if (!p) return ENOMEM; LIVE(p, 1); *r = p; return 0; }
void vh_advance(uint64_t ns) { now += ns; }
int clock_gettime(clockid_t c, struct timespec *t) {
    (void)c;
    now += 1000;
    t->tv_sec = 1000000 + now / 1000000000; t->tv_nsec = now % 1000000000;
    return 0;
}
// ... and its number of processors, and files.
#include <errno.h>
#include <dlfcn.h>
#include <sched.h>
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) { (void)pid; (void)n; (void)set; errno = ENOSYS; return -1; }
long sysconf(int n) {
    if (n == _SC_NPROCESSORS_ONLN) return 4;
    long (*real)(int) = (void *)dlsym(RTLD_NEXT, "sysconf");
    return real(n);
}
int open64(const char *p, int f, ...) { (void)p; (void)f; errno = ENOENT; return -1; }
// Threads under the schedule of a path: one thread runs at a time, and which one goes on is read from the replay file
// wherever the engine decided it (VH_PREEMPT is its bound on preemptions). The executable used for this has a call of
// vh_sched before every atomic operation; without VH_PREEMPT, threads just run.
#include <pthread.h>
#include <sys/syscall.h>
enum { RUN, FUTEX, JOIN, DONE };
#define MAX 16
static struct { int status, woken, timed, join, region, ret; long addr; pthread_t id; pthread_cond_t go; void *(*f)(void *); void *arg; } T[MAX];
static int threads = 1, cur, preempt = -2;
static __thread int me;
static pthread_mutex_t baton = PTHREAD_MUTEX_INITIALIZER;
static pthread_key_t at_exit;
static int scheduled(void) {
    if (preempt == -2) { const char *p = getenv("VH_PREEMPT"); preempt = p ? atoi(p) : -1; if (p) pthread_mutex_lock(&baton); }
    return preempt != -1;
}
static int can_run(int i) { return T[i].status == RUN || (T[i].status == FUTEX && T[i].woken) || (T[i].status == JOIN && T[T[i].join].status == DONE); }
static void hand_over(int n) {
    int self = me;
    cur = n;
    if (n == self) return;
    pthread_cond_signal(&T[n].go);
    if (T[self].status == DONE) { pthread_mutex_unlock(&baton); return; }
    while (cur != self) pthread_cond_wait(&T[self].go, &baton);
}
static void go_on(int forced) {
    int run[MAX], n = 0, m = 0;
    for (int i = 0; i < threads; i++) if (can_run(i)) n++;
    if (!forced && can_run(cur)) run[m++] = cur;
    for (int i = 0; i < threads; i++) {
        if (n == 0 ? !(T[i].status == FUTEX && T[i].timed) : !can_run(i)) continue;
        if (i == cur && (!forced || (n > 1 && T[i].status == RUN))) continue;
        run[m++] = i;
    }
    if (m == 0) { printf("VH-DEADLOCK\n"); fflush(stdout); _Exit(102); }
    uint64_t k = m == 1 ? 0 : next("sched", 5);
    int to = run[k < (uint64_t)m ? k : 0];
    if (to != cur && !forced) preempt--;
    if (T[to].status == FUTEX) T[to].ret = T[to].woken ? 0 : -1;
    if (T[to].status != DONE) T[to].status = RUN;
    hand_over(to);
}
void vh_region(uint32_t on) { if (scheduled()) T[me].region = on; }
void vh_sched(void) {
    if (!scheduled() || preempt <= 0 || !T[me].region || threads < 2) return;
    int n = 0;
    for (int i = 0; i < threads; i++) n += can_run(i);
    if (n > 1) go_on(0);
}
static void yield(void) {
    if (threads < 2) return;
    int n = 0;
    for (int i = 0; i < threads; i++) n += can_run(i);
    if (n > 1) go_on(1);
}
void vh_pause(void) { if (scheduled()) yield(); }
int sched_yield(void) { if (scheduled()) yield(); return 0; }
static void ended(void *p) { T[me].status = DONE; go_on(1); }
static void *start(void *p) {
    me = (int)(long)p;
    pthread_mutex_lock(&baton);
    while (cur != me) pthread_cond_wait(&T[me].go, &baton);
    pthread_setspecific(at_exit, p);
    return T[me].f(T[me].arg);
}
int pthread_create(pthread_t *id, const pthread_attr_t *attr, void *(*f)(void *), void *arg) {
    int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = (void *)dlsym(RTLD_NEXT, "pthread_create");
    if (!scheduled()) return real(id, attr, f, arg);
    if (threads == 1) pthread_key_create(&at_exit, ended);
    int n = threads++;
    if (n >= MAX) abort();
    pthread_cond_init(&T[n].go, 0);
    T[n].f = f; T[n].arg = arg;
    int r = real(id, 0, start, (void *)(long)n);
    T[n].id = *id;
    return r;
}
int pthread_join(pthread_t id, void **ret) {
    int (*real)(pthread_t, void **) = (void *)dlsym(RTLD_NEXT, "pthread_join");
    if (scheduled()) for (int i = 1; i < threads; i++) if (pthread_equal(T[i].id, id) && T[i].status != DONE) { T[me].status = JOIN; T[me].join = i; go_on(1); }
    return real(id, ret);
}
// System calls made directly.
long syscall(long n, long a, long b, long c, long d, long e, long f) {
    if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
    if (n == SYS_futex && scheduled()) {
        int op = b & 0x7f;
        if (op == 0 || op == 9) {
            if (*(volatile uint32_t *)a != (uint32_t)c) { errno = EAGAIN; return -1; }
            T[me].status = FUTEX; T[me].woken = 0; T[me].timed = d != 0; T[me].addr = a;
            go_on(1);
            if (T[me].ret) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == 1 || op == 10) {
            long k = 0;
            for (int i = 0; i < threads && k < (long)(uint32_t)c; i++) if (T[i].status == FUTEX && T[i].addr == a && !T[i].woken) { T[i].woken = 1; k++; }
            return k;
        }
        abort();
    }
    long r;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
