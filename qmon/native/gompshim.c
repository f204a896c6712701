/* OpenMP run-time for the thread sanitizer: every team is made of fresh pthreads that are joined at the end, so that
 * the sanitizer sees all synchronisation there is.  Threads start in a random order after random delays, and the order
 * in which they finish is remembered. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdbool.h>
#include <string.h>
#include <time.h>
#include <stdint.h>

#define MAXT 64

struct team {
    int n;
    void (*fn)(void *);
    void *data;
    pthread_barrier_t bar;
    pthread_mutex_t lock;
    long next, end, incr, chunk;     /* dynamic loops */
    int loops, arrived;
    int single;
    int finished;
    int order[MAXT];
};

struct self { struct team *t; int id; int singles; int delay; };

static __thread struct self *me;
static int nthreads = 4;
static unsigned long long rng = 88172645463325252ULL;
static int delay_max = 30;           /* microseconds */
static long regions, big_regions;
static uint64_t last_order;
static pthread_mutex_t glock = PTHREAD_MUTEX_INITIALIZER;

static unsigned rnd(void)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return (unsigned)(rng >> 20);
}

void qmon_seed(unsigned long long s, int d) { rng = s*2654435761ULL + 88172645463325252ULL; delay_max = d; }
long qmon_regions(void) { return regions; }
long qmon_big_regions(void) { return big_regions; }
uint64_t qmon_last_order(void) { return last_order; }
int qmon_shim(void) { return 1; }

void omp_set_num_threads(int n) { nthreads = n < 1 ? 1 : (n > MAXT ? MAXT : n); }
int omp_get_max_threads(void) { return me ? 1 : nthreads; }
int omp_get_num_threads(void) { return me ? me->t->n : 1; }
int omp_get_thread_num(void) { return me ? me->id : 0; }
int omp_in_parallel(void) { return me != NULL; }
int omp_get_num_procs(void) { return 8; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_dynamic(int x) { (void)x; }
int omp_get_dynamic(void) { return 0; }
double omp_get_wtime(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9*t.tv_nsec;
}
int omp_get_level(void) { return me != NULL; }

static void *body(void *p)
{
    struct self *s = p;
    struct timespec ts = {0, s->delay*1000L};
    me = s;
    if (s->delay)
        nanosleep(&ts, NULL);
    s->t->fn(s->t->data);
    {
        int k = __atomic_fetch_add(&s->t->finished, 1, __ATOMIC_RELAXED);
        __atomic_store_n(&s->t->order[k], s->id, __ATOMIC_RELAXED);
    }
    me = NULL;
    return NULL;
}

static void run(void (*fn)(void *), void *data, unsigned num, long start, long end, long incr, long chunk)
{
    struct team t;
    struct self s[MAXT];
    pthread_t th[MAXT];
    int i, n, perm[MAXT];
    struct self *outer = me;
    memset(&t, 0, sizeof t);
    n = num ? (int)num : nthreads;
    if (n > MAXT) n = MAXT;
    if (outer) n = 1;
    t.n = n; t.fn = fn; t.data = data;
    t.next = start; t.end = end; t.incr = incr ? incr : 1; t.chunk = chunk > 0 ? chunk : 1;
    pthread_barrier_init(&t.bar, NULL, n);
    pthread_mutex_init(&t.lock, NULL);
    for (i = 0; i < n; i++) {
        s[i].t = &t; s[i].id = i; s[i].singles = 0;
        s[i].delay = delay_max ? (int)(rnd() % (unsigned)delay_max) : 0;
        perm[i] = i;
    }
    for (i = n - 1; i > 0; i--) {
        int j = rnd() % (i + 1), x = perm[i];
        perm[i] = perm[j]; perm[j] = x;
    }
    regions++;
    if (n > 1) {
        big_regions++;
        for (i = 0; i < n; i++)
            if (pthread_create(&th[i], NULL, body, &s[perm[i]])) abort();
        for (i = 0; i < n; i++)
            pthread_join(th[i], NULL);
    } else
        body(&s[0]);
    me = outer;
    last_order = 0;
    for (i = 0; i < n && i < 16; i++)
        last_order = last_order*17 + (uint64_t)t.order[i] + 1;
    pthread_mutex_destroy(&t.lock);
    pthread_barrier_destroy(&t.bar);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags)
{
    (void)flags;
    run(fn, data, num, 0, 0, 1, 1);
}

void GOMP_barrier(void)
{
    if (me && me->t->n > 1) pthread_barrier_wait(&me->t->bar);
}

void GOMP_critical_start(void) { pthread_mutex_lock(&glock); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&glock); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&glock); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&glock); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&glock); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&glock); }

bool GOMP_single_start(void)
{
    bool r = false;
    if (!me) return true;
    me->singles++;
    pthread_mutex_lock(&me->t->lock);
    if (me->t->single < me->singles) { me->t->single = me->singles; r = true; }
    pthread_mutex_unlock(&me->t->lock);
    return r;
}

/* loops with dynamic schedules (guided and runtime ones are treated the same way) */
static bool next_chunk(long *a, long *b)
{
    struct team *t = me->t;
    bool r = false;
    pthread_mutex_lock(&t->lock);
    if (t->incr > 0 ? t->next < t->end : t->next > t->end) {
        *a = t->next;
        *b = t->next + t->chunk*t->incr;
        if (t->incr > 0 ? *b > t->end : *b < t->end) *b = t->end;
        t->next = *b;
        r = true;
    }
    pthread_mutex_unlock(&t->lock);
    return r;
}

static bool loop_start(long start, long end, long incr, long chunk, long *a, long *b)
{
    if (!me) { *a = start; *b = end; return incr > 0 ? start < end : start > end; }
    pthread_mutex_lock(&me->t->lock);
    if (me->t->arrived == 0) {
        me->t->next = start; me->t->end = end; me->t->incr = incr; me->t->chunk = chunk > 0 ? chunk : 1;
    }
    me->t->arrived = (me->t->arrived + 1) % me->t->n;
    pthread_mutex_unlock(&me->t->lock);
    return next_chunk(a, b);
}

static bool loop_next(long *a, long *b) { return me ? next_chunk(a, b) : false; }

#define LOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { return loop_next(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) \
{ (void)f; run(fn, d, n, s, e, i, c); }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)

#define LOOPR(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { return loop_next(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) \
{ (void)f; run(fn, d, n, s, e, i, 1); }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)

void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }
