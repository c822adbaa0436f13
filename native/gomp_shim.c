/* A small OpenMP runtime of our own (the entry points gcc calls), used instead of libgomp.

   - with ThreadSanitizer: every thread of a team is a pthread created and joined here, so the
     sanitizer sees exactly the synchronisation OpenMP promises and nothing else;
   - without it: the order in which the members of a team run is chosen by us.  COFFE_SHIM_MODE:
       free      all members at once (the default)
       serial    one after the other, in a random permutation
       delay     all at once, each starting and yielding at random times
     COFFE_SHIM_SEED seeds it, and COFFE_SHIM_LOG names a file to which one line per region is
     appended: address of the region relative to the module, threads, order. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#define MAXT 64

struct team {
    void (*fn)(void *);
    void *data;
    unsigned n;
    /* work sharing */
    pthread_mutex_t lock;
    pthread_cond_t cond;
    unsigned arrived, generation;
    long next, end, incr, chunk;
    unsigned long loops_done[MAXT], loops_started;
    unsigned long singles_seen[MAXT], singles_done;
};

struct member {
    struct team *team;
    unsigned id;
    unsigned delay;
};

static __thread struct team *my_team = NULL;
static __thread unsigned my_id = 0;
static __thread int my_level = 0;
static __thread int my_requested = 0;
static int requested = 0; /* omp_set_num_threads outside of regions */
static uint64_t rng = 0;
static pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t named = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t atomics = PTHREAD_MUTEX_INITIALIZER;

static const char *mode(void)
{
    const char *m = getenv("COFFE_SHIM_MODE");
    return m ? m : "free";
}

static uint64_t draw(void)
{
    if (!rng){
        const char *s = getenv("COFFE_SHIM_SEED");
        rng = 0x9E3779B97F4A7C15ull * (1 + (s ? strtoull(s, NULL, 10) : 0));
    }
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng;
}

int omp_get_max_threads(void)
{
    const char *s = getenv("OMP_NUM_THREADS");
    int n = requested ? requested : s ? atoi(s) : 1;
    return n < 1 ? 1 : n > MAXT ? MAXT : n;
}

int omp_get_thread_num(void) { return my_team ? (int)my_id : 0; }
int omp_get_num_threads(void) { return my_team ? (int)my_team->n : 1; }
int omp_in_parallel(void) { return my_level > 0; }
int omp_get_level(void) { return my_level; }
int omp_get_num_procs(void) { return 8; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_num_threads(int n) { requested = n; }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }
double omp_get_wtime(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
typedef pthread_mutex_t *shim_lock_t;
void omp_init_lock(shim_lock_t *l) { *l = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(*l, NULL); }
void omp_destroy_lock(shim_lock_t *l) { pthread_mutex_destroy(*l); free(*l); }
void omp_set_lock(shim_lock_t *l) { pthread_mutex_lock(*l); }
void omp_unset_lock(shim_lock_t *l) { pthread_mutex_unlock(*l); }
int omp_test_lock(shim_lock_t *l) { return !pthread_mutex_trylock(*l); }

static void *member_main(void *p)
{
    struct member *m = p;
    my_team = m->team;
    my_id = m->id;
    my_level = 1;
    if (m->delay){
        struct timespec t = {0, 1000L * m->delay};
        nanosleep(&t, NULL);
    }
    m->team->fn(m->team->data);
    my_team = NULL;
    my_level = 0;
    return NULL;
}

static void note(void (*fn)(void *), unsigned n, const char *what, const unsigned *order)
{
    const char *path = getenv("COFFE_SHIM_LOG");
    if (!path)
        return;
    Dl_info info;
    uintptr_t at = (uintptr_t)fn;
    if (dladdr((void *)fn, &info) && info.dli_fbase)
        at -= (uintptr_t)info.dli_fbase;
    FILE *f = fopen(path, "a");
    if (!f)
        return;
    fprintf(f, "%lx %u %s", (unsigned long)at, n, what);
    for (unsigned i = 0; order && i < n; ++i)
        fprintf(f, " %u", order[i]);
    fputc('\n', f);
    fclose(f);
}

static void team_init(struct team *t, void (*fn)(void *), void *data, unsigned n)
{
    memset(t, 0, sizeof *t);
    t->fn = fn;
    t->data = data;
    t->n = n;
    pthread_mutex_init(&t->lock, NULL);
    pthread_cond_init(&t->cond, NULL);
}

static void team_run(struct team *t)
{
    if (my_level > 0){
        /* nested regions have one thread, as in libgomp by default */
        struct team *old_team = my_team;
        unsigned old_id = my_id;
        my_team = t;
        my_id = 0;
        ++my_level;
        t->fn(t->data);
        --my_level;
        my_team = old_team;
        my_id = old_id;
        return;
    }
    unsigned order[MAXT];
    struct member m[MAXT];
    pthread_t th[MAXT];
    const char *how = mode();
    for (unsigned i = 0; i < t->n; ++i)
        order[i] = i;
    if (strcmp(how, "free"))
        for (unsigned i = t->n - 1; i > 0; --i){
            unsigned j = draw() % (i + 1), x = order[i];
            order[i] = order[j];
            order[j] = x;
        }
    note(t->fn, t->n, how, order);
    for (unsigned i = 0; i < t->n; ++i){
        m[i].team = t;
        m[i].id = order[i];
        m[i].delay = strcmp(how, "delay") ? 0 : draw() % 2000;
        if (pthread_create(&th[i], NULL, member_main, &m[i])){
            fputs("gomp_shim: cannot create a thread\n", stderr);
            abort();
        }
        if (!strcmp(how, "serial"))
            pthread_join(th[i], NULL);
    }
    if (strcmp(how, "serial"))
        for (unsigned i = 0; i < t->n; ++i)
            pthread_join(th[i], NULL);
    pthread_mutex_destroy(&t->lock);
    pthread_cond_destroy(&t->cond);
}

static unsigned size_of_team(unsigned n)
{
    if (my_level > 0)
        return 1;
    if (n == 0)
        n = omp_get_max_threads();
    return n > MAXT ? MAXT : n;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
{
    struct team t;
    (void)flags;
    team_init(&t, fn, data, size_of_team(n));
    team_run(&t);
}

/* -- loops whose iterations are handed out at run time: always in pieces of `chunk' -- */

static void loop_set(struct team *t, long start, long end, long incr, long chunk)
{
    t->next = start;
    t->end = end;
    t->incr = incr;
    t->chunk = chunk > 0 ? chunk : 1;
}

static bool loop_next(long *istart, long *iend)
{
    struct team *t = my_team;
    bool some = false;
    if (!strcmp(mode(), "delay"))
        sched_yield();
    pthread_mutex_lock(&t->lock);
    if (t->incr > 0 ? t->next < t->end : t->next > t->end){
        long stop = t->next + t->chunk * t->incr;
        if (t->incr > 0 ? stop > t->end : stop < t->end)
            stop = t->end;
        *istart = t->next;
        *iend = stop;
        t->next = stop;
        some = true;
    }
    pthread_mutex_unlock(&t->lock);
    return some;
}

static void barrier(void)
{
    struct team *t = my_team;
    if (!t || t->n == 1)
        return;
    if (!strcmp(mode(), "serial")){
        fputs("gomp_shim: barriers cannot be serialized\n", stderr);
        abort();
    }
    pthread_mutex_lock(&t->lock);
    unsigned g = t->generation;
    if (++t->arrived == t->n){
        t->arrived = 0;
        ++t->generation;
        pthread_cond_broadcast(&t->cond);
    }
    else
        while (g == t->generation)
            pthread_cond_wait(&t->cond, &t->lock);
    pthread_mutex_unlock(&t->lock);
}

static bool loop_start(long start, long end, long incr, long chunk, long *istart, long *iend)
{
    static struct team alone;
    if (!my_team){
        *istart = start;
        *iend = end;
        (void)alone;
        return incr > 0 ? start < end : start > end;
    }
    struct team *t = my_team;
    pthread_mutex_lock(&t->lock);
    if (t->loops_done[my_id]++ == t->loops_started){
        ++t->loops_started;
        loop_set(t, start, end, incr, chunk);
    }
    pthread_mutex_unlock(&t->lock);
    return loop_next(istart, iend);
}

static bool next_or_none(long *a, long *b) { return my_team ? loop_next(a, b) : false; }

#define LOOP(name) \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long start, long end, long incr, long chunk, unsigned flags) \
    { struct team t; (void)flags; team_init(&t, fn, data, size_of_team(n)); loop_set(&t, start, end, incr, chunk); \
      for (unsigned i = 0; i < MAXT; ++i) t.loops_done[i] = 1; t.loops_started = 1; team_run(&t); } \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { return next_or_none(a, b); }
#define LOOP_RUNTIME(name) \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long start, long end, long incr, unsigned flags) \
    { struct team t; (void)flags; team_init(&t, fn, data, size_of_team(n)); loop_set(&t, start, end, incr, 1); \
      for (unsigned i = 0; i < MAXT; ++i) t.loops_done[i] = 1; t.loops_started = 1; team_run(&t); } \
    bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { return next_or_none(a, b); }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
LOOP_RUNTIME(runtime)
LOOP_RUNTIME(nonmonotonic_runtime)
LOOP_RUNTIME(maybe_nonmonotonic_runtime)

void GOMP_barrier(void) { barrier(); }
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) { }
bool GOMP_single_start(void)
{
    struct team *t = my_team;
    if (!t)
        return true;
    pthread_mutex_lock(&t->lock);
    bool mine = t->singles_seen[my_id]++ == t->singles_done;
    if (mine)
        ++t->singles_done;
    pthread_mutex_unlock(&t->lock);
    return mine;
}
void GOMP_critical_start(void) { pthread_mutex_lock(&critical); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&critical); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&named); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&named); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atomics); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atomics); }
