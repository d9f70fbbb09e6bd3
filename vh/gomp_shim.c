/* Stand-in for the parts of libgomp that gcc's code uses, built on pthreads only, so that the
   thread sanitizer sees every synchronisation (libgomp's futex barriers are invisible to it).
   Threads start in a seeded random order with seeded delays; calls are counted. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef struct team {
  int n;
  pthread_barrier_t bar;
  pthread_mutex_t lock;
  long next, end, incr, chunk;
  bool up, ready;
  int done, single_gen;
} team_t;
typedef struct { team_t *t; int id; void (*fn)(void *); void *data; unsigned delay;
                 int single_seen; } task_t;

static __thread task_t *me;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
static int max_threads = 4;
static uint64_t state = 88172645463325252ull;
static long n_regions, n_threads, n_barriers, n_chunks;

static unsigned rnd(unsigned n) {
  state ^= state << 13; state ^= state >> 7; state ^= state << 17;
  return n ? (unsigned)((state >> 11) % n) : 0;
}
void vh_seed(uint64_t s) { state = s * 2862933555777941757ull + 3037000493ull; if (!state) state = 1; }
void vh_counts(long *o) { o[0] = n_regions; o[1] = n_threads; o[2] = n_barriers; o[3] = n_chunks; }
int vh_present(void) { return 1; }

static void body(task_t *k) {
  task_t *old = me;
  me = k;
  if (k->delay) usleep(k->delay);
  k->fn(k->data);
  me = old;
}
static void *run(void *p) { body(p); return NULL; }

static team_t *new_team(unsigned n) {
  team_t *t = calloc(1, sizeof *t);
  t->n = (int)n;
  pthread_barrier_init(&t->bar, NULL, n);
  pthread_mutex_init(&t->lock, NULL);
  return t;
}
static void go(team_t *t, void (*fn)(void *), void *data) {
  unsigned n = (unsigned)t->n;
  task_t *k = calloc(n, sizeof *k);
  pthread_t *h = calloc(n, sizeof *h);
  unsigned *order = calloc(n, sizeof *order);
  for (unsigned i = 0; i < n; i++) {
    k[i] = (task_t){t, (int)i, fn, data, rnd(3) ? 0 : 1 + rnd(200), 0};
    order[i] = i;
  }
  for (unsigned i = n; i > 1; i--) {
    unsigned j = rnd(i), x = order[i - 1];
    order[i - 1] = order[j];
    order[j] = x;
  }
  __atomic_fetch_add(&n_regions, 1, __ATOMIC_RELAXED);
  __atomic_fetch_add(&n_threads, n, __ATOMIC_RELAXED);
  for (unsigned i = 0; i < n; i++)
    if (order[i]) pthread_create(&h[order[i]], NULL, run, &k[order[i]]);
  body(&k[0]);
  for (unsigned i = 1; i < n; i++) pthread_join(h[i], NULL);
  pthread_barrier_destroy(&t->bar);
  pthread_mutex_destroy(&t->lock);
  free(order); free(h); free(k); free(t);
}

static unsigned want(unsigned n) { return me ? 1 : n ? n : (unsigned)max_threads; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  (void)flags;
  go(new_team(want(n)), fn, data);
}
void GOMP_barrier(void) {
  __atomic_fetch_add(&n_barriers, 1, __ATOMIC_RELAXED);
  if (me) pthread_barrier_wait(&me->t->bar);
}
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }

/* dynamic worksharing */
static bool chunk(long *a, long *b) {
  team_t *t = me->t;
  bool got = false;
  pthread_mutex_lock(&t->lock);
  if (t->incr > 0 ? t->next < t->end : t->next > t->end) {
    *a = t->next;
    long e = t->next + t->chunk * t->incr;
    if (t->incr > 0 ? e > t->end : e < t->end) e = t->end;
    *b = e;
    t->next = e;
    got = true;
    n_chunks++;
  }
  pthread_mutex_unlock(&t->lock);
  return got;
}
static void setup(team_t *t, long s, long e, long i, long c) {
  t->next = s; t->end = e; t->incr = i; t->chunk = c > 0 ? c : 1; t->ready = true; t->done = 0;
}
static task_t solo;
static team_t solo_team;
static void ensure(void) {
  if (!me) { solo_team.n = 1; pthread_mutex_init(&solo_team.lock, NULL);
             pthread_barrier_init(&solo_team.bar, NULL, 1); solo.t = &solo_team; me = &solo; }
}
static bool start(long s, long e, long i, long c, long *a, long *b) {
  ensure();
  pthread_mutex_lock(&me->t->lock);
  if (!me->t->ready) setup(me->t, s, e, i, c);
  pthread_mutex_unlock(&me->t->lock);
  return chunk(a, b);
}
#define LOOP(kind)                                                                            \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) {           \
    return start(s, e, i, c, a, b); }                                                         \
  bool GOMP_loop_##kind##_next(long *a, long *b) { return chunk(a, b); }                      \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e,  \
                                 long i, long c, unsigned flags) {                            \
    (void)flags; team_t *t = new_team(want(n)); setup(t, s, e, i, c); go(t, fn, data); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(kind)                                                                           \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) {                   \
    return start(s, e, i, 1, a, b); }                                                         \
  bool GOMP_loop_##kind##_next(long *a, long *b) { return chunk(a, b); }                      \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e,  \
                                 long i, unsigned flags) {                                    \
    (void)flags; team_t *t = new_team(want(n)); setup(t, s, e, i, 1); go(t, fn, data); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait(void) {
  pthread_mutex_lock(&me->t->lock);
  if (++me->t->done == me->t->n) me->t->ready = false;
  pthread_mutex_unlock(&me->t->lock);
}
void GOMP_loop_end(void) { GOMP_loop_end_nowait(); GOMP_barrier(); }
bool GOMP_single_start(void) {
  ensure();
  bool mine = false;
  pthread_mutex_lock(&me->t->lock);
  if (me->single_seen == me->t->single_gen) { me->t->single_gen++; mine = true; }
  me->single_seen++;
  pthread_mutex_unlock(&me->t->lock);
  return mine;
}

int omp_get_thread_num(void) { return me ? me->id : 0; }
int omp_get_num_threads(void) { return me ? me->t->n : 1; }
int omp_get_max_threads(void) { return max_threads; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return me != NULL; }
int omp_get_level(void) { return me != NULL; }
void omp_set_num_threads(int n) { if (n > 0) max_threads = n; }
void omp_set_dynamic(int n) { (void)n; }
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int n) { (void)n; }
