// A small OpenMP runtime (the entry points gcc calls), for the monitors of
// concurrency: all its synchronisation is visible to the thread sanitizer, the
// number of threads is exact, and threads are delayed at random before every
// chunk of work and every synchronisation, so that schedules vary.
//   VF_OMP_SEED  seed of the delays (0: none)
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
#include <deque>
#include <vector>

namespace {

struct Work {
  long next, end, incr, chunk;
  bool single_taken;
  int sections;
  Work() : next(0), end(0), incr(1), chunk(1), single_taken(false), sections(0) {}
};

struct Team {
  int n;
  pthread_mutex_t mu;
  pthread_cond_t cond;
  int waiting;
  unsigned long gen;
  std::deque<Work> works;   // by their order within the region
  std::vector<bool> made;
  void (*fn)(void*);
  void* data;
  explicit Team(int n) : n(n), waiting(0), gen(0), fn(0), data(0) {
    pthread_mutex_init(&mu, 0);
    pthread_cond_init(&cond, 0);
  }
  ~Team() {
    pthread_mutex_destroy(&mu);
    pthread_cond_destroy(&cond);
  }
};

struct Me {
  Team* team;
  int tid;
  unsigned long ordinal;    // work sharing constructs met so far
  uint64_t rng;
};
__thread Me me = {0, 0, 0, 0};

int nthreads = 0;
unsigned long regions = 0, chunks = 0, delays = 0, stolen = 0;
uint64_t sched_hash = 1469598103934665603ull;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t named = PTHREAD_MUTEX_INITIALIZER;
uint64_t base_seed = 0;
bool seeded = false;

int max_threads() {
  if (nthreads <= 0) {
    const char* s = getenv("OMP_NUM_THREADS");
    nthreads = s ? atoi(s) : 0;
    if (nthreads <= 0) nthreads = sysconf(_SC_NPROCESSORS_ONLN);
    if (nthreads <= 0) nthreads = 1;
  }
  return nthreads;
}

void jitter() {
  if (!me.rng) return;
  me.rng ^= me.rng << 13; me.rng ^= me.rng >> 7; me.rng ^= me.rng << 17;
  unsigned r = (me.rng >> 20) & 1023;
  if (r < 200) { sched_yield(); __atomic_fetch_add(&delays, 1, __ATOMIC_RELAXED); }
  else if (r < 212) { usleep((me.rng >> 33) % 120); __atomic_fetch_add(&delays, 1, __ATOMIC_RELAXED); }
}

void barrier(Team* t) {
  jitter();
  pthread_mutex_lock(&t->mu);
  unsigned long g = t->gen;
  if (++t->waiting == t->n) {
    t->waiting = 0;
    ++t->gen;
    pthread_cond_broadcast(&t->cond);
  } else {
    while (t->gen == g) pthread_cond_wait(&t->cond, &t->mu);
  }
  pthread_mutex_unlock(&t->mu);
}

// the state of the work sharing construct which this thread meets next
Work& work(Team* t, unsigned long ord, bool& first) {
  first = false;
  while (t->works.size() <= ord) { t->works.push_back(Work()); t->made.push_back(false); }
  if (!t->made[ord]) { t->made[ord] = true; first = true; }
  return t->works[ord];
}

struct Start { Team* team; int tid; uint64_t rng; unsigned long ordinal; };

void* run(void* p) {
  Start* s = static_cast<Start*>(p);
  me.team = s->team;
  me.tid = s->tid;
  me.ordinal = s->ordinal;
  me.rng = s->rng;
  jitter();
  s->team->fn(s->team->data);
  return 0;
}

uint64_t seed_for(unsigned long region, int tid) {
  if (!seeded) {
    const char* s = getenv("VF_OMP_SEED");
    base_seed = s ? strtoull(s, 0, 10) : 1;
    seeded = true;
  }
  if (!base_seed) return 0;
  uint64_t x = base_seed * 0x9E3779B97F4A7C15ull + region * 0xBF58476D1CE4E5B9ull + tid * 0x94D049BB133111EBull;
  x ^= x >> 31;
  return x | 1;
}

void parallel(void (*fn)(void*), void* data, unsigned n, Work* preset) {
  if (n == 0) n = max_threads();
  if (me.team) n = 1;                    // nested regions are not parallel
  Me saved = me;
  Team t(n);
  t.fn = fn;
  t.data = data;
  if (preset) { t.works.push_back(*preset); t.made.push_back(true); }
  unsigned long r = ++regions;
  std::vector<pthread_t> ids(n);
  std::vector<Start> starts(n);
  for (unsigned i = 1; i < n; ++i) {
    starts[i].team = &t;
    starts[i].tid = i;
    starts[i].rng = seed_for(r, i);
    starts[i].ordinal = preset ? 1 : 0;
    if (pthread_create(&ids[i], 0, run, &starts[i])) abort();
  }
  me.team = &t;
  me.tid = 0;
  me.ordinal = preset ? 1 : 0;
  me.rng = n > 1 ? seed_for(r, 0) : 0;
  jitter();
  fn(data);
  for (unsigned i = 1; i < n; ++i) pthread_join(ids[i], 0);
  me = saved;
}

Team solo(1);

Team* team() { return me.team ? me.team : &solo; }

bool next_chunk(Team* t, unsigned long ord, long* is, long* ie) {
  jitter();
  pthread_mutex_lock(&t->mu);
  Work& w = t->works[ord];
  bool some = w.incr > 0 ? w.next < w.end : w.next > w.end;
  if (some) {
    long e = w.next + w.incr * w.chunk;
    if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
    *is = w.next;
    *ie = e;
    w.next = e;
    if (t->n > 1) {
      ++chunks;
      if (me.tid) ++stolen;
      sched_hash = (sched_hash ^ (me.tid + 1)) * 1099511628211ull;
    }
  }
  pthread_mutex_unlock(&t->mu);
  return some;
}

bool loop_start(long start, long end, long incr, long chunk, long* is, long* ie) {
  Team* t = team();
  unsigned long ord = me.ordinal++;
  pthread_mutex_lock(&t->mu);
  bool first;
  Work& w = work(t, ord, first);
  if (first) { w.next = start; w.end = end; w.incr = incr; w.chunk = chunk > 0 ? chunk : 1; }
  pthread_mutex_unlock(&t->mu);
  return next_chunk(t, ord, is, ie);
}

}  // namespace

extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, 0); }
void GOMP_barrier() { barrier(team()); }
bool GOMP_single_start() {
  Team* t = team();
  unsigned long ord = me.ordinal++;
  jitter();
  pthread_mutex_lock(&t->mu);
  bool first;
  work(t, ord, first);
  pthread_mutex_unlock(&t->mu);
  return first;
}
void GOMP_critical_start() { jitter(); pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); jitter(); }
void GOMP_critical_name_start(void**) { jitter(); pthread_mutex_lock(&named); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&named); jitter(); }
void GOMP_atomic_start() { pthread_mutex_lock(&crit); }
void GOMP_atomic_end() { pthread_mutex_unlock(&crit); }

#define LOOP(kind)                                                                                       \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* is, long* ie) {                    \
    return loop_start(s, e, i, c, is, ie);                                                               \
  }                                                                                                      \
  bool GOMP_loop_##kind##_next(long* is, long* ie) { return next_chunk(team(), me.ordinal - 1, is, ie); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long s, long e, long i,      \
                                 long c, unsigned) {                                                     \
    Work w;                                                                                              \
    w.next = s; w.end = e; w.incr = i; w.chunk = c > 0 ? c : 1;                                          \
    parallel(fn, data, n, &w);                                                                           \
  }
LOOP(dynamic)
LOOP(nonmonotonic_dynamic)
LOOP(guided)
LOOP(nonmonotonic_guided)
LOOP(static)
#undef LOOP
#define LOOPRT(kind)                                                                                     \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long* is, long* ie) {                            \
    return loop_start(s, e, i, 1, is, ie);                                                               \
  }                                                                                                      \
  bool GOMP_loop_##kind##_next(long* is, long* ie) { return next_chunk(team(), me.ordinal - 1, is, ie); }
LOOPRT(runtime)
LOOPRT(maybe_nonmonotonic_runtime)
#undef LOOPRT
void GOMP_loop_end() { barrier(team()); }
void GOMP_loop_end_nowait() { jitter(); }
unsigned GOMP_sections_start(unsigned n) {
  long a, b;
  return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? a : 0;
}
unsigned GOMP_sections_next() {
  long a, b;
  return next_chunk(team(), me.ordinal - 1, &a, &b) ? a : 0;
}
void GOMP_sections_end() { barrier(team()); }
void GOMP_sections_end_nowait() {}

int omp_get_thread_num() { return me.team ? me.tid : 0; }
int omp_get_num_threads() { return me.team ? me.team->n : 1; }
int omp_get_max_threads() { return max_threads(); }
void omp_set_num_threads(int n) { if (n > 0) nthreads = n; }
int omp_get_num_procs() { long n = sysconf(_SC_NPROCESSORS_ONLN); return n < 2 ? 2 : n; }  // the parallel code is always taken
int omp_in_parallel() { return me.team && me.team->n > 1; }
int omp_get_thread_limit() { return 0x7fffffff; }
double omp_get_wtime() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}

// what the monitors record
unsigned long vf_omp_regions() { return regions; }
unsigned long vf_omp_chunks() { return chunks; }
unsigned long vf_omp_stolen() { return stolen; }
unsigned long vf_omp_delays() { return __atomic_load_n(&delays, __ATOMIC_RELAXED); }
unsigned long long vf_omp_schedule() { return sched_hash; }
void vf_omp_seed(unsigned long long s) { base_seed = s; seeded = true; sched_hash = 1469598103934665603ull; }

}  // extern "C"
