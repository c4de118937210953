// A small OpenMP runtime for the checks: it interposes on libgomp (LD_PRELOAD) so that
//  - every synchronisation that OpenMP promises is made of pthread calls that ThreadSanitizer sees,
//    and nothing more (work is handed out with raw atomics that it does not see);
//  - the number of threads, the order in which iterations are handed out and the delays between
//    them are drawn from VERIF_GOMP_SEED;
//  - each parallel region appends one line to VERIF_GOMP_LOG: threads, iterations, who ran what.
// This file is compiled WITHOUT -fsanitize=thread.
#include <pthread.h>
#include <fcntl.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <string>
#include <vector>

namespace {

unsigned long long seed0() { const char* s = getenv("VERIF_GOMP_SEED"); return s ? strtoull(s, 0, 10) : 0; }
int env_threads() { const char* s = getenv("VERIF_GOMP_THREADS"); if (!s) s = getenv("OMP_NUM_THREADS"); int n = s ? atoi(s) : 2; return n > 0 ? n : 1; }

struct Rng {
  unsigned long long s;
  unsigned next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33); }
};

struct Team {
  int n;
  int arrived;
  pthread_barrier_t bar;
  // the current work sharing construct
  std::vector<long> order;      // first iteration of each chunk
  long start, end, incr, chunk;
  int ready;                    // number of loops set up so far
  long next;                    // next chunk
  int spin;
  std::vector<std::pair<int, long> > log;
  unsigned long long seed;
};

__thread Team* team = 0;
__thread int tid = 0;
__thread int loops = 0;        // loops this thread has entered in the current region
__thread Rng rng = {1};
int wanted = 0;
int regions = 0;
pthread_mutex_t unnamed = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t atomic_lock = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t named[256];      // all zero: initialised
void** name_of[256];

void spin_lock(int* l) { while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
void spin_unlock(int* l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }

void jitter() {
  if (!seed0()) return;
  unsigned k = rng.next() % 8;
  if (k < 3) return;
  if (k < 6) { for (unsigned i = rng.next() % 4; i; --i) sched_yield(); return; }
  usleep(rng.next() % (k == 6 ? 60 : 400));
}

struct Job { void (*fn)(void*); void* data; Team* t; int id; };

void enter(Team* t, int id) {
  team = t; tid = id; loops = 0;
  rng.s = t->seed * 7919 + id * 104729 + 17;
  rng.next();
}

// Mostly, let no thread start before all of them can: short work is then really shared out.
void gather() {
  Team* t = team;
  __atomic_add_fetch(&t->arrived, 1, __ATOMIC_RELAXED);
  if (t->seed % 4 == 3) return;
  for (int i = 0; i < 20000 && __atomic_load_n(&t->arrived, __ATOMIC_RELAXED) < t->n; ++i) sched_yield();
}

void* worker(void* p) {
  Job* j = (Job*)p;
  enter(j->t, j->id);
  gather();
  jitter();
  j->fn(j->data);
  return 0;
}

void report(Team* t) {
  const char* f = getenv("VERIF_GOMP_LOG");
  if (!f) return;
  char b[64];
  std::string s;
  snprintf(b, sizeof b, "%d %zu", t->n, t->order.size());
  s = b;
  unsigned long long h = 1469598103934665603ULL;
  int shown = 0;
  std::vector<int> used(t->n, 0);
  for (size_t i = 0; i < t->log.size(); ++i) {
    h = (h ^ (unsigned long long)(t->log[i].first * 1000003 + t->log[i].second)) * 1099511628211ULL;
    used[t->log[i].first]++;
    if (shown++ < 40) { snprintf(b, sizeof b, " %d:%ld", t->log[i].first, t->log[i].second); s += b; }
  }
  int busy = 0;
  for (int i = 0; i < t->n; ++i) busy += used[i] > 0;
  snprintf(b, sizeof b, " | %llx %d\n", h, busy);
  s += b;
  int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { if (write(fd, s.data(), s.size())) {} close(fd); }
}

void run(void (*fn)(void*), void* data, unsigned n) {
  if (team) { Team* t = team; int id = tid, l = loops; Team one; one.n = 1; one.spin = 0; one.ready = 0; one.seed = 1; one.next = 0;
    pthread_barrier_init(&one.bar, 0, 1); team = &one; tid = 0; loops = 0; fn(data); team = t; tid = id; loops = l; pthread_barrier_destroy(&one.bar); return; }
  Team t;
  t.n = n ? (int)n : (wanted ? wanted : env_threads());
  if (getenv("VERIF_GOMP_THREADS")) t.n = env_threads();
  if (t.n > 64) t.n = 64;
  t.ready = 0; t.next = 0; t.spin = 0; t.arrived = 0; t.start = t.end = t.incr = t.chunk = 0;
  t.seed = seed0() * 1000 + ++regions;
  pthread_barrier_init(&t.bar, 0, t.n);
  std::vector<pthread_t> th(t.n);
  std::vector<Job> jobs(t.n);
  for (int i = 1; i < t.n; ++i) { jobs[i].fn = fn; jobs[i].data = data; jobs[i].t = &t; jobs[i].id = i; pthread_create(&th[i], 0, worker, &jobs[i]); }
  enter(&t, 0);
  gather();
  jitter();
  fn(data);
  team = 0; tid = 0;
  for (int i = 1; i < t.n; ++i) pthread_join(th[i], 0);
  report(&t);
  pthread_barrier_destroy(&t.bar);
}

// Work is handed out in chunks; the order of the chunks is a permutation drawn from the seed.
void setup(Team* t, long start, long end, long incr, long chunk) {
  t->start = start; t->end = end; t->incr = incr; t->chunk = chunk > 0 ? chunk : 1;
  t->order.clear();
  t->order.reserve(incr ? labs((end - start) / incr) / t->chunk + 2 : 2);
  t->log.reserve(t->log.size() + t->order.capacity());
  t->next = 0;
  long step = t->chunk * incr;
  for (long i = start; incr > 0 ? i < end : i > end; i += step) t->order.push_back(i);
  if (seed0()) {
    Rng r = {t->seed * 31 + 7};
    unsigned kind = (r.next(), r.next()) % 4;
    if (kind == 0) {}                                            // as written
    else if (kind == 1) std::reverse(t->order.begin(), t->order.end());
    else for (size_t i = t->order.size(); i > 1; --i) std::swap(t->order[i - 1], t->order[r.next() % i]);
  }
}

bool next(long* a, long* b) {
  Team* t = team;
  jitter();
  spin_lock(&t->spin);
  bool ok = t->next < (long)t->order.size();
  if (ok) {
    long s = t->order[t->next++];
    t->log.push_back(std::make_pair(tid, s));
    long e = s + t->chunk * t->incr;
    if (t->incr > 0 ? e > t->end : e < t->end) e = t->end;
    *a = s; *b = e;
  }
  spin_unlock(&t->spin);
  return ok;
}

bool first(long start, long end, long incr, long chunk, long* a, long* b) {
  Team* t = team;
  Team* mine = 0;
  if (!t) {                                                      // orphaned loop: one thread
    static __thread Team* lone = 0;
    if (!lone) { lone = new Team; lone->n = 1; lone->spin = 0; lone->ready = 0; lone->seed = 1; pthread_barrier_init(&lone->bar, 0, 1); }
    team = mine = lone; tid = 0; loops = lone->ready;
    t = mine;
  }
  spin_lock(&t->spin);
  if (loops == t->ready) { setup(t, start, end, incr, chunk); t->ready++; }
  loops++;
  spin_unlock(&t->spin);
  return next(a, b);
}

}  // namespace

extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run(fn, data, n); }

void GOMP_barrier() { if (team) pthread_barrier_wait(&team->bar); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }

#define LOOP(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return first(s, e, i, c, a, b); } \
  bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return first(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return first(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return next(a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return first(s, e, i, 1, a, b); }
bool GOMP_loop_nonmonotonic_runtime_next(long* a, long* b) { return next(a, b); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }

struct LoopCall { void (*fn)(void*); void* data; long s, e, i, c; };
#define PLOOP(name) \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { \
    LoopCall l = {fn, data, s, e, i, c}; \
    run([](void* p) { LoopCall* l = (LoopCall*)p; \
      spin_lock(&team->spin); if (loops == team->ready) { setup(team, l->s, l->e, l->i, l->c); team->ready++; } loops++; spin_unlock(&team->spin); \
      l->fn(l->data); }, &l, n); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)

void GOMP_critical_start() { jitter(); pthread_mutex_lock(&unnamed); }
void GOMP_critical_end() { pthread_mutex_unlock(&unnamed); jitter(); }
void GOMP_critical_name_start(void** p) {
  static int l = 0, used = 0;
  jitter();
  spin_lock(&l);
  int k = 0;
  while (k < used && name_of[k] != p) ++k;
  if (k == used && used < 255) name_of[used++] = p;
  spin_unlock(&l);
  pthread_mutex_lock(&named[k]);
}
void GOMP_critical_name_end(void** p) {
  int k = 0;
  while (k < 255 && name_of[k] != p) ++k;
  pthread_mutex_unlock(&named[k]);
  jitter();
}
void GOMP_atomic_start() { pthread_mutex_lock(&atomic_lock); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atomic_lock); }
bool GOMP_single_start() {
  if (!team) return true;
  spin_lock(&team->spin);
  bool mine = loops == team->ready;
  if (mine) team->ready++;
  loops++;
  spin_unlock(&team->spin);
  return mine;
}

int omp_get_thread_num() { return tid; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return wanted ? wanted : env_threads(); }
void omp_set_num_threads(int n) { wanted = n > 0 ? n : 1; }
int omp_get_num_procs() { return env_threads(); }
int omp_in_parallel() { return team && team->n > 1; }
void omp_set_nested(int) {}
void omp_set_dynamic(int) {}
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

}
