/* A small OpenMP runtime on pthreads, so that the thread sanitizer sees every synchronisation.
   Threads run one after the other in a chosen order (without any synchronisation the sanitizer knows of) or freely. */
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <stdarg.h>
typedef unsigned char bool_;
static int T = 4, mode = 0;                 /* mode 0: ascending, 1: descending, 2: free */
static __thread int tid, level, team = 1;
static volatile int turn;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, named = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
static pthread_barrier_t bar;
static int barriers;
void h_omp(int t, int m) { T = t; mode = m; }
struct job { void (*fn)(void*); void* data; int tid, n, pos; };
static void* body(void* p) {
  struct job* j = p;
  tid = j->tid; level = 1; team = j->n;
  if (mode < 2) while (__atomic_load_n(&turn, __ATOMIC_RELAXED) != j->pos) sched_yield();
  j->fn(j->data);
  if (mode < 2) __atomic_store_n(&turn, j->pos + 1, __ATOMIC_RELAXED);
  return 0;
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned flags) {
  int n = nt ? (int) nt : T, i;
  if (level || n < 2) { int t0 = tid, l0 = level, n0 = team; tid = 0; team = 1; level = 1; fn(data); tid = t0; level = l0; team = n0; return; }
  pthread_t* th = malloc(n * sizeof *th); struct job* js = malloc(n * sizeof *js);
  turn = 0;
  pthread_barrier_init(&bar, 0, n);
  for (i = 0; i < n; i++) {
    js[i].fn = fn; js[i].data = data; js[i].tid = i; js[i].n = n; js[i].pos = mode == 1 ? n - 1 - i : i;
    pthread_create(&th[i], 0, body, &js[i]);
  }
  for (i = 0; i < n; i++) pthread_join(th[i], 0);
  free(th); free(js);
}
int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return team; }
int omp_get_max_threads(void) { return T; }
int omp_get_num_procs(void) { return T; }
int omp_in_parallel(void) { return level; }
int omp_get_level(void) { return level; }
void omp_set_num_threads(int n) { T = n; }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void** p) { pthread_mutex_lock(&named); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(&named); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
void GOMP_barrier(void) { if (team > 1) { mode = 2; __atomic_store_n(&turn, -1, __ATOMIC_RELAXED); pthread_barrier_wait(&bar); } }
bool_ GOMP_single_start(void) { return tid == 0; }
/* loops with a schedule: every thread takes its share */
static __thread long cur, end_, step_;
static void share(long s, long e, long i) {
  long n = i > 0 ? (e - s + i - 1) / i : (s - e - i - 1) / -i;
  if (n < 0) n = 0;
  long q = n / team, r = n % team, a = tid * q + (tid < r ? tid : r), k = q + (tid < r);
  cur = s + a * i; end_ = s + (a + k) * i; step_ = i;
}
static bool_ next(long* a, long* b) {
  if (cur == end_) return 0;
  *a = cur; cur += step_; *b = cur;
  return 1;
}
#define LOOP(k) \
  bool_ GOMP_loop_##k##_start(long s, long e, long i, long c, long* a, long* b) { share(s, e, i); return next(a, b); } \
  bool_ GOMP_loop_##k##_next(long* a, long* b) { return next(a, b); } \
  struct k##_x { void (*fn)(void*); void* d; long s, e, i; }; \
  static void k##_f(void* p) { struct k##_x* x = p; share(x->s, x->e, x->i); x->fn(x->d); } \
  void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned fl) { struct k##_x x = { fn, d, s, e, i }; GOMP_parallel(k##_f, &x, nt, fl); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(k) \
  bool_ GOMP_loop_##k##_start(long s, long e, long i, long* a, long* b) { share(s, e, i); return next(a, b); } \
  bool_ GOMP_loop_##k##_next(long* a, long* b) { return next(a, b); } \
  struct k##_x { void (*fn)(void*); void* d; long s, e, i; }; \
  static void k##_f(void* p) { struct k##_x* x = p; share(x->s, x->e, x->i); x->fn(x->d); } \
  void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl) { struct k##_x x = { fn, d, s, e, i }; GOMP_parallel(k##_f, &x, nt, fl); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
