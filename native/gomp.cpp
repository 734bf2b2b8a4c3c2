// A small OpenMP runtime on plain threads, for replaying parallel loops under ThreadSanitizer (which cannot see into libgomp).
#include <pthread.h>
#include <cstdint>
#include <vector>
namespace {
const int N = 4;
__thread int tid = 0;
__thread int team = 1;
struct Loop { long next, end, step, chunk; bool up; };
Loop loop;
pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER, crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
pthread_barrier_t bar;
struct Arg { void (*fn)(void*); void* data; int id; };
void* body(void* p) { Arg* a = (Arg*)p; tid = a->id; team = N; a->fn(a->data); tid = 0; team = 1; return 0; }
void go(void (*fn)(void*), void* data) {
    if (team > 1) { fn(data); return; }
    pthread_barrier_init(&bar, 0, N);
    std::vector<pthread_t> t(N);
    std::vector<Arg> a(N);
    for (int i = 0; i < N; i++) { a[i].fn = fn; a[i].data = data; a[i].id = i; }
    for (int i = 1; i < N; i++) pthread_create(&t[i], 0, body, &a[i]);
    body(&a[0]);
    for (int i = 1; i < N; i++) pthread_join(t[i], 0);
    pthread_barrier_destroy(&bar);
}
bool next(long* b, long* e) {
    pthread_mutex_lock(&m);
    bool more = loop.step > 0 ? loop.next < loop.end : loop.next > loop.end;
    if (more) { *b = loop.next; *e = loop.next + loop.step * (loop.chunk > 0 ? loop.chunk : 1); if (loop.step > 0 ? *e > loop.end : *e < loop.end) *e = loop.end; loop.next = *e; }
    pthread_mutex_unlock(&m);
    return more;
}
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned, unsigned) { go(fn, data); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned, unsigned) { go(fn, data); return N; }
#define LOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned, long start, long end, long incr, long chunk, unsigned) { Loop l = {start, end, incr, chunk, true}; loop = l; go(fn, data); } \
    bool GOMP_loop_##name##_next(long* b, long* e) { return next(b, e); }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided) LOOP(maybe_nonmonotonic_runtime)
#define LOOP1(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned, long start, long end, long incr, unsigned) { Loop l = {start, end, incr, 1, true}; loop = l; go(fn, data); } \
    bool GOMP_loop_##name##_next(long* b, long* e) { return next(b, e); }
LOOP1(runtime) LOOP1(nonmonotonic_runtime)
void GOMP_loop_end() { if (team > 1) pthread_barrier_wait(&bar); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { if (team > 1) pthread_barrier_wait(&bar); }
bool GOMP_single_start() { return tid == 0; }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
int omp_get_thread_num() noexcept { return tid; }
int omp_get_num_threads() noexcept { return team; }
int omp_get_max_threads() noexcept { return N; }
int omp_get_num_procs() noexcept { return N; }
int omp_in_parallel() noexcept { return team > 1; }
void omp_set_num_threads(int) noexcept {}
void omp_set_nested(int) noexcept {}
}
