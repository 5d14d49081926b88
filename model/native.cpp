// Native implementation of vp.h: replays recorded inputs and schedules on the real, compiled code.
//   replay INPUTS   (lines: "i NAME VALUE", "s THREAD" for the schedule, "p NAME VALUE" parameters)
// Prints CHECKFAIL / OBS / COVER lines.  Exit: 0 ran to the end, 10 a check failed, 11 an assumption
// did not hold, 12 deadlock, 13 uncaught exception; sanitizers and aborts use their own codes.
#include <pthread.h>
#include <unistd.h>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <atomic>
#include "vp.h"

extern "C" void vp_main(void);
extern "C" int __sanitizer_install_malloc_and_free_hooks(
  void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));

// Not through operator new, which harnesses make fail.
template<typename T>
struct Own
{
  using value_type = T;
  Own() = default;
  template<typename U>
  Own(const Own<U> &) {}
  T * allocate(size_t n)
  {
    T * p = static_cast<T *>(malloc(n * sizeof(T)));
    if (!p) {abort();}
    return p;
  }
  void deallocate(T * p, size_t) {free(p);}
  bool operator==(const Own &) const {return true;}
  bool operator!=(const Own &) const {return false;}
};
template<typename V>
using ByAddress = std::map<const void *, V, std::less<const void *>, Own<std::pair<const void * const, V>>>;
static std::map<std::string, uint64_t> * g_in;
static std::map<std::string, int64_t> * g_par;
static std::map<std::string, int> * g_cnt;
static std::vector<int> * g_sched;
static size_t g_pos;
static std::atomic<long> g_live{0};
static bool g_free_run;               // run threads freely (for the race detector)
static bool g_quiet;
static void finish(int code) {fflush(stdout); _exit(code);}

// ------------------------------------------------------------------- deterministic thread scheduler
struct Th { int st; const void * wait; bool yielded; pthread_t h; void (* fn)(void *); void * arg; };
enum { RUN, MUT, JOIN, DONE };
static Th g_th[8];
static int g_n = 1, g_cur;
static thread_local int t_me;
static pthread_mutex_t g_big = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t g_cv = PTHREAD_COND_INITIALIZER;
static ByAddress<std::pair<int, int>> * g_owner;   // controlled mutexes: owner, count
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_trylock(pthread_mutex_t *);
static int next_choice(int dflt)
{
  if (g_pos < g_sched->size()) {return (*g_sched)[g_pos++];}
  return dflt;
}
static void wait_turn()
{
  while (g_cur != t_me) {pthread_cond_wait(&g_cv, &g_big);}
}
static void switch_to(int t)
{
  g_cur = t;
  pthread_cond_broadcast(&g_cv);
  wait_turn();
}
static void jitter()
{
  static thread_local unsigned x = 0;
  if (!x) {x = static_cast<unsigned>(atoi(getenv("VP_FREE_RUN"))) * 2654435761u + static_cast<unsigned>(t_me) * 40503u + 1;}
  x ^= x << 13; x ^= x >> 17; x ^= x << 5;
  if (x % 3) {usleep(x % 300);}
}
static int pick()
{
  int first = -1;
  for (int i = 0; i < g_n && first < 0; i++) {if (g_th[i].st == RUN) {first = i;}}
  if (first < 0) {printf("DEADLOCK\n"); finish(12);}
  int c = next_choice(first);
  if (c >= g_n || g_th[c].st != RUN) {c = first;}
  return c;
}
static void yield_point()
{
  if (g_n < 2) {return;}
  Th & t = g_th[t_me];
  if (t.yielded) {t.yielded = false; return;}
  bool any = false;
  for (int i = 0; i < g_n; i++) {if (i != t_me && g_th[i].st == RUN) {any = true;}}
  if (!any) {return;}
  int c = next_choice(t_me);
  if (c < g_n && c != t_me && g_th[c].st == RUN) {
    t.yielded = true;
    switch_to(c);
    t.yielded = false;
  }
}
// The scheduler's own synchronisation is hidden from ThreadSanitizer; that of the code is announced to it.
extern "C" {
__attribute__((weak)) void AnnotateIgnoreSyncBegin(const char *, int);
__attribute__((weak)) void AnnotateIgnoreSyncEnd(const char *, int);
__attribute__((weak)) void __tsan_acquire(void *);
__attribute__((weak)) void __tsan_release(void *);
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
}
static void enter()
{
  if (AnnotateIgnoreSyncBegin) {AnnotateIgnoreSyncBegin(__FILE__, __LINE__);}
  __real_pthread_mutex_lock(&g_big);
}
static void leave()
{
  __real_pthread_mutex_unlock(&g_big);
  if (AnnotateIgnoreSyncEnd) {AnnotateIgnoreSyncEnd(__FILE__, __LINE__);}
}
static void acquired(const void * p) {if (__tsan_acquire) {__tsan_acquire(const_cast<void *>(p));}}
static void release(const void * p) {if (__tsan_release) {__tsan_release(const_cast<void *>(p));}}
static void deadlock() {printf("DEADLOCK\n"); finish(12);}
static void block_on(const void * m)
{
  g_th[t_me].st = MUT; g_th[t_me].wait = m;
  switch_to(pick());
}
static void wake(const void * m)
{
  for (int i = 0; i < g_n; i++) {if (g_th[i].st == MUT && g_th[i].wait == m) {g_th[i].st = RUN;}}
}
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
  if (g_free_run && g_n > 1 && m != &g_big) {jitter();}
  if (g_free_run || m == &g_big) {return __real_pthread_mutex_lock(m);}
  enter();
  yield_point();
  auto & o = (*g_owner)[m];
  for (;; ) {
    if (o.second == 0) {break;}
    if (o.first == t_me) {
      if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) {break;}
      deadlock();
    }
    block_on(m);
  }
  o.first = t_me; o.second++;
  leave();
  acquired(m);
  return 0;
}
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t * m)
{
  if (g_free_run) {if (g_n > 1) {jitter();} return __real_pthread_mutex_trylock(m);}
  enter();
  yield_point();
  auto & o = (*g_owner)[m];
  int r = o.second ? 16 : 0;
  if (!r) {o.first = t_me; o.second = 1;}
  leave();
  if (!r) {acquired(m);}
  return r;
}
static void unlocked(pthread_mutex_t * m)
{
  auto & o = (*g_owner)[m];
  if (o.second == 0 || o.first != t_me) {printf("CHECKFAIL unlock of a mutex that is not held\n"); finish(10);}
  if (--o.second == 0) {wake(m);}
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t * m)
{
  if (g_free_run || m == &g_big) {return __real_pthread_mutex_unlock(m);}
  release(m);
  enter();
  unlocked(m);
  leave();
  return 0;
}
// Reader-writer locks: the owner is the writer, the readers are counted per thread.
struct RW { int owner = -1; int readers[8] = {}; int n = 0; };
static ByAddress<RW> * g_rw;
static int rw_lock(pthread_rwlock_t * m, bool wr, bool wait)
{
  enter();
  yield_point();
  RW & o = (*g_rw)[m];
  for (;; ) {
    if (wait && (o.owner == t_me || (wr && o.readers[t_me]))) {deadlock();}
    if (o.owner < 0 && !(wr && o.n)) {break;}
    if (!wait) {leave(); return 16;}
    block_on(m);
  }
  if (wr) {o.owner = t_me;} else {o.readers[t_me]++; o.n++;}
  leave();
  acquired(m);
  return 0;
}
#define FREE(NAME, ...) if (g_free_run) {if (g_n > 1) {jitter();} return __real_##NAME(__VA_ARGS__);}
extern "C" {
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t * m) {FREE(pthread_rwlock_rdlock, m); return rw_lock(m, false, true);}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t * m) {FREE(pthread_rwlock_wrlock, m); return rw_lock(m, true, true);}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t * m) {FREE(pthread_rwlock_tryrdlock, m); return rw_lock(m, false, false);}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t * m) {FREE(pthread_rwlock_trywrlock, m); return rw_lock(m, true, false);}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  FREE(pthread_rwlock_unlock, m);
  release(m);
  enter();
  RW & o = (*g_rw)[m];
  if (o.owner == t_me) {o.owner = -1;} else if (o.readers[t_me]) {o.readers[t_me]--; o.n--;} else {
    printf("CHECKFAIL unlock of an rwlock that is not held\n");
    finish(10);
  }
  wake(m);
  leave();
  return 0;
}
// std::condition_variable
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *, std::unique_lock<std::mutex> *);
void __real__ZNSt18condition_variable10notify_oneEv(void *);
void __real__ZNSt18condition_variable10notify_allEv(void *);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void * c, std::unique_lock<std::mutex> * l)
{
  FREE(_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE, c, l);
  pthread_mutex_t * m = l->mutex()->native_handle();
  release(m);
  enter();
  unlocked(m);
  block_on(c);
  leave();
  __wrap_pthread_mutex_lock(m);
}
void __wrap__ZNSt18condition_variable10notify_oneEv(void * c)
{
  FREE(_ZNSt18condition_variable10notify_oneEv, c);
  enter();
  wake(c);
  leave();
}
void __wrap__ZNSt18condition_variable10notify_allEv(void * c)
{
  FREE(_ZNSt18condition_variable10notify_allEv, c);
  enter();
  wake(c);
  leave();
}
// Initialisation of function-local statics, and std::call_once
static ByAddress<int> * g_init;      // the thread that is at it, plus one
static int init_begin(void * p)
{
  enter();
  auto & o = (*g_init)[p];
  while (!*static_cast<volatile char *>(p) && o) {
    if (o == t_me + 1) {deadlock();}
    block_on(p);
  }
  const int r = !*static_cast<volatile char *>(p);
  if (r) {o = t_me + 1;}
  leave();
  acquired(p);
  return r;
}
static void init_end(void * p, bool done)
{
  release(p);
  enter();
  if (done) {*static_cast<volatile char *>(p) = 1;}
  (*g_init)[p] = 0;
  wake(p);
  leave();
}
int __wrap___cxa_guard_acquire(uint64_t * p) {return g_free_run || !g_init ? __real___cxa_guard_acquire(p) : init_begin(p);}
void __wrap___cxa_guard_release(uint64_t * p)
{
  if (g_free_run || !g_init) {__real___cxa_guard_release(p);} else {init_end(p, true);}
}
void __wrap___cxa_guard_abort(uint64_t * p)
{
  if (g_free_run || !g_init) {__real___cxa_guard_abort(p);} else {init_end(p, false);}
}
int __wrap_pthread_once(pthread_once_t * o, void (* f)(void))
{
  if (g_free_run || !g_init) {return __real_pthread_once(o, f);}
  if (init_begin(o)) {
    f();
    init_end(o, true);
  }
  return 0;
}
int __real_sched_yield(void);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_usleep(useconds_t);
static int give_way() {enter(); yield_point(); leave(); return 0;}
int __wrap_sched_yield(void) {return g_free_run || g_n < 2 ? __real_sched_yield() : give_way();}
int __wrap_nanosleep(const struct timespec * a, struct timespec * b) {return g_free_run || g_n < 2 ? __real_nanosleep(a, b) : give_way();}
int __wrap_usleep(useconds_t n) {return g_free_run || g_n < 2 ? __real_usleep(n) : give_way();}
// Called before every atomic access of the code.
void vp_atomic(void)
{
  if (g_free_run || g_n < 2) {return;}
  enter();
  yield_point();
  leave();
}
}
static void * thread_main(void * a)
{
  t_me = static_cast<int>(reinterpret_cast<intptr_t>(a));
  if (!g_free_run) {
    enter();
    wait_turn();
    leave();
  }
  g_th[t_me].fn(g_th[t_me].arg);
  if (!g_free_run) {
    enter();
    g_th[t_me].st = DONE;
    bool all = true;
    for (int i = 1; i < g_n; i++) {if (g_th[i].st != DONE) {all = false;}}
    if (all && g_th[0].st == JOIN) {g_th[0].st = RUN;}
    g_cur = pick();
    pthread_cond_broadcast(&g_cv);
    leave();
  }
  return nullptr;
}
extern "C" {
int vp_spawn(void (* fn)(void *), void * arg)
{
  if (!g_free_run) {enter();}
  int id = g_n;
  g_th[id] = Th{RUN, nullptr, false, 0, fn, arg};
  g_n++;
  if (!g_free_run) {leave();}
  pthread_create(&g_th[id].h, nullptr, thread_main, reinterpret_cast<void *>(static_cast<intptr_t>(id)));
  return id;
}
void vp_join(void)
{
  if (!g_free_run) {
    enter();
    bool all = true;
    for (int i = 0; i < g_n; i++) {if (i != t_me && g_th[i].st != DONE) {all = false;}}
    if (!all) {
      g_th[t_me].st = JOIN;
      switch_to(pick());
    }
    leave();
  }
  for (int i = 1; i < g_n; i++) {
    if (g_th[i].h) {pthread_join(g_th[i].h, nullptr); g_th[i].h = 0;}
  }
}
void vp_yield(void)
{
  if (g_free_run) {return;}
  enter();
  yield_point();
  leave();
}
int vp_thread_id(void) {return t_me;}
void vp_norace(const void *) {}
int vp_mutex_held(const void * m)
{
  if (g_free_run) {
    pthread_mutex_t * p = const_cast<pthread_mutex_t *>(static_cast<const pthread_mutex_t *>(m));
    if (__real_pthread_mutex_trylock(p) == 0) {__real_pthread_mutex_unlock(p); return 0;}
    return 1;
  }
  auto rw = g_rw->find(m);
  if (rw != g_rw->end() && (rw->second.owner >= 0 || rw->second.n)) {return 1;}
  auto it = g_owner->find(m);
  return it != g_owner->end() && it->second.second > 0;
}

// ------------------------------------------------------------------------------ inputs and checks
uint64_t vp_sym(const char * name, int bits)
{
  static std::mutex mu;
  std::string n = std::string(name) + "#" + std::to_string((*g_cnt)[name]++);
  auto it = g_in->find(n);
  uint64_t v = it == g_in->end() ? 0 : it->second;
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
// Clocks: see runtime.cpp
static int64_t g_time = 1000000000000000000;
static int64_t tick(const char * clock) {return g_time += static_cast<int64_t>(vp_sym(clock, 44));}
int __real_clock_gettime(clockid_t, struct timespec *);
time_t __real_time(time_t *);
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv(void);
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv(void);
static bool own_time() {return !g_free_run && g_in;}
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv(void)
{
  return own_time() ? tick("steady_clock") : __real__ZNSt6chrono3_V212steady_clock3nowEv();
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv(void)
{
  return own_time() ? tick("system_clock") : __real__ZNSt6chrono3_V212system_clock3nowEv();
}
int __wrap_clock_gettime(clockid_t c, struct timespec * t)
{
  if (!own_time()) {return __real_clock_gettime(c, t);}
  const int64_t n = tick("clock_gettime");
  t->tv_sec = n / 1000000000;
  t->tv_nsec = n % 1000000000;
  return 0;
}
time_t __wrap_time(time_t * t)
{
  if (!own_time()) {return __real_time(t);}
  const time_t n = tick("time") / 1000000000;
  if (t) {*t = n;}
  return n;
}
void vp_each_input(void (* f)(const char *, uint64_t))
{
  for (auto & p : *g_in) {f(p.first.c_str(), p.second);}
}
uint64_t vp_choose(const char * name, uint64_t n)
{
  uint64_t v = vp_sym(name, 64);
  return v < n ? v : 0;
}
void vp_assume(int c)
{
  if (!c) {printf("ASSUME\n"); finish(11);}
}
void vp_check(int c, const char * m)
{
  if (!c) {printf("CHECKFAIL %s\n", m); finish(10);}
}
void vp_cover(const char * l) {if (!g_quiet) {printf("COVER %s\n", l);}}
void vp_observe(const char * n, uint64_t v) {if (!g_quiet) {printf("OBS %s %llu\n", n, static_cast<unsigned long long>(v));}}
void vp_observe_mem(const char * n, const void * p, size_t k)
{
  if (g_quiet) {return;}
  printf("OBS %s x", n);
  for (size_t i = 0; i < k; i++) {printf("%02x", static_cast<const unsigned char *>(p)[i]);}
  printf("\n");
}
uint64_t vp_concretize(uint64_t v) {return v;}
int64_t vp_param(const char * n, int64_t d)
{
  auto it = g_par->find(n);
  return it == g_par->end() ? d : it->second;
}
int64_t vp_live_heap(void) {return g_live.load();}
int vp_is_freed(const void *) {return 0;}
int vp_symbolic(void) {return 0;}
void vp_stop(void) {finish(0); abort();}
void vp_unmodelled(const char * w) {printf("UNMODELLED %s\n", w); finish(14); abort();}
}
int main(int argc, char ** argv)
{
  g_in = new std::map<std::string, uint64_t>;
  g_par = new std::map<std::string, int64_t>;
  g_cnt = new std::map<std::string, int>;
  g_sched = new std::vector<int>;
  g_rw = new ByAddress<RW>;
  g_init = new ByAddress<int>;
  g_owner = new ByAddress<std::pair<int, int>>;
  g_free_run = getenv("VP_FREE_RUN") != nullptr;
  g_quiet = getenv("VP_QUIET") != nullptr;
  g_th[0].st = RUN;
  if (argc > 1) {
    FILE * f = fopen(argv[1], "r");
    if (!f) {return 2;}
    char k;
    char name[512];
    unsigned long long v;
    while (fscanf(f, " %c", &k) == 1) {
      if (k == 's') {
        if (fscanf(f, "%llu", &v) != 1) {break;}
        g_sched->push_back(static_cast<int>(v));
      } else {
        long long sv;
        if (fscanf(f, " %511s %lld", name, &sv) != 2) {
          break;
        }
        if (k == 'i') {(*g_in)[name] = static_cast<uint64_t>(sv);} else {(*g_par)[name] = sv;}
      }
    }
    fclose(f);
  }
  if (__sanitizer_install_malloc_and_free_hooks) {
    __sanitizer_install_malloc_and_free_hooks(
      [](const volatile void *, size_t) {g_live++;},
      [](const volatile void * p) {if (p) {g_live--;}});
  }
  std::set_terminate([] {printf("UNCAUGHT EXCEPTION\n"); finish(13);});
  vp_main();
  printf("END\n");
  finish(0);
}
