// Interface between a harness and the symbolic executor.  The same harness is also built natively
// (model/native.cpp) to replay counterexamples and to validate explored paths on the real code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vp_sym(const char * name, int bits);              // any value of that many bits
uint64_t vp_choose(const char * name, uint64_t n);         // any value below n, explored one by one
void vp_assume(int cond);
void vp_check(int cond, const char * message);             // the property
void vp_cover(const char * label);                         // reachability witness
void vp_observe(const char * name, uint64_t value);        // compared with the native run
void vp_observe_mem(const char * name, const void * p, size_t n);
uint64_t vp_concretize(uint64_t v);                        // forks until v is a single value
int64_t vp_param(const char * name, int64_t dflt);
int64_t vp_live_heap(void);
int vp_is_freed(const void * p);
int vp_symbolic(void);                                     // 1 under the symbolic executor
[[noreturn]] void vp_stop(void);                           // ends the run normally
[[noreturn]] void vp_unmodelled(const char * what);
int vp_spawn(void (* fn)(void *), void * arg);
void vp_join(void);                                        // waits for all spawned threads
void vp_yield(void);
int vp_thread_id(void);
void vp_norace(const void * p);                            // exclude an object from race detection
int vp_mutex_held(const void * m);
int64_t vp_fail_new(int64_t k);                            // the k-th operator new from now throws (0: none); what was left
}
#define VP_ENTRY extern "C" void vp_main(void)
