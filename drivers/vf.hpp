// Intrinsics of the abstract interpreter (see engine/models.py).
#pragma once
#include <cstddef>
extern "C" {
unsigned vf_nd(unsigned n);                       // any value 0..n-1
int   vf_more();                                  // any number of iterations
void  vf_assert(bool c, const char* label);       // obligation
void  vf_fail(const char* label);
void  vf_assume(bool c);
void  vf_cover(const char* label);                // must be reached by some abstract path
void  vf_note(const char* txt);
long  vf_sym(const char* name);                   // an arbitrary 64-bit value
int   vf_held();                                  // mutexes held by this thread
void  vf_oom(int on);                             // allocation may fail
int   vf_oomed();
int   vf_abstract();
void  vf_noleak();
int   vf_alive(const void* p);
void  vf_prune();
int   vf_tid();
unsigned vf_heap();
void  vf_spawn(void (*f)(void*), void* arg);      // start a thread (thread mode)
void  vf_join();                                  // wait for all threads
void  vf_more_reset();
}
#define SCN(name, meta) extern "C" { extern const char vf_meta_##name[]; __attribute__((used)) const char vf_meta_##name[] = meta; } extern "C" void name()
