// Cooperative seeded scheduler and happens-before race detector.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim { namespace sched {
void reset();
bool available();              // false in the asan variant
void begin();                  // draws the strategy for this run; the caller becomes thread 0
void end();                    // all other threads must have been joined
void point();                  // explicit preemption point
void touch(const void* p, bool write, const char* what);   // an access to a shared object the detector should see
int self();
uint64_t switches();
uint64_t signature();          // hash of the sequence of context switches
void onMalloc(void* p, size_t n);
void onFree(void* p, size_t n);
void spawn(void (*f)(void*), void* arg);   // harness client thread
void joinAll();                // join the threads made by spawn
void failCreate(int at);       // the at-th thread creation from now on is refused (-1: none)
uint64_t createRefused();      // refusals since the last failCreate
void idle(const char* when);   // violation if a thread other than the caller is still alive
}}
