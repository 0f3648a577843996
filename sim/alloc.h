// Allocation seam: seeded failures of operator new, live-block accounting, fill of fresh memory.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace sim { namespace alloc {
extern int on, paused;             // allocations are counted, and possibly fail, while on > 0 and paused == 0
void reset();
void arm(uint64_t at, uint64_t times);   // fail allocations number at..at+times-1 of the scope
void disarm();
uint64_t counted();                // allocations seen in scope since the last arm/resetCount
void resetCount();
uint64_t pick(uint64_t n);         // one of the first n allocations since resetCount, every call path as likely as any other
uint64_t failed();
std::string failedText();            // where the first failure happened
int64_t live();                    // live operator-new blocks
bool heapOk(const void* p, size_t n);    // sched variant: is the range inside one live block (or not heap)
struct Scope { Scope() { on++; } ~Scope() { on--; } };
struct Pause { Pause() { paused++; } ~Pause() { paused--; } };
void track(bool, bool where = true);   // remember the blocks allocated in scope from now on
size_t tracked();                  // how many of them are still there
std::string trackedText();         // and which ones: the number each had, and its size
}}
