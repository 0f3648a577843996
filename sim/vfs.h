// Simulated disk, descriptors and clock. Every path under /sim/ lives in shared memory.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace sim { namespace vfs {

enum Op { OPEN = 1, READ = 2, WRITE = 4, SYNC = 8, CLOSE = 16, SEEK = 32, STAT = 64, UNLINK = 128, RENAME = 256, MKDIR = 512, OPENDIR = 1024 };
enum Act { ERR, SHORT, CRASH, CRASH_TORN, CRASH_AFTER };
const char* opName(int op);

struct Fault {
    int ops;              // mask of Op
    std::string path;     // substring of the path, "" for all
    uint64_t at;          // fires at the at-th matching operation, counting from 0
    uint64_t times;       // how many consecutive matching operations (sticky: ~0)
    Act act;
    int err;
    uint64_t arg;         // SHORT: number of bytes let through (permille of the request)
    uint64_t seen = 0, fired = 0;
};

void reset();                              // empty disk, no faults; start of a run
void format();                             // forget files only
void put(const std::string& path, const std::string& bytes);
std::string get(const std::string& path);
bool exists(const std::string& path);
bool isDir(const std::string& path);
void remove(const std::string& path);
void mkdir(const std::string& path);
std::vector<std::string> list(const std::string& prefix = "");
uint64_t size(const std::string& path);

void addFault(const Fault& f);
void clearFaults();
uint64_t faultsFired();
int& faultThread();                        // the thread that met the last one
void capacity(uint64_t bytes, uint64_t untilNs = ~0ull);   // total bytes of file data the disk accepts until then; ~0 none
uint64_t used();
void shortReads(bool on);                  // read() on descriptors returns seeded short counts
void countOps();                           // zero the op counters
uint64_t ops(int mask, const std::string& path = "");   // ops counted so far
uint64_t openHandles();
uint64_t peakHandles(bool again = false);   // most handles open at once so far; again: start over
int openFd(const std::string& path, int flags);         // a simulated descriptor
void quiet(bool on);                       // scenario's own accesses: no faults, no log
}}
