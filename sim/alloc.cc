#include "alloc.h"
#include <errno.h>
#include <execinfo.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <new>
#include <vector>
#include "core.h"
#include "sched.h"

namespace sim { namespace alloc {
int on, paused;
struct Trace { void* a[24]; int k; };
static Trace failTrace;
static uint64_t failAt = ~0ull, failTimes, seen, nfailed;
static int64_t nlive;
static void forgetBlocks();
static bool surveying;
void reset() { surveying = false; on = paused = 0; forgetBlocks(); failAt = ~0ull; seen = nfailed = 0; }
void arm(uint64_t at, uint64_t times) { void* a[4]; backtrace(a, 4); surveying = false; failTrace.k = 0; failAt = at; failTimes = times; seen = 0; nfailed = 0; }
void disarm() { failAt = ~0ull; }
// which call path each counted allocation was made on
static uint64_t* paths;
static uint32_t npaths;
static constexpr uint32_t NP = 1 << 20;
uint64_t counted() { surveying = false; return seen; }
void resetCount() {
    seen = 0;
    if (!paths) { paths = (uint64_t*)mmap(nullptr, NP * sizeof(uint64_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); void* a[4]; backtrace(a, 4); }
    npaths = 0;
    surveying = true;
}
uint64_t pick(uint64_t n) {
    Pause pause;
    if (n > npaths || !flt(4)) return flt(uint32_t(n));
    std::map<uint64_t, std::vector<uint32_t>> at;
    std::vector<uint64_t> order;                  // of first use: the same in every process
    for (uint32_t i = 0; i < n; i++) { auto& v = at[paths[i]]; if (v.empty()) order.push_back(paths[i]); v.push_back(i); }
    auto& v = at[order[flt(uint32_t(order.size()))]];
    return v[v.size() < 3 ? flt(uint32_t(v.size())) : flt(3) == 0 ? 0 : flt(uint32_t(v.size()))];
}
uint64_t failed() { return nfailed; }
int64_t live() { return nlive; }
static inline bool fails(size_t n) {
    if (n > (1ull << 30)) return true;      // the simulated machine has 1 GB
    if (on <= 0 || paused) return false;
    uint64_t k = seen++;
    if (surveying && npaths < NP) {
        void* a[14];
        int d = backtrace(a, 14);
        paths[npaths++] = fnv(a + 2, size_t(std::max(0, d - 2)) * sizeof(void*));
    }
    if (k < failAt || k - failAt >= failTimes) return false;
    if (!nfailed++) failTrace.k = backtrace(failTrace.a, 24);
    return true;
}
std::string failedText() {
    Pause pause;
    if (!failTrace.k) return "nowhere";
    char t[700];
    symbols(failTrace.a, failTrace.k, 2, t, sizeof t);
    return t;
}

// blocks allocated in scope: open addressing, in memory of its own
struct Block { uintptr_t p; uint32_t n; uint32_t no; };
static constexpr size_t NB = 1 << 17;
static Block* blocks;
static Trace* traces;
static size_t nblocks;
static bool tracking;
static std::atomic_flag blk = ATOMIC_FLAG_INIT;
static size_t slot(uintptr_t p) { return size_t((p >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (NB - 1); }
static void forgetBlocks() { tracking = false; nblocks = 0; if (blocks) memset(blocks, 0, NB * sizeof(Block)); }
static bool wheres;
void track(bool t, bool where) {
    wheres = where;
    if (!blocks) blocks = (Block*)mmap(nullptr, NB * sizeof(Block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (!traces) { traces = (Trace*)mmap(nullptr, NB * sizeof(Trace), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); void* a[4]; backtrace(a, 4); }
    if (t && !tracking) forgetBlocks();
    tracking = t;
}
size_t tracked() { return nblocks; }
static void add(void* q, size_t n) {
    if (!tracking || on <= 0 || paused || nblocks > NB / 2) return;
    while (blk.test_and_set(std::memory_order_acquire)) {}
    size_t i = slot((uintptr_t)q);
    while (blocks[i].p > 1) i = (i + 1) & (NB - 1);
    blocks[i] = {(uintptr_t)q, uint32_t(n), uint32_t(seen)};
    traces[i].k = wheres ? backtrace(traces[i].a, 24) : 0;
    nblocks++;
    blk.clear(std::memory_order_release);
}
static void drop(void* q) {
    if (!nblocks) return;
    while (blk.test_and_set(std::memory_order_acquire)) {}
    for (size_t i = slot((uintptr_t)q); blocks[i].p; i = (i + 1) & (NB - 1)) if (blocks[i].p == (uintptr_t)q) { blocks[i].p = 1; nblocks--; break; }
    blk.clear(std::memory_order_release);
}
std::string trackedText() {
    Pause pause;
    std::string s;
    uint32_t shown[3] = {0};
    int n = 0;
    for (size_t i = 0; blocks && i < NB && n < 3; i++) {
        if (blocks[i].p <= 1 || !traces[i].k) continue;
        bool seenIt = false;
        for (int k = 0; k < n; k++) seenIt = seenIt || shown[k] == blocks[i].no;
        if (seenIt) continue;
        char t[700];
        symbols(traces[i].a, traces[i].k, 2, t, sizeof t);
        s += strf("%s%u bytes at %s", n ? "; " : "", blocks[i].n, t);
        shown[n++] = blocks[i].no;
    }
    return s;
}
}}

static void* newImpl(size_t n) {
    if (sim::alloc::fails(n)) return nullptr;
    void* p = malloc(n ? n : 1);
    if (p) { sim::alloc::nlive++; sim::alloc::add(p, n); }
    return p;
}
static void delImpl(void* p) { if (p) { sim::alloc::nlive--; sim::alloc::drop(p); free(p); } }
static void* newAl(size_t n, size_t a) {
    if (sim::alloc::fails(n)) return nullptr;
    void* p = nullptr;
    if (posix_memalign(&p, a < 16 ? 16 : a, n ? n : 1)) return nullptr;
    sim::alloc::nlive++;
    sim::alloc::add(p, n);
    return p;
}
void* operator new(size_t n) { void* p = newImpl(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = newImpl(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return newImpl(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return newImpl(n); }
void* operator new(size_t n, std::align_val_t a) { void* p = newAl(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = newAl(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { delImpl(p); }
void operator delete[](void* p) noexcept { delImpl(p); }
void operator delete(void* p, size_t) noexcept { delImpl(p); }
void operator delete[](void* p, size_t) noexcept { delImpl(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { delImpl(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { delImpl(p); }
void operator delete(void* p, std::align_val_t) noexcept { delImpl(p); }
void operator delete[](void* p, std::align_val_t) noexcept { delImpl(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { delImpl(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { delImpl(p); }

#ifndef SIM_SCHED
namespace sim { namespace alloc { bool heapOk(const void*, size_t) { return true; } } }
#else
// ------------------------------------------------------------------ own deterministic heap
namespace {
constexpr uintptr_t ARENA = 0x200000000000ull;
constexpr uintptr_t ASIZE = 4ull << 30;
constexpr uintptr_t SHADOW = 0x210000000000ull;        // one byte per 16 of the arena: 1 = usable by the program
struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; };
static_assert(sizeof(Hdr) == 16, "");
constexpr uint32_t LIVE = 0xA110CA7E, FREED = 0xDEADF4EE, ALIGNED = 0xA11600D5;
struct Node { Node* next; };
std::atomic_flag lk = ATOMIC_FLAG_INIT;
uintptr_t brk_;
Node* freeHead[64];
Node* freeTail[64];
uint32_t freeCount[64];
bool ready;
struct Guard { Guard() { while (lk.test_and_set(std::memory_order_acquire)) {} } ~Guard() { lk.clear(std::memory_order_release); } };

void start() {
    if (mmap((void*)ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) abort();
    if (mmap((void*)SHADOW, ASIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) abort();
    brk_ = ARENA + 4096;
    ready = true;
}
uint32_t classOf(size_t n, size_t* sz) {       // n rounded to 16
    uint32_t c = 0;
    size_t s = 16;
    while (s < n) {
        size_t h = s + s / 2;
        if (s >= 32) { if (h >= n) { *sz = h; return c + 1; } c += 2; }
        else c += 2;
        s *= 2;
    }
    *sz = s;
    return c;
}
void mark(uintptr_t p, size_t n, uint8_t v) { memset((void*)(SHADOW + (p - ARENA) / 16), v, (n + 15) / 16); }
void* allocate(size_t n) {
    if (n > (1ull << 30)) { errno = ENOMEM; return nullptr; }
    size_t want = (n + 15) & ~size_t(15), sz;
    if (!want) want = 16;
    uint32_t c = classOf(want, &sz);
    Hdr* h;
    {
        Guard g;
        if (!ready) start();
        // first in, first out, and only once the list holds some blocks: reuse is late
        if (freeCount[c] > 24 || (freeCount[c] && sz > 65536)) {
            Node* b = freeHead[c];
            freeHead[c] = b->next;
            if (!freeHead[c]) freeTail[c] = nullptr;
            freeCount[c]--;
            h = (Hdr*)b - 1;
        }
        else {
            if (brk_ + sz + 16 > ARENA + ASIZE) { errno = ENOMEM; return nullptr; }
            h = (Hdr*)brk_;
            brk_ += sz + 16;
        }
        mark((uintptr_t)(h + 1), want, 1);
    }
    h->size = n; h->cls = c; h->magic = LIVE;
    void* p = h + 1;
    memset(p, sim::memFill, n < 65536 ? n : 65536);
    sim::sched::onMalloc(p, want);
    return p;
}
}
namespace sim { namespace alloc {
bool heapOk(const void* p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (a < ARENA || a >= ARENA + ASIZE) return true;
    uintptr_t e = a + n - 1;
    return *(uint8_t*)(SHADOW + (a - ARENA) / 16) && *(uint8_t*)(SHADOW + (e - ARENA) / 16);
}
}}
extern "C" {
void* malloc(size_t n) { return allocate(n); }
void free(void* p) {
    if (!p) return;
    Hdr* h = (Hdr*)p - 1;
    uintptr_t a = (uintptr_t)p;
    if (a < ARENA || a >= ARENA + ASIZE) sim::violation("bad-free", "free of a pointer that is not from the heap");
    if (h->magic == ALIGNED) { h->magic = FREED; mark((uintptr_t)p, 16, 0); p = (void*)h->size; h = (Hdr*)p - 1; }
    if (h->magic == FREED) sim::violation("double-free", "block of %zu bytes freed twice", size_t(h->size));
    if (h->magic != LIVE) sim::violation("bad-free", "free of a corrupted or interior pointer");
    size_t n = h->size;
    sim::sched::onFree(p, n);
    h->magic = FREED;
    memset(p, 0xDD, n < 65536 ? n : 65536);
    Guard g;
    mark((uintptr_t)p, n ? n : 1, 0);
    Node* b = (Node*)p;
    b->next = nullptr;
    uint32_t c = h->cls;
    if (freeTail[c]) freeTail[c]->next = b; else freeHead[c] = b;
    freeTail[c] = b;
    freeCount[c]++;
}
void* calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = allocate(n);
    if (p) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!n) { free(p); return nullptr; }
    Hdr* h = (Hdr*)p - 1;
    size_t o = h->size;
    void* q = malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
int posix_memalign(void** out, size_t al, size_t n) {
    if (al <= 16) { *out = malloc(n); return *out ? 0 : ENOMEM; }
    void* b = malloc(n + al + 32);
    if (!b) return ENOMEM;
    uintptr_t p = ((uintptr_t)b + 32 + al - 1) & ~(uintptr_t)(al - 1);
    Hdr* h = (Hdr*)p - 1;
    h->size = (uint64_t)b; h->cls = 0; h->magic = ALIGNED;
    *out = (void*)p;
    return 0;
}
void* memalign(size_t al, size_t n) { void* p = nullptr; return posix_memalign(&p, al, n) ? nullptr : p; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
void* valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }
}
#endif
