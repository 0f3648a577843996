#include "sched.h"
#include "core.h"
#include "alloc.h"
#include "raw.h"
#include <stdlib.h>
#include <string.h>

#ifndef SIM_SCHED
namespace sim { namespace sched {
void reset() {}
bool available() { return false; }
void begin() {}
void end() {}
void point() {}
void touch(const void*, bool, const char*) {}
int self() { return 0; }
uint64_t switches() { return 0; }
uint64_t signature() { return 0; }
void onMalloc(void*, size_t) {}
void onFree(void*, size_t) {}
void spawn(void (*f)(void*), void* a) { f(a); }
void joinAll() {}
void failCreate(int) {}
uint64_t createRefused() { return 0; }
void idle(const char*) {}
}}
#else
#include <dlfcn.h>
namespace __cxxabiv1 { extern "C" char* __cxa_demangle(const char*, char*, size_t*, int*); }
namespace abi = __cxxabiv1;
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <atomic>
#include <exception>

// Real pthread threads, of which exactly one runs at any time. Who runs next is drawn from the
// SCHED tape at preemption points: every instrumented memory access, atomic operation, lock,
// condition variable, once, guard, futex, thread start, join and simulated I/O operation.
namespace sim { namespace sched {

static constexpr int MAXT = 48;
struct VC { uint32_t c[MAXT]; };
enum St { UNUSED, RUNNABLE, BLOCKED, FINISHED, JOINED };
struct Thread {
    volatile int go;
    int st;
    const void* on;             // what it is blocked on
    int why;                    // 'm' mutex, 'c' cond, 'f' futex, 'j' join, 'o' once, 'g' guard
    bool timed, timedOut, woken;
    VC vc;
    VC endVc;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    int prio;
    bool detached;
    void* stack;
    int depth;
};
static Thread T[MAXT];
static int nT;
static volatile bool active;
static int cur;
static __thread int tlsSelf = -1;
static int reap = -1;           // a finished thread whose real exit the next thread must wait for
static uint64_t nswitch, sig;
static uint64_t countdown;
static int strategy;
static uint32_t meanGap;
static int pctLeft;
static int lowPrio;
static uint64_t steps;
static uint64_t spawned;

bool available() { return true; }
int self() { return tlsSelf < 0 ? 0 : tlsSelf; }
uint64_t switches() { return nswitch; }
uint64_t signature() { return sig; }

static void fwait(volatile int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) raw_syscall6(SYS_futex, (long)a, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
static void fwake(volatile int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); raw_syscall6(SYS_futex, (long)a, FUTEX_WAKE, 1, 0, 0, 0); }

// ------------------------------------------------------------ sync objects (address -> clock and owner)
struct Sync { const void* p; VC vc; int owner; int rec; int state; };
static constexpr int NSYNC = 1 << 14;
static Sync* syncs;
static int nsync;
static Sync* syncOf(const void* p) {
    uint64_t h = (uint64_t(p) >> 3) * 0x9e3779b97f4a7c15ull >> 50;
    for (int i = 0; i < NSYNC; i++) {
        Sync& s = syncs[(h + i) & (NSYNC - 1)];
        if (s.p == p) return &s;
        if (!s.p) {
            if (++nsync > NSYNC - 100) harnessError("too many synchronisation objects");
            s.p = p; s.owner = -1; s.rec = 0; s.state = 0;
            memset(&s.vc, 0, sizeof s.vc);
            return &s;
        }
    }
    abort();
}
static void join(VC& a, const VC& b) { for (int i = 0; i < nT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acquire(Sync* s) { join(T[cur].vc, s->vc); }
static void release(Sync* s) { join(s->vc, T[cur].vc); T[cur].vc.c[cur]++; }

// ------------------------------------------------------------ choosing who runs
static void drawGap() {
    switch (strategy) {
        case 0: countdown = ~0ull; break;
        case 1: case 3: {
            uint32_t g = draw(SCHED, meanGap);
            countdown = g == 0 ? ~0ull : g;
            if (strategy == 1 && g == 0 && meanGap < 16) countdown = meanGap;
            break;
        }
        case 2: {
            if (pctLeft <= 0) { countdown = ~0ull; break; }
            pctLeft--;
            uint32_t g = draw(SCHED, meanGap);
            countdown = g == 0 ? ~0ull : g;
            break;
        }
    }
}
static int runnable(int* out) { int n = 0; for (int i = 0; i < nT; i++) if (T[i].st == RUNNABLE) out[n++] = i; return n; }
static int choose(bool others) {          // others: prefer someone else than cur
    int r[MAXT];
    int n = runnable(r);
    if (n == 0) return -1;
    if (strategy == 2) {
        int b = r[0];
        for (int i = 1; i < n; i++) if (T[r[i]].prio > T[b].prio) b = r[i];
        return b;
    }
    int m = 0, q[MAXT];
    for (int i = 0; i < n; i++) if (!others || r[i] != cur) q[m++] = r[i];
    if (m == 0) return r[0];
    if (m == 1) return q[0];
    return q[draw(SCHED, m)];
}
static void switchTo(int t) {
    if (t == cur) return;
    int me = cur;
    nswitch++;
    sig = (sig ^ uint64_t(t + 1)) * 1099511628211ull;
    sig = (sig ^ steps) * 1099511628211ull;
    mix(sig);
    cur = t;
    fwake(&T[t].go);
    fwait(&T[me].go);
    if (reap >= 0) { int x = reap; reap = -1; T[x].st = T[x].st == FINISHED ? FINISHED : T[x].st; static auto rj = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); rj(T[x].real, nullptr); }
}
static void deadlock() {
    char b[800];
    int l = 0;
    for (int i = 0; i < nT; i++)
        if (T[i].st == BLOCKED) l += snprintf(b + l, sizeof b - l, " thread %d waits for %s;", i, T[i].why == 'm' ? "a mutex" : T[i].why == 'c' ? "a condition" : T[i].why == 'j' ? "another thread to end" : T[i].why == 'f' ? "a futex" : "initialisation");
    violation("deadlock", "no thread can run:%s", b);
}
static void block(const void* on, int why, bool timed = false) {
    Thread& me = T[cur];
    me.st = BLOCKED; me.on = on; me.why = why; me.timed = timed; me.timedOut = false;
    int t = choose(true);
    if (t < 0) {
        // nobody can run: the clock advances to the first timed wait
        for (int i = 0; i < nT; i++) if (T[i].st == BLOCKED && T[i].timed) { T[i].st = RUNNABLE; T[i].timedOut = true; advance(1000000000ull); t = i; break; }
        if (t < 0) deadlock();
    }
    if (t == cur) { return; }
    switchTo(t);
}
static void wake(const void* on, int why, int n) { for (int i = 0; i < nT && n > 0; i++) if (T[i].st == BLOCKED && T[i].on == on && T[i].why == why) { T[i].st = RUNNABLE; n--; } }
static void preempt() {
    drawGap();
    if (strategy == 2) T[cur].prio = --lowPrio;
    int t = choose(true);
    if (t >= 0 && t != cur) switchTo(t);
}
static inline void tick() {
    steps++;
    if ((steps & 0xfff) == 0) { step(1); if (steps > 400000000ull) violation("no-progress", "more than 4e8 memory accesses"); }
    if (--countdown == 0) preempt();
}
static inline void syncTick() {
    steps++;
    if ((steps & 0xff) == 0) step(1);
    if (strategy == 3) { int r[MAXT]; if (runnable(r) > 1 && draw(SCHED, 2)) { int t = choose(true); if (t >= 0) switchTo(t); } return; }
    if (--countdown == 0) preempt();
}

// ------------------------------------------------------------ race detector
struct Cell { uint32_t epoch; uint16_t tid; uint8_t off, size; uint8_t write, atomic; uint16_t pad; const void* pc; const char* what; };
struct Gran { uint64_t a; Cell c[4]; uint8_t next; };
static constexpr uint64_t NG = 1 << 19;
static Gran* grans;
static uint64_t ngr;
static bool full;
static Gran* granOf(uint64_t a, bool make) {
    uint64_t h = a * 0x9e3779b97f4a7c15ull >> 45;
    for (uint64_t i = 0; i < NG; i++) {
        Gran& g = grans[(h + i) & (NG - 1)];
        if (g.a == a) return &g;
        if (!g.a) {
            if (!make) return nullptr;
            if (ngr > NG * 3 / 4) { full = true; return nullptr; }
            ngr++;
            g.a = a;
            return &g;
        }
    }
    return nullptr;
}
static std::string symbol(const void* pc) {
    Dl_info d;
    if (pc && dladdr(pc, &d) && d.dli_sname) {
        int st;
        char* m = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
        std::string s = m ? m : d.dli_sname;
        size_t p = s.find('(');
        return s.substr(0, p < 110 ? p : 110);
    }
    return "?";
}
static void race(uint64_t a, const Cell& old, bool w, const void* pc, const char* what) {
    active = false;
    std::string x = old.what ? old.what : symbol(old.pc), y = what ? what : symbol(pc);
    std::string k1 = std::string(old.write ? "write" : "read") + " in " + x, k2 = std::string(w ? "write" : "read") + " in " + y;
    if (k2 < k1) std::swap(k1, k2);
    violation("race", "unordered accesses: %s | %s", k1.c_str(), k2.c_str());
}
static inline void access1(uint64_t a, unsigned off, unsigned size, bool w, bool at, const void* pc, const char* what) {
    Gran* g = granOf(a, true);
    if (!g) return;
    VC& v = T[cur].vc;
    int slot = -1;
    for (int i = 0; i < 4; i++) {
        Cell& c = g->c[i];
        if (!c.epoch) { if (slot < 0) slot = i; continue; }
        bool overlap = c.off < off + size && off < unsigned(c.off) + c.size;
        if (c.tid == cur) {
            if (c.off == off && c.size == size && c.write == w && c.atomic == at) slot = i;
            continue;
        }
        if (!overlap || !(w || c.write) || (at && c.atomic)) continue;
        if (c.epoch > v.c[c.tid]) race(a << 3, c, w, pc, what);
    }
    if (slot < 0) {
        // drop a cell that is ordered before us, else rotate
        for (int i = 0; i < 4; i++) if (g->c[i].epoch <= v.c[g->c[i].tid] && (g->c[i].tid == cur || w)) { slot = i; break; }
        if (slot < 0) { slot = g->next & 3; g->next++; }
    }
    Cell& c = g->c[slot];
    c.epoch = v.c[cur]; c.tid = cur; c.off = off; c.size = size; c.write = w; c.atomic = at; c.pc = pc; c.what = what;
}
static inline void access(const void* p, size_t n, bool w, bool at, const void* pc, const char* what = nullptr) {
    uint64_t a = (uint64_t)p;
    if (n > 8192) {               // long copies: both ends and a sample of the middle would miss races; walk it all
    }
    while (n) {
        unsigned off = a & 7;
        unsigned k = 8 - off < n ? 8 - off : n;
        access1(a >> 3, off, k, w, at, pc, what);
        a += k; n -= k;
    }
}
static bool multi() { int n = 0; for (int i = 0; i < nT; i++) if (T[i].st == RUNNABLE || T[i].st == BLOCKED) n++; return n > 1; }
static bool parallel;             // more than one live thread
static inline bool on() { return __builtin_expect(active, 0); }

void onMalloc(void* p, size_t n) {
    if (!on() || tlsSelf != cur) return;
    uint64_t a = (uint64_t)p >> 3, e = ((uint64_t)p + n + 7) >> 3;
    for (; a < e; a++) if (Gran* g = granOf(a, false)) memset(g->c, 0, sizeof g->c);
    // the allocator orders the earlier free before this allocation; contents start undefined
}
void onFree(void* p, size_t n) {
    if (!on() || !parallel || tlsSelf != cur) return;
    size_t k = n < 16384 ? n : 16384;
    uint64_t a = (uint64_t)p;
    if (!k) return;
    // only granules already known matter
    VC& v = T[cur].vc;
    for (uint64_t g = a >> 3; g < (a + k + 7) >> 3; g++)
        if (Gran* q = granOf(g, false))
            for (auto& c : q->c)
                if (c.epoch && c.tid != cur && c.epoch > v.c[c.tid]) race(g << 3, c, true, __builtin_return_address(0), "freeing the object");
}
void touch(const void* p, bool w, const char* what) { if (on() && tlsSelf == cur) { tick(); if (parallel) access(p, 1, w, false, nullptr, what); } }
void point() { if (on() && tlsSelf == cur) syncTick(); }

static void access(void*);
static inline void mem(const void* p, size_t n, bool w, const void* pc) {
    if (tlsSelf != cur) return;
    if (!alloc::heapOk(p, n)) { active = false; violation("heap-misuse", "%s of %zu bytes outside any live heap block in %s", w ? "write" : "read", n, symbol(pc).c_str()); }
    if (!parallel) return;
    tick();
    access(p, n, w, false, pc);
}

// ------------------------------------------------------------ threads
static void refreshParallel() { parallel = multi(); }
static int (*realCreate)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static char* stacks;
static constexpr size_t STACK = 1 << 20;

static void threadEnd(int id) {
    Thread& t = T[id];
    t.endVc = t.vc;
    t.st = FINISHED;
    wake(&t, 'j', MAXT);
    refreshParallel();
    int n = choose(true);
    if (n < 0) {
        for (int i = 0; i < nT; i++) if (T[i].st == BLOCKED && T[i].timed) { T[i].st = RUNNABLE; T[i].timedOut = true; n = i; break; }
        if (n < 0) deadlock();
    }
    nswitch++;
    sig = (sig ^ uint64_t(n + 1)) * 1099511628211ull;
    if (reap >= 0) harnessError("two threads to reap");
    reap = id;
    cur = n;
    tlsSelf = -1;
    fwake(&T[n].go);
}
static void* trampoline(void* a) {
    int id = int((intptr_t)a);
    fwait(&T[id].go);
    tlsSelf = id;
    if (reap >= 0) { int x = reap; reap = -1; static auto rj = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); rj(T[x].real, nullptr); }
    T[id].ret = T[id].fn(T[id].arg);
    threadEnd(id);
    return nullptr;
}
static int refuseAt = -1;
static uint64_t refused;
void failCreate(int at) { refuseAt = at; refused = 0; }
uint64_t createRefused() { return refused; }
void idle(const char* when) {
    for (int i = 0; i < nT; i++)
        if (i != cur && (T[i].st == RUNNABLE || T[i].st == BLOCKED)) { active = false; violation("thread-left-running", "thread %d is still alive after %s", i, when); }
}
static int create(pthread_t* out, void* (*fn)(void*), void* arg) {
    if (refuseAt >= 0 && refuseAt-- == 0) { refused++; count("thread creation refused"); return EAGAIN; }
    int id = nT;
    if (id >= MAXT) for (id = 1; id < MAXT && T[id].st != JOINED; id++) ;
    if (id >= MAXT) harnessError("too many threads at once");
    if (id == nT) nT++;
    Thread& t = T[id];
    uint32_t epoch = t.endVc.c[id];      // a slot used again goes on counting
    memset((void*)&t, 0, sizeof t);
    t.fn = fn; t.arg = arg;
    t.vc = T[cur].vc;
    t.vc.c[id] = epoch + 1;
    T[cur].vc.c[cur]++;
    t.prio = strategy == 2 ? int(draw(SCHED, 1000)) + 1 : 0;
    t.st = RUNNABLE;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stacks + STACK * id, STACK);
    if (!realCreate) realCreate = (decltype(realCreate))dlsym(RTLD_NEXT, "pthread_create");
    int rc = realCreate(&t.real, &at, trampoline, (void*)(intptr_t)id);
    pthread_attr_destroy(&at);
    if (rc) harnessError("pthread_create: %d", rc);
    *out = t.real;
    refreshParallel();
    spawned++;
    if (strategy == 2) { int n = choose(false); if (n != cur) switchTo(n); }
    else syncTick();
    return 0;
}
static int byReal(pthread_t r) { for (int i = nT - 1; i >= 0; i--) if (T[i].st != UNUSED && T[i].st != JOINED && T[i].real == r) return i; return -1; }
static int joinThread(int id, void** ret) {
    while (T[id].st != FINISHED) block(&T[id], 'j');
    join(T[cur].vc, T[id].endVc);
    T[id].st = JOINED;
    if (ret) *ret = T[id].ret;
    return 0;
}

void reset() {
    if (!syncs) {
        syncs = (Sync*)mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        grans = (Gran*)mmap(nullptr, sizeof(Gran) * NG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        stacks = (char*)mmap((void*)0x220000000000ull, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    active = false;
    nT = 0;
    memset((void*)T, 0, sizeof T);
    nswitch = 0;
    sig = 1469598103934665603ull;
    steps = 0;
}
void begin() {
    if (active) harnessError("sched::begin twice");
    if (!nT) {
        nT = 1;
        memset((void*)&T[0], 0, sizeof T[0]);
        T[0].real = pthread_self();
    }
    T[0].st = RUNNABLE;
    T[0].vc.c[0]++;
    cur = 0;
    tlsSelf = 0;
    static const uint32_t gaps[] = {4, 8, 30, 100, 400, 2000, 10000, 50000};
    strategy = draw(SCHED, 4);
    meanGap = gaps[draw(SCHED, 8)];
    pctLeft = 0;
    lowPrio = 0;
    if (strategy == 2) { pctLeft = 1 + draw(SCHED, 4); T[0].prio = int(draw(SCHED, 1000)) + 1; }
    drawGap();
    active = true;
    refreshParallel();
    log("sched strategy %d gap %u", strategy, meanGap);
}
void end() {
    for (int i = 1; i < nT; i++) if (T[i].st == RUNNABLE || T[i].st == BLOCKED) { active = false; violation("thread-left-running", "thread %d is still alive after the operation returned", i); }
    if (reap >= 0) { int x = reap; reap = -1; static auto rj = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); rj(T[x].real, nullptr); }
    active = false;
    log("sched switches %llu", (unsigned long long)nswitch);
    count("sched.switches", nswitch);
    count("sched.threads", spawned);
    count(strategy == 0 ? "sched.strategy.run-until-block" : strategy == 1 ? "sched.strategy.random-gap" : strategy == 2 ? "sched.strategy.priority-change" : "sched.strategy.sync-points");
    if (full) count("probe.race-table-full");
    spawned = 0;
}

struct Client { void (*f)(void*); void* a; pthread_t t; };
static Client clients[MAXT];
static int nclients;
static void* clientMain(void* p) { Client* c = (Client*)p; c->f(c->a); return nullptr; }
void spawn(void (*f)(void*), void* a) {
    Client& c = clients[nclients++];
    c.f = f; c.a = a;
    if (create(&c.t, clientMain, &c)) harnessError("spawn");
}
void joinAll() { for (int i = 0; i < nclients; i++) { int id = byReal(clients[i].t); if (id < 0) harnessError("join"); joinThread(id, nullptr); } nclients = 0; }

}}  // namespace

using namespace sim::sched;
namespace alloc = sim::alloc;
#define ME (on() && tlsSelf == cur)
#define RET __builtin_return_address(0)

extern "C" {
// ------------------------------------------------------------ pthread seams
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    if (ME) return create(t, f, arg);
    if (!realCreate) realCreate = (decltype(realCreate))dlsym(RTLD_NEXT, "pthread_create");
    return realCreate(t, a, f, arg);
}
int pthread_join(pthread_t t, void** r) {
    if (ME) { int id = byReal(t); if (id >= 0) { syncTick(); return joinThread(id, r); } return ESRCH; }
    static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
    return real(t, r);
}
int pthread_detach(pthread_t t) {
    if (ME) { int id = byReal(t); if (id >= 0) T[id].detached = true; return 0; }
    static auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
    return real(t);
}
static int lockMutex(pthread_mutex_t* m, bool tryOnly) {
    Sync* s = syncOf(m);
    syncTick();
    int kind = m->__data.__kind & 3;
    for (;;) {
        if (s->owner < 0) { s->owner = cur; s->rec = 1; acquire(s); return 0; }
        if (s->owner == cur) {
            if (kind == PTHREAD_MUTEX_RECURSIVE) { s->rec++; return 0; }
            if (kind == PTHREAD_MUTEX_ERRORCHECK) return tryOnly ? EBUSY : EDEADLK;
            if (tryOnly) return EBUSY;
            active = false;
            sim::violation("deadlock", "a thread locks a mutex it already holds, in %s", symbol(__builtin_return_address(1)).c_str());
        }
        if (tryOnly) return EBUSY;
        block(m, 'm');
    }
}
static int unlockMutex(pthread_mutex_t* m) {
    Sync* s = syncOf(m);
    if (s->owner == cur) {
        if (--s->rec == 0) { release(s); s->owner = -1; wake(m, 'm', MAXT); syncTick(); }
        return 0;
    }
    if (s->owner >= 0) return EPERM;
    static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    return real(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (ME) return lockMutex(m, false);
    static int (*real)(pthread_mutex_t*);
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (ME) return lockMutex(m, true);
    static int (*real)(pthread_mutex_t*);
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (ME) return unlockMutex(m);
    static int (*real)(pthread_mutex_t*);
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    return real(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
    if (ME) { Sync* s = syncOf(m); s->owner = -1; s->rec = 0; memset(&s->vc, 0, sizeof s->vc); return 0; }
    static int (*real)(pthread_mutex_t*);
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_mutex_destroy");
    return real(m);
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    Sync* s = syncOf(m);
    int rec = s->rec;
    release(s);
    s->owner = -1;
    wake(m, 'm', MAXT);
    block(c, 'c', timed);
    bool to = T[cur].timedOut;
    acquire(syncOf(c));
    while (s->owner >= 0) block(m, 'm');
    s->owner = cur; s->rec = rec;
    acquire(s);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (ME) return condWait(c, m, false); static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait"); return real(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (ME) return condWait(c, m, true); static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*))dlsym(RTLD_NEXT, "pthread_cond_timedwait"); return real(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (ME) return condWait(c, m, true); static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait"); return real(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (ME) { release(syncOf(c)); wake(c, 'c', 1); syncTick(); return 0; } static auto real = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_signal"); return real(c); }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (ME) { release(syncOf(c)); wake(c, 'c', MAXT); syncTick(); return 0; } static auto real = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_broadcast"); return real(c); }

int pthread_once(pthread_once_t* o, void (*f)()) {
    if (ME) {
        Sync* s = syncOf(o);
        syncTick();
        for (;;) {
            if (*o == 2) { acquire(s); return 0; }
            if (s->owner < 0) break;
            block(o, 'o');
        }
        s->owner = cur;
        try { f(); }
        catch (...) { s->owner = -1; wake(o, 'o', MAXT); throw; }
        s->owner = -1;
        *o = 2;
        release(s);
        wake(o, 'o', MAXT);
        return 0;
    }
    static int (*real)(pthread_once_t*, void (*)());
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_once");
    return real(o, f);
}
long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && ME) {
        int op = int(b) & 0x7f;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            syncTick();
            if (__atomic_load_n((int*)a, __ATOMIC_ACQUIRE) != int(c)) { errno = EAGAIN; return -1; }
            block((void*)a, 'f', d != 0);
            if (T[cur].timedOut) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake((void*)a, 'f', int(c) > MAXT || int(c) < 0 ? MAXT : int(c)); syncTick(); return 0; }
    }
    long r = raw_syscall6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = int(-r); return -1; }
    return r;
}
int sched_yield() noexcept { if (ME) { int t = choose(true); if (t >= 0 && t != cur) switchTo(t); return 0; } return raw_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }

// static-local initialisation
int __cxa_guard_acquire(uint64_t* g) {
    if (__atomic_load_n((uint8_t*)g, __ATOMIC_ACQUIRE)) { if (ME) acquire(syncOf(g)); return 0; }
    if (ME) {
        Sync* s = syncOf(g);
        syncTick();
        for (;;) {
            if (*(uint8_t*)g) { acquire(s); return 0; }
            if (s->owner < 0) { s->owner = cur; return 1; }
            if (s->owner == cur) { active = false; sim::violation("deadlock", "recursive initialisation of a static"); }
            block(g, 'g');
        }
    }
    if (((uint8_t*)g)[1]) abort();
    ((uint8_t*)g)[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    ((uint8_t*)g)[1] = 0;
    if (ME) { Sync* s = syncOf(g); s->owner = -1; release(s); __atomic_store_n((uint8_t*)g, 1, __ATOMIC_RELEASE); wake(g, 'g', MAXT); return; }
    __atomic_store_n((uint8_t*)g, 1, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(uint64_t* g) {
    ((uint8_t*)g)[1] = 0;
    if (ME) { Sync* s = syncOf(g); s->owner = -1; wake(g, 'g', MAXT); }
}

// ------------------------------------------------------------ compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { if (on()) mem(p, n, false, RET); } \
    void __tsan_write##n(void* p) { if (on()) mem(p, n, true, RET); } \
    void __tsan_unaligned_read##n(void* p) { if (on()) mem(p, n, false, RET); } \
    void __tsan_unaligned_write##n(void* p) { if (on()) mem(p, n, true, RET); } \
    void __tsan_read_write##n(void* p) { if (on()) mem(p, n, true, RET); } \
    void __tsan_unaligned_read_write##n(void* p) { if (on()) mem(p, n, true, RET); } \
    void __tsan_volatile_read##n(void* p) { if (on()) mem(p, n, false, RET); } \
    void __tsan_volatile_write##n(void* p) { if (on()) mem(p, n, true, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (on()) mem(p, n, false, RET); }
void __tsan_write_range(void* p, unsigned long n) { if (on()) mem(p, n, true, RET); }
void __tsan_vptr_update(void** p, void* v) { if (on() && *p != v) mem(p, 8, true, RET); }
void __tsan_vptr_read(void** p) { if (on()) mem(p, 8, false, RET); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (on() && n) { mem(s, n, false, RET); mem(d, n, true, RET); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (on() && n) { mem(s, n, false, RET); mem(d, n, true, RET); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { if (on() && n) mem(d, n, true, RET); return memset(d, v, n); }

static inline void atBefore(const void* p, size_t n, bool w, int mo, const void* pc) {
    if (!(on() && tlsSelf == cur)) return;
    if (!alloc::heapOk(p, n)) { active = false; sim::violation("heap-misuse", "atomic access outside any live heap block in %s", symbol(pc).c_str()); }
    if (!parallel) return;
    syncTick();
    access(p, n, w, true, pc);
}
static inline void acq(const void* p, int mo) { if (on() && tlsSelf == cur && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire(syncOf(p)); }
static inline void rel(const void* p, int mo) { if (on() && tlsSelf == cur && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) release(syncOf(p)); }
#define AT(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty* p, int mo) { atBefore((void*)p, sizeof(ty), false, mo, RET); ty v = __atomic_load_n(p, __ATOMIC_SEQ_CST); acq((void*)p, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile ty* p, ty v, int mo) { atBefore((void*)p, sizeof(ty), true, mo, RET); rel((void*)p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int mo) { atBefore((void*)p, sizeof(ty), true, mo, RET); rel((void*)p, mo); ty r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); acq((void*)p, mo); return r; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty* p, ty v, int mo) { atBefore((void*)p, sizeof(ty), true, mo, RET); rel((void*)p, mo); ty r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); acq((void*)p, mo); return r; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty* p, ty v, int mo) { atBefore((void*)p, sizeof(ty), true, mo, RET); rel((void*)p, mo); ty r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); acq((void*)p, mo); return r; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty* p, ty v, int mo) { atBefore((void*)p, sizeof(ty), true, mo, RET); rel((void*)p, mo); ty r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); acq((void*)p, mo); return r; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty* p, ty v, int mo) { atBefore((void*)p, sizeof(ty), true, mo, RET); rel((void*)p, mo); ty r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); acq((void*)p, mo); return r; } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty* p, ty v, int mo) { atBefore((void*)p, sizeof(ty), true, mo, RET); rel((void*)p, mo); ty r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); acq((void*)p, mo); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int mo, int fo) { atBefore((void*)p, sizeof(ty), true, mo, RET); rel((void*)p, mo); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); acq((void*)p, ok ? mo : fo); return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int mo, int fo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fo); } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* p, ty e, ty v, int mo, int fo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
#endif
