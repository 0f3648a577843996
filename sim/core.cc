// Run executor: forks one process per run, records tapes, classifies the outcome.
#include "core.h"
#include <cxxabi.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <algorithm>
#include <exception>
#include <map>
#include <set>
#include "raw.h"

namespace sim {

static constexpr uint32_t TAPE_MAX = 1 << 20;
static constexpr uint32_t TRACE_MAX = 1 << 18;
static constexpr uint32_t STATE_MAX = 4096;

struct Shared {
    // -- result
    volatile int status;              // 0 running, 1 ok, 2 violation, 3 harness error
    char cls[160];
    char msg[4096];
    uint64_t hash;
    uint64_t simTime;
    uint64_t steps;
    uint32_t n[NTAPES];
    uint32_t nstates;
    uint32_t ncounters;
    uint32_t traceLen;
    char scenario[64];
    struct { char name[56]; uint64_t n; } counters[192];
    uint64_t states[STATE_MAX];
    uint32_t tape[NTAPES][TAPE_MAX];
    char trace[TRACE_MAX];
};

static Shared* S;
static uint64_t prng[NTAPES];
static uint64_t theSeed;
static bool replaying, theVerbose, theThorough;
static std::vector<uint32_t> rtape[NTAPES];
uint8_t memFill = 0xCB;

static uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint32_t draw(Tape t, uint32_t n) {
    if (n == 0) harnessError("draw of 0");
    uint32_t i = S->n[t];
    if (i >= TAPE_MAX) return 0;  // a run that asks for more gets the simplest choice from there on
    uint32_t v;
    if (replaying) v = i < rtape[t].size() ? rtape[t][i] % n : 0;
    else v = uint32_t((splitmix(prng[t]) >> 11) % n);
    S->tape[t][i] = v;
    S->n[t] = i + 1;
    return v;
}

uint64_t fnv(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
void mixBytes(const void* p, size_t n) { S->hash = fnv(p, n, S->hash); }
void mix(uint64_t v) { mixBytes(&v, 8); }
static void append(const char* s, size_t n) {
    uint32_t l = S->traceLen;
    if (l + n + 2 >= TRACE_MAX) return;
    memcpy(S->trace + l, s, n);
    S->trace[l + n] = '\n';
    S->traceLen = l + n + 1;
    if (theVerbose) { raw_write(2, s, n); raw_write(2, "\n", 1); }
}
void log(const char* fmt, ...) {
    char b[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > int(sizeof b) - 1) n = sizeof b - 1;
    mixBytes(b, n);
    append(b, n);
}
void note(const char* fmt, ...) {
    char b[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > int(sizeof b) - 1) n = sizeof b - 1;
    append(b, n);
}
std::string strf(const char* fmt, ...) {
    char b[2048];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}
void violation(const char* cls, const char* fmt, ...) {
    if (S->status == 0) {
        va_list ap; va_start(ap, fmt);
        vsnprintf(S->msg, sizeof S->msg, fmt, ap);
        va_end(ap);
        snprintf(S->cls, sizeof S->cls, "%s", cls);
        S->status = 2;
        note("VIOLATION %s: %s", cls, S->msg);
    }
    _exit(3);
}
void harnessError(const char* fmt, ...) {
    if (S && S->status == 0) {
        va_list ap; va_start(ap, fmt);
        vsnprintf(S->msg, sizeof S->msg, fmt, ap);
        va_end(ap);
        snprintf(S->cls, sizeof S->cls, "harness");
        S->status = 3;
    }
    _exit(4);
}
void count(const char* name, uint64_t n) {
    for (uint32_t i = 0; i < S->ncounters; i++)
        if (!strncmp(S->counters[i].name, name, 55)) { S->counters[i].n += n; return; }
    if (S->ncounters >= 192) return;
    auto& c = S->counters[S->ncounters];
    snprintf(c.name, sizeof c.name, "%s", name);
    c.n = n;
    S->ncounters++;
}
void state(uint64_t sig) { if (S->nstates < STATE_MAX) S->states[S->nstates++] = sig; }
void advance(uint64_t ns) { if (S) S->simTime += ns; }
uint64_t now() { return S ? S->simTime : 0; }
uint64_t runSeed() { return theSeed; }
bool verbose() { return theVerbose; }
bool thorough() { return theThorough; }
static uint64_t stepLimit = 20000000;
void step(uint64_t n) {
    S->steps += n;
    if (S->steps > stepLimit) violation("no-progress", "more than %llu simulated I/O operations or scheduling steps", (unsigned long long)stepLimit);
}
void resetStep() { S->steps = 0; }

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

void* sharedAlloc(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
}

// ------------------------------------------------------------- crash capture
void symbols(void** a, int k, int skip, char* out, size_t n) {
    size_t l = 0;
    *out = 0;
    int shown = 0;
    for (int i = skip; i < k && shown < 14 && l + 160 < n; i++) {
        Dl_info d;
        const char* nm = nullptr;
        char* dem = nullptr;
        if (dladdr(a[i], &d) && d.dli_sname) {
            int st;
            dem = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
            nm = dem ? dem : d.dli_sname;
        }
        if (!nm) continue;
        if (!strncmp(nm, "std::", 5) || !strncmp(nm, "__", 2)) continue;
        char t[100];
        snprintf(t, sizeof t, "%s", nm);
        char* par = strchr(t, '(');
        if (par) *par = 0;
        l += snprintf(out + l, n - l, "%s%s", shown ? " < " : "", t);
        shown++;
        if (strstr(t, "scn_") == t) break;
    }
}
static void frames(char* out, size_t n, int skip) {
    void* a[40];
    int k = backtrace(a, 40);
    symbols(a, k, skip, out, n);
}
static void onSignal(int sig) {
    signal(sig, SIG_DFL);
    if (S->status == 0) {
        char b[1500] = "";
        frames(b, sizeof b, 2);
        violation(strf("crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "signal").c_str(), "at %s", b);
    }
    _exit(3);
}
static void onCpu(int) {
    if (S->status == 0) {
        char b[1500] = "";
        frames(b, sizeof b, 2);
        violation("hang", "20 s of CPU time used without finishing, at %s", b);
    }
    _exit(3);
}
static void onTerminate() {
    char b[1500] = "";
    std::string what = "no exception";
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (const std::exception& x) { what = x.what(); }
        catch (...) { what = "unknown exception"; }
    }
    frames(b, sizeof b, 2);
    violation("terminate", "std::terminate (%.200s) at %s", what.c_str(), b);
}
extern "C" void __asan_on_error() __attribute__((weak));
extern "C" void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak));
static void onAsan(const char* report) {
    char kind[80] = "asan";
    const char* p = strstr(report, "AddressSanitizer: ");
    if (p) {
        p += 18;
        int i = 0;
        while (p[i] && p[i] != ' ' && p[i] != '\n' && i < 70) { kind[i] = p[i]; i++; }
        kind[i] = 0;
    }
    const char* rw = strstr(report, "WRITE of size") ? " write" : strstr(report, "READ of size") ? " read" : "";
    char b[1500] = "";
    // function names from the report's first stack
    std::string fr;
    const char* q = report;
    int shown = 0;
    while ((q = strstr(q, " in ")) && shown < 10) {
        q += 4;
        const char* e = strchr(q, '\n');
        std::string l(q, e ? e - q : strlen(q));
        size_t par = l.find_first_of("( ");
        std::string nm = l.substr(0, par);
        if (nm.rfind("std::", 0) != 0 && nm.rfind("__", 0) != 0) { fr += (shown ? " < " : "") + nm.substr(0, 90); shown++; }
        if (nm.rfind("scn_", 0) == 0) break;
    }
    snprintf(b, sizeof b, "%s", fr.c_str());
    violation((std::string("asan:") + kind + rw).c_str(), "%s%s at %s", kind, rw, b);
}

// ------------------------------------------------------------- processes
int subprocess(const std::function<int()>& f, std::string* out) {
    int fd = -1;
    if (out) fd = memfd_create("out", 0);
    pid_t p = fork();
    if (p < 0) harnessError("fork: %s", strerror(errno));
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
        int rc = f();
        fflush(stdout);
        _exit(rc);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (out) {
        off_t n = raw_lseek(fd, 0, SEEK_END);
        if (n > 1 << 20) n = 1 << 20;
        out->resize(n);
        raw_lseek(fd, 0, SEEK_SET);
        ssize_t k = n ? raw_read(fd, &(*out)[0], n) : 0;
        out->resize(k < 0 ? 0 : k);
        raw_close(fd);
    }
    if (S->status >= 2) _exit(3);      // the child recorded a violation
    if (WIFSIGNALED(st)) return -WTERMSIG(st);
    return WEXITSTATUS(st);
}

static double wall() { timespec t; raw_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void initRunHooks();    // vfs + scheduler per-run reset

static void childMain(const Scenario& sc) {
    if (!theVerbose) {
        int n = open("/dev/null", O_RDWR);
        dup2(n, 0); dup2(n, 1);
        if (!getenv("SIM_STDERR")) dup2(n, 2);
    }
    signal(SIGPIPE, SIG_IGN);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = onSignal;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(s, &sa, nullptr);
    }
    std::set_terminate(onTerminate);
    signal(SIGXCPU, onCpu);
    struct rlimit rl{20, 25};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(onAsan);
    initRunHooks();
    sc.fn();
    if (S->status == 0) S->status = 1;
    _exit(0);
}

static double hangLimit = 150;     // backstop; CPU time (20 s) decides first

static void execute(const Scenario& sc, uint64_t seed, bool replay) {
    memset(S, 0, offsetof(Shared, states));
    S->hash = 1469598103934665603ull;
    snprintf(S->scenario, sizeof S->scenario, "%s", sc.name);
    theSeed = seed;
    replaying = replay;
    for (int t = 0; t < NTAPES; t++) prng[t] = seed * 0x9e3779b97f4a7c15ull + 0x1000003ull * (t + 1);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        childMain(sc);
    }
    setpgid(p, p);
    int st = 0;
    double t0 = wall();
    int spin = 0;
    for (;;) {
        int r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (wall() - t0 > hangLimit) {
            kill(-p, SIGKILL);
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            if (S->status == 0) {
                S->status = 2;
                snprintf(S->cls, sizeof S->cls, "hang");
                snprintf(S->msg, sizeof S->msg, "the run did not end within %g s of real time", hangLimit);
            }
            break;
        }
        timespec ts{0, spin < 50 ? 100000 : 1000000};
        spin++;
        raw_nanosleep(&ts, nullptr);
    }
    kill(-p, SIGKILL);
    if (S->status == 0) {
        S->status = 2;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            S->status = 3;
            snprintf(S->cls, sizeof S->cls, "harness");
            snprintf(S->msg, sizeof S->msg, "run was killed (memory?)");
        } else {
            snprintf(S->cls, sizeof S->cls, "died");
            snprintf(S->msg, sizeof S->msg, "the process ended without an answer (status 0x%x)", st);
        }
    }
}

static void jsonStr(std::string& o, const char* s, size_t n) {
    o += '"';
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    o += '"';
}
static std::string resultJson(const Scenario& sc, bool full) {
    std::string o = "{\"prop\":\"" + std::string(sc.prop) + "\",\"scenario\":\"" + sc.name + "\",\"seed\":" + std::to_string(theSeed);
    o += ",\"status\":" + std::to_string(S->status);
    char h[32];
    snprintf(h, sizeof h, "%016llx", (unsigned long long)S->hash);
    o += ",\"hash\":\"" + std::string(h) + "\",\"class\":";
    jsonStr(o, S->cls, strlen(S->cls));
    o += ",\"message\":";
    jsonStr(o, S->msg, strlen(S->msg));
    if (full) {
        o += ",\"tapes\":[";
        for (int t = 0; t < NTAPES; t++) {
            o += t ? ",[" : "[";
            uint32_t n = S->n[t];
            for (uint32_t i = 0; i < n; i++) { if (i) o += ','; o += std::to_string(S->tape[t][i]); }
            o += "]";
        }
        o += "],\"trace\":";
        jsonStr(o, S->trace, S->traceLen);
    }
    o += "}";
    return o;
}

static const Scenario* findScenario(const std::string& prop, const std::string& name) {
    for (auto& s : scenarios()) if (prop == s.prop && name == s.name) return &s;
    return nullptr;
}
static void emit(const std::string& s) { std::string t = s + "\n"; size_t o = 0; while (o < t.size()) { ssize_t k = raw_write(1, t.data() + o, t.size() - o); if (k <= 0) exit(2); o += k; } }

static bool readTapes(FILE* f) {
    for (int t = 0; t < NTAPES; t++) {
        unsigned n;
        if (fscanf(f, "%u", &n) != 1) return false;
        rtape[t].resize(n);
        for (auto& v : rtape[t]) if (fscanf(f, "%u", &v) != 1) return false;
    }
    return true;
}

int realMain(int argc, char** argv) {
    if (argc < 2) { fprintf(stderr, "usage: odcsim list | batch PROP FIRST STRIDE MAXRUNS SECONDS | serve PROP | run PROP SCENARIO SEED\n"); return 2; }
    std::string mode = argv[1];
    theThorough = getenv("SIM_TIER") && !strcmp(getenv("SIM_TIER"), "thorough");
    S = (Shared*)sharedAlloc(sizeof(Shared));
    if (mode == "list") {
        for (auto& s : scenarios()) printf("%s %s %d\n", s.prop, s.name, s.weight);
        return 0;
    }
    std::string prop = argc > 2 ? argv[2] : "";
    if (mode == "run") {
        theVerbose = true;
        const Scenario* sc = findScenario(prop, argv[3]);
        if (!sc) return 2;
        execute(*sc, strtoull(argv[4], nullptr, 10), false);
        emit(resultJson(*sc, false));
        return S->status == 1 ? 0 : 1;
    }
    if (mode == "serve") {          // lines: SCENARIO SEED|- full tapes...   (from stdin)
        theVerbose = getenv("SIM_VERBOSE") != nullptr;
        char name[128], what[64];
        while (scanf("%127s %63s", name, what) == 2) {
            const Scenario* sc = findScenario(prop, name);
            if (!sc) { emit("{\"error\":\"no scenario\"}"); continue; }
            if (what[0] == '-') { if (!readTapes(stdin)) break; execute(*sc, 0, true); }
            else execute(*sc, strtoull(what, nullptr, 10), false);
            emit(resultJson(*sc, true));
        }
        return 0;
    }
    if (mode == "batch") {
        uint64_t first = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10), maxRuns = strtoull(argv[5], nullptr, 10);
        double secs = atof(argv[6]);
        uint64_t recheck = argc > 7 ? strtoull(argv[7], nullptr, 10) : 0;   // every Nth run twice
        std::string only = argc > 8 ? argv[8] : "";
        std::vector<const Scenario*> sel;
        for (auto& s : scenarios()) if (prop == s.prop && (only.empty() || only == s.name)) for (int i = 0; i < s.weight; i++) sel.push_back(&s);
        if (sel.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
        // interleave so that a short batch meets every scenario
        std::stable_sort(sel.begin(), sel.end(), [&](const Scenario* a, const Scenario* b) { return false; });
        double t0 = wall();
        std::map<std::string, uint64_t> cnt, perScn;
        std::set<uint64_t> states;
        std::map<std::string, int> classes;
        uint64_t runs = 0, nondet = 0, rechecked = 0, harness = 0, draws[NTAPES] = {0, 0, 0};
        double simTime = 0;
        uint64_t maxSteps = 0;
        for (uint64_t i = 0; i < maxRuns && wall() - t0 < secs; i++) {
            uint64_t seed = first + i * stride;
            const Scenario* sc = sel[seed % sel.size()];
            execute(*sc, seed, false);
            runs++;
            perScn[sc->name]++;
            simTime += S->simTime * 1e-9;
            if (S->steps > maxSteps) maxSteps = S->steps;
            for (int t = 0; t < NTAPES; t++) draws[t] += S->n[t];
            for (uint32_t k = 0; k < S->ncounters; k++) cnt[S->counters[k].name] += S->counters[k].n;
            for (uint32_t k = 0; k < S->nstates; k++) states.insert(fnv(sc->name, strlen(sc->name), S->states[k]));
            if (S->status == 3) { harness++; if (harness < 4) emit(resultJson(*sc, false)); continue; }
            if (S->status == 2) {
                int& c = classes[std::string(sc->name) + S->cls + std::string(S->msg).substr(0, 60)];
                if (++c <= 3) emit(resultJson(*sc, false));
                continue;
            }
            if (recheck && runs % recheck == 0) {
                uint64_t h = S->hash;
                execute(*sc, seed, false);
                rechecked++;
                if (S->status != 1 || S->hash != h) { nondet++; emit("{\"nondet\":" + std::to_string(seed) + ",\"scenario\":\"" + sc->name + "\"}"); }
            }
        }
        std::string o = "{\"summary\":1,\"runs\":" + std::to_string(runs) + ",\"rechecked\":" + std::to_string(rechecked) + ",\"nondet\":" + std::to_string(nondet) + ",\"harness\":" + std::to_string(harness);
        o += ",\"seconds\":" + std::to_string(wall() - t0) + ",\"simtime\":" + std::to_string(simTime) + ",\"maxsteps\":" + std::to_string(maxSteps);
        o += ",\"draws\":[" + std::to_string(draws[0]) + "," + std::to_string(draws[1]) + "," + std::to_string(draws[2]) + "]";
        o += ",\"scenarios\":{";
        bool f = true;
        for (auto& c : perScn) { o += (f ? "\"" : ",\"") + c.first + "\":" + std::to_string(c.second); f = false; }
        o += "},\"counters\":{";
        f = true;
        for (auto& c : cnt) { if (!f) o += ','; jsonStr(o, c.first.data(), c.first.size()); o += ":" + std::to_string(c.second); f = false; }
        o += "},\"states\":[";
        f = true;
        size_t lim = 0;
        for (auto s : states) { if (lim++ > 200000) break; if (!f) o += ','; o += std::to_string(s & 0xffffffffffffull); f = false; }
        o += "]}";
        emit(o);
        return 0;
    }
    return 2;
}
}  // namespace sim

int main(int argc, char** argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    return sim::realMain(argc, argv);
}
