// One drawn way of running out of memory, repeated so that what leaks shows.
#pragma once
#include <string>
#include "alloc.h"
#include "core.h"
struct Starve {
    enum { REPS = 4 };
    uint64_t at = 0, times = 1;
    bool possible = false;
    std::string describe;
    size_t left[REPS] = {0};
    int rep = 0;
    // n: the allocations a run without failures makes
    Starve() {}
    explicit Starve(uint64_t n) {
        if (n == 0) return;
        possible = true;
        at = sim::alloc::pick(n);
        static const uint64_t t[] = {1, 1, 2, 3, 5, 1ull << 40};
        times = t[sim::flt(6)];
        describe = sim::strf("allocation %llu of %llu fails%s", (unsigned long long)at, (unsigned long long)n, times == 1 ? "" : times > 100 ? ", and all after it" : sim::strf(", and %llu after it", (unsigned long long)times - 1).c_str());
    }
    struct Armed {
        explicit Armed(const Starve& s) { sim::alloc::track(true, s.rep > 1); sim::alloc::arm(s.at, s.times); }
        ~Armed() { sim::alloc::disarm(); }
    };
    // everything made in repetition i has been destroyed
    void repeated(int i) { left[i] = sim::alloc::tracked(); rep++; }
    // the third and fourth only if the second left more behind than the first
    bool again(int i) const { return i < (rep < 2 || left[1] > left[0] ? REPS : 2); }
    void done(uint64_t met, bool error) {
        sim::count(met == 0 ? "not-met" : error ? "reported" : "survived");
        // eckit's SQL engine forgets objects it is handed if its lists cannot grow
        std::string where = sim::alloc::failedText();
        sim::log("%s", where.c_str());
        bool eckits = where.find("eckit::sql::SQLDatabase::addImplicitTable") != std::string::npos || where.find("eckit::sql::SQLSelect::prepareExecute") != std::string::npos;
        if (!eckits && left[1] < left[2] && left[2] < left[3]) sim::violation("leak", "%s (%s); the blocks left after each repetition: %zu, %zu, %zu, %zu (%s)", describe.c_str(), where.c_str(), left[0], left[1], left[2], left[3], sim::alloc::trackedText().c_str());
        sim::alloc::track(false);
    }
};
