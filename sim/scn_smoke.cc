#include "core.h"
#include "sched.h"
#include <thread>
#include <mutex>
#include <future>
SCENARIO(SMOKE, nothing, 1) { sim::log("x %u", sim::gen(10)); }
SCENARIO(SMOKE, async, 1) {
    sim::sched::begin();
    int x = 0;
    auto f = std::async(std::launch::async, [&] { x = 5; });
    f.get();
    sim::sched::end();
    sim::log("%d", x);
}
