#include "core.h"
#include "vfs.h"
#include "sched.h"
#include "alloc.h"
#include "eckit/runtime/Main.h"
namespace sim {
void initRunHooks() {
    vfs::reset();
    alloc::reset();
    sched::reset();
}
void eckitInit() {
    static bool done;
    if (done) return;
    done = true;
    static const char* argv[] = {"odcsim", nullptr};
    eckit::Main::initialise(1, const_cast<char**>(argv));
}
}
