// R01 What is read does not depend on how the bytes are delivered.
#include "harness.h"
using namespace sim;
using namespace hn;

SCENARIO(R01, delivery, 10) {
    ref::GenOpts o;
    o.big = true;
    if (gen(12) == 11) { o.maxRows = 700; o.maxFrames = 2; }      // frames larger than any buffer on the way
    ReadPlan p;
    drawDelivery(p);
    eckitInit();
    cInit();
    p.longs = gen(4) == 3 && p.api != A_SQL && p.api != A_ROWS;
    settings(p.longs);
    if (p.api == A_SQL) o.sameCols = true;
    if (p.how == D_FD) vfs::shortReads(gen(2));
    ref::Stream s = ref::genStream(o);
    std::string bytes = ref::encode(s);
    ref::logStream("in", s);
    ref::Stream want = expected(p, s);
    if (p.limit >= 0) { long m = 0; for (auto& f : s) m = std::max(m, long(f.rows.size())); if (p.limit < m) p.limit = m; want = expected(p, s); }
    log("%s", p.describe().c_str());
    state(fnv(p.describe().data(), p.describe().size()));
    Got g = readAll(p, bytes);
    log("read %zu frames error=%d %s", g.frames.size(), g.error, g.what.c_str());
    CmpOpts c;
    if (p.api == A_SQL) { c.props = false; }
    // Aggregated reading looks ahead; a source that only runs forwards may refuse that, but must not deliver anything wrong.
    bool forwardOnly = p.how == D_STREAM || (p.how == D_SIM && !p.plan.seekable);
    if (g.error && aggregated(p.api) && forwardOnly) {
        std::string d = diffStream(want, g.frames, true, c);
        SIM_CHECK(d.empty(), "different", "%s: %s", p.describe().c_str(), d.c_str());
        count("forward-only source refused look-ahead");
        return;
    }
    SIM_CHECK(!g.error, "refused", "reading a complete stream failed (%s): %s", p.describe().c_str(), g.what.c_str());
    std::string d = p.api == A_SQL ? diffRows(want, g.frames, false, c) : diffStream(want, g.frames, false, c);
    SIM_CHECK(d.empty(), "different", "%s: %s", p.describe().c_str(), d.c_str());
    SIM_CHECK(!g.moreAfterEnd, "end-not-sticky", "%s: the end of data was not reported again", p.describe().c_str());
    if (p.api == A_CXX || p.api == A_CXXAGG || p.api == A_TABLES)
        for (size_t i = 0; i < want.size(); i++)
            SIM_CHECK(g.frames[i].off == want[i].off && g.frames[i].len == want[i].len, "offset", "frame %zu reported at %zu+%zu, is at %zu+%zu", i, g.frames[i].off, g.frames[i].len, want[i].off, want[i].len);
}
