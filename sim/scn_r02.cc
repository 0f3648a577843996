// R02 A failing or truncated source is never mistaken for the whole data.
#include "harness.h"
#include <algorithm>
#include "odc/core/TablesReader.h"
using namespace sim;
using namespace hn;

namespace {
ref::Stream firstFrames(const ref::Stream& s, size_t bytes) {
    ref::Stream o;
    for (auto& f : s) if (f.off + f.len <= bytes) o.push_back(f);
    return o;
}
size_t rowsOf(const ref::Stream& s) { size_t n = 0; for (auto& f : s) n += f.rows.size(); return n; }
bool onBoundary(const ref::Stream& s, size_t at) {
    if (at == 0) return true;
    for (auto& f : s) if (f.off + f.len == at) return true;
    return false;
}
// Everything delivered must be a prefix of what is there.
void checkPrefix(const ReadPlan& p, const ref::Stream& want, const Got& g, const char* when) {
    CmpOpts c;
    std::string d;
    if (p.api == A_SQL) { c.props = false; d = diffRows(want, g.frames, true, c); }
    else if (p.api == A_ROWS) d = diffRows(want, g.frames, true, c);     // an error in the middle leaves a partial last frame
    else if (p.headersOnly) {
        if (g.frames.size() > want.size()) d = "more frames than there are";
        for (size_t i = 0; i < g.frames.size() && d.empty(); i++) { ref::Frame w = want[i], h = g.frames[i]; w.rows.clear(); d = diffFrame(w, h, c); }
    }
    else d = diffStream(want, g.frames, true, c);
    SIM_CHECK(d.empty(), "wrong-data", "%s, %s: %s", p.describe().c_str(), when, d.c_str());
}
bool complete(const ReadPlan& p, const ref::Stream& want, const Got& g) {
    if (p.api == A_SQL || p.api == A_ROWS) return rowsOf(g.frames) == rowsOf(want);
    return g.frames.size() == want.size();
}
ref::GenOpts opts(const ReadPlan& p) {
    ref::GenOpts o;
    o.maxFrames = 5;
    if (gen(10) == 9) { o.maxRows = 600; o.maxFrames = 3; }
    if (p.api == A_SQL) o.sameCols = true;
    return o;
}
long bigEnough(const ReadPlan& p, const ref::Stream& s) {
    if (p.limit < 0) return p.limit;
    long m = 0;
    for (auto& f : s) m = std::max(m, long(f.rows.size()));
    return std::max(m, p.limit);
}
}

// The stored bytes end early.
SCENARIO(R02, truncated, 4) {
    ReadPlan p;
    drawDelivery(p);
    p.plan.seekable = p.how != D_STREAM;
    p.headersOnly = gen(6) == 5 && p.api != A_ROWS && p.api != A_SQL && p.api != A_C && p.api != A_CAGG;
    eckitInit();
    cInit();
    settings(false);
    ref::Stream s = ref::genStream(opts(p));
    std::string bytes = ref::encode(s);
    p.limit = bigEnough(p, s);
    if (bytes.empty()) return;
    size_t at;
    if (flt(3) == 0) {                       // near a boundary of the format
        auto& f = s[flt(uint32_t(s.size()))];
        size_t where[] = {f.off, f.off + 5, f.off + 9, f.off + 57, f.off + f.headerLen, f.off + f.len};
        long a = long(where[flt(6)]) + range(FAULT, -2, 2);
        at = size_t(std::max(0L, std::min(long(bytes.size()), a)));
    }
    else at = flt(uint32_t(bytes.size()) + 1);
    std::string cut = bytes.substr(0, at);
    ref::logStream("in", s);
    log("%s; cut %zu bytes to %zu", p.describe().c_str(), bytes.size(), at);
    count("truncation");
    if (p.how == D_FD) vfs::shortReads(gen(2));
    Got g = readAll(p, cut);
    log("read %zu frames error=%d %s", g.frames.size(), g.error, g.what.c_str());
    ref::Stream whole = firstFrames(s, at);
    bool boundary = onBoundary(s, at);
    std::string sig = strf("%s t%d b%d", p.describe().c_str(), int(at == bytes.size()), int(boundary));
    state(fnv(sig.data(), sig.size(), s.size() * 31 + whole.size()));
    bool forwardOnly = p.how == D_STREAM;
    bool aggRefused = aggregated(p.api) && forwardOnly;
    if (boundary) {
        ref::Stream want = expected(p, whole);
        checkPrefix(p, want, g, "cut between frames");
        if (aggRefused && g.error) return;
        if (at == 0) {                       // nothing at all: an empty result or an error are both honest
            SIM_CHECK(g.frames.empty(), "wrong-data", "data out of an empty source");
            return;
        }
        SIM_CHECK(!g.error, "refused", "%s: a stream cut between frames was refused: %s", p.describe().c_str(), g.what.c_str());
        SIM_CHECK(complete(p, want, g), "short", "%s: %zu of %zu frames of a stream cut between frames", p.describe().c_str(), g.frames.size(), want.size());
        return;
    }
    bool lengthKnown = !(p.how == D_STREAM || (p.how == D_SIM && !p.plan.estimate));
    bool inPayload = false;
    for (auto& f : s) if (at >= f.off + f.headerLen && at < f.off + f.len) inPayload = true;
    if (p.headersOnly && !lengthKnown && inPayload) {
        ref::Stream reach = whole;           // the header of the incomplete frame is whole and nobody asked for its rows
        for (auto& f : s) if (at >= f.off + f.headerLen && at < f.off + f.len) reach.push_back(f);
        checkPrefix(p, expected(p, reach), g, "cut inside a frame");
        return;
    }
    SIM_CHECK(g.error, "end-instead-of-error", "%s: a stream cut inside a frame (%zu of %zu bytes) was read to a normal end (%zu frames)", p.describe().c_str(), at, bytes.size(), g.frames.size());
    if (!aggregated(p.api)) {
        if (p.api == A_SQL || p.api == A_ROWS) {
            ref::Stream want = expected(p, whole);
            checkPrefix(p, want, g, "cut inside a frame");
            SIM_CHECK(rowsOf(g.frames) == rowsOf(want) || p.api == A_SQL, "short", "%s: %zu rows before the cut, %zu delivered", p.describe().c_str(), rowsOf(want), rowsOf(g.frames));
        } else {
            checkPrefix(p, whole, g, "cut inside a frame");
            SIM_CHECK(g.frames.size() == whole.size(), "short", "%s: %zu frames before the cut, %zu delivered", p.describe().c_str(), whole.size(), g.frames.size());
        }
    }
    else checkPrefix(p, expected(p, whole), g, "cut inside a frame");
}

// A read fails.
SCENARIO(R02, failing, 6) {
    ReadPlan p;
    drawDelivery(p);
    if (p.how == D_BUFFER || (p.how == D_HANDLE && gen(2))) p.how = usable(p.api, D_SIM) ? D_SIM : usable(p.api, D_STREAM) && gen(2) ? D_STREAM : D_PATH;
    p.plan.seekable = p.how != D_STREAM;
    eckitInit();
    cInit();
    settings(false);
    ref::Stream s = ref::genStream(opts(p));
    std::string bytes = ref::encode(s);
    p.limit = bigEnough(p, s);
    ref::logStream("in", s);
    ref::Stream want = expected(p, s);
    bool ours = p.how == D_SIM || p.how == D_STREAM;
    bool forwardOnly = p.how == D_STREAM;
    // without a fault, to learn how many calls there are
    vfs::countOps();
    if (p.plan.chunk < 0) p.plan.chunk = 1 + int(gen(60));
    Got clean = readAll(p, bytes);
    if (!(forwardOnly && aggregated(p.api))) {
        SIM_CHECK(!clean.error, "refused", "%s: %s", p.describe().c_str(), clean.what.c_str());
        checkPrefix(p, want, clean, "no fault");
        SIM_CHECK(complete(p, want, clean), "short", "%s: no fault, %zu of %zu frames", p.describe().c_str(), clean.frames.size(), want.size());
    }
    uint64_t calls = ours ? clean.calls : vfs::ops(vfs::READ, p.path);
    if (!calls) return;
    uint64_t at = flt(uint32_t(calls));
    uint64_t times = flt(2) ? 1 : ~0ull;
    std::string what;
    if (ours) {
        std::vector<int> hows{H_READERROR, H_MINUS1, H_SHORT, H_EOF};
        if (p.how == D_SIM) { hows.push_back(H_STDEXC); }
        int h = hows[flt(uint32_t(hows.size()))];
        if (p.how == D_STREAM && h == H_READERROR) h = H_MINUS1;
        p.plan.how = h;
        p.plan.failAtCall = long(at);
        p.plan.failTimes = times == 1 ? 1 : 1000000000;
        what = howName(h);
    } else {
        int op = flt(8) == 0 ? vfs::OPEN : flt(10) == 0 ? vfs::SEEK : vfs::READ;
        vfs::Fault f{op, p.path, op == vfs::READ ? at : 0, times, vfs::ERR, flt(2) ? 5 : 4 * 0 + 116, 0};
        vfs::addFault(f);
        what = strf("%s errno", vfs::opName(op));
    }
    log("%s; call %llu of %llu fails (%s) %s", p.describe().c_str(), (unsigned long long)at, (unsigned long long)calls, what.c_str(), times == 1 ? "once" : "from then on");
    uint64_t firedBefore = vfs::faultsFired();
    Got g = readAll(p, bytes);
    uint64_t fired = ours ? g.failures : vfs::faultsFired() - firedBefore;
    log("read %zu frames error=%d fired=%llu %s", g.frames.size(), g.error, (unsigned long long)fired, g.what.c_str());
    std::string sig = strf("%s %s %d", p.describe().c_str(), what.c_str(), int(times == 1));
    state(fnv(sig.data(), sig.size(), at));
    if (fired && ours && (p.plan.how == H_EOF || p.plan.how == H_SHORT) && onBoundary(s, size_t(g.failPos)) && aggregated(p.api)) {
        CmpOpts c;                                                   // aggregation may stop at the reported end and go on after it
        c.props = false;
        c.anyOrder = true;
        std::string d = diffRows(s, g.frames, true, c);
        SIM_CHECK(d.empty(), "wrong-data", "%s, the source ended early: %s", p.describe().c_str(), d.c_str());
    }
    else checkPrefix(p, want, g, "a read failed");
    if (!g.error && !complete(p, want, g)) {
        // Only a source that itself says it ended, at a frame boundary and with no known length, may look complete.
        bool lengthKnown = !(p.how == D_STREAM || (p.how == D_SIM && !p.plan.estimate));
        bool saysEnd = ours && (p.plan.how == H_EOF || p.plan.how == H_SHORT);
        bool honest = saysEnd && (!lengthKnown || p.plan.how == H_EOF) && onBoundary(s, size_t(g.failPos));
        if (forwardOnly && aggregated(p.api) && saysEnd && honest) return;
        SIM_CHECK(honest, "end-instead-of-error", "%s: call %llu failed (%s), reading ended normally after %zu of %zu frames", p.describe().c_str(), (unsigned long long)at, what.c_str(), g.frames.size(), want.size());
        ref::Stream w = expected(p, firstFrames(s, size_t(g.failPos)));
        SIM_CHECK(complete(p, w, g) || (aggregated(p.api) && rowsOf(g.frames) >= rowsOf(w)), "short", "%s: %zu frames before the end of the source, %zu delivered", p.describe().c_str(), w.size(), g.frames.size());
    }
    // every frame wholly before the failing position is delivered by frame-by-frame reading
    if (g.error && ours && g.failPos >= 0 && (p.api == A_CXX || p.api == A_C || p.api == A_TABLES)) {
        size_t n = firstFrames(s, size_t(g.failPos)).size();
        SIM_CHECK(g.frames.size() >= n, "short", "%s: %zu frames lie before the failure, %zu delivered", p.describe().c_str(), n, g.frames.size());
    }
}

// Failures that pass: what is retried after them is right and, once they stop, everything is delivered.
SCENARIO(R02, retried, 4) {
    eckitInit();
    settings(false);
    ref::GenOpts o;
    o.maxFrames = 5;
    bool agg = gen(2);
    bool tables = !agg && gen(3) == 2;
    long limit = agg && gen(2) ? long(gen(30)) : -1;
    ref::Stream s = ref::genStream(o);
    std::string bytes = ref::encode(s);
    ReadPlan p;
    p.api = agg ? A_CXXAGG : tables ? A_TABLES : A_CXX;
    p.how = D_SIM;
    p.limit = limit;
    p.limit = limit = bigEnough(p, s);
    p.plan.chunk = gen(2) ? int(1 + gen(80)) : 0;
    p.plan.estimate = gen(4) != 3;
    ref::Stream want = expected(p, s);
    ref::logStream("in", s);
    Got clean = readAll(p, bytes);
    SIM_CHECK(!clean.error && diffStream(want, clean.frames).empty(), "refused", "%s without faults: %s", p.describe().c_str(), clean.what.c_str());
    State st = std::make_shared<HandleState>();
    st->data = bytes;
    st->plan = p.plan;
    const int hows[] = {H_READERROR, H_STDEXC, H_MINUS1};
    ref::Stream got;
    uint32_t budget = 1 + flt(4);
    int errors = 0;
    auto place = [&] {                       // the next failure, some calls from now
        if (!budget) { st->plan.failAtCall = -1; return; }
        budget--;
        st->plan.how = hows[flt(3)];
        st->plan.failAtCall = long(st->calls + flt(uint32_t(clean.calls) + 1));
        st->plan.failTimes = 1 + flt(2);
    };
    place();
    uint64_t lastFail = 0;
    auto attempt = [&](const char* op, std::function<void()> f) {
        for (int i = 0;; i++) {
            std::string what;
            uint64_t before = st->failures;
            if (guarded(f, what)) return;
            log("%s failed: %s", op, what.c_str());
            SIM_CHECK(st->failures > before, "fails-without-cause", "%s fails although the source does not (any more): %s", op, what.c_str());
            errors++;
            place();
            (void)lastFail;
            step();
        }
    };
    if (tables) {
        std::unique_ptr<odc::core::TablesReader> tr;
        attempt("open", [&] { tr.reset(new odc::core::TablesReader(new SimHandle(st))); });
        std::unique_ptr<odc::core::ReadTablesIterator> it;
        attempt("begin", [&] { it.reset(new odc::core::ReadTablesIterator(tr->begin())); });
        while (*it != tr->end()) {
            step();
            ref::Frame f;
            attempt("rowdata", [&] { eckit::Buffer b = (*it)->readEncodedData(true); std::string t((const char*)b.data(), b.size()); ref::Decoded d = ref::decode(t); SIM_CHECK(d.ok && d.frames.size() == 1, "wrong-data", "frame bytes do not decode: %s", d.error.c_str()); f = d.frames[0]; });
            got.push_back(f);
            attempt("next", [&] { ++*it; });
        }
    } else {
        std::unique_ptr<odc::api::Reader> r;
        attempt("open", [&] { r.reset(new odc::api::Reader(new SimHandle(st), agg, limit)); });
        while (true) {
            step();
            odc::api::Frame f;
            attempt("next", [&] { f = r->next(); });
            if (!f) break;
            ref::Frame x;
            attempt("decode", [&] { x = decodeFrame(f, 1, int(gen(3)), false); });
            got.push_back(x);
        }
    }
    log("%d errors, %zu frames", errors, got.size());
    state(fnv(&errors, sizeof errors, fnv(p.describe().data(), p.describe().size(), s.size() * 7 + st->calls)));
    std::string d = diffStream(want, got);
    SIM_CHECK(d.empty(), "wrong-data", "%s, after %d errors that passed: %s", p.describe().c_str(), errors, d.c_str());
}
