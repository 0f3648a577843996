// A02 Running out of memory is an error, not a corruption.
#ifdef SIM_ASAN
#include "harness.h"
#include <functional>
#include <algorithm>
#include "alloc.h"
#include "eckit/io/Buffer.h"
#include "starve.h"
using namespace sim;
using namespace hn;

namespace {
size_t rowsOf(const ref::Stream& s) { size_t n = 0; for (auto& f : s) n += f.rows.size(); return n; }
bool byRows(const ReadPlan& p) { return p.api == A_SQL || p.api == A_ROWS; }
std::string diff(const ReadPlan& p, const ref::Stream& want, const Got& g, bool prefix) {
    CmpOpts c;
    if (p.api == A_SQL) c.props = false;
    if (byRows(p)) return diffRows(want, g.frames, prefix, c);
    return diffStream(want, g.frames, prefix, c);
}
}

// Reading through every interface while allocations fail
SCENARIO(A02, read, 5) {
    ReadPlan p;
    drawDelivery(p);
    p.threads = 1;
    p.plan.seekable = p.how != D_STREAM || !aggregated(p.api) ? p.plan.seekable : true;
    eckitInit();
    cInit();
    settings(p.longs);
    ref::GenOpts o;
    o.maxFrames = 4; o.maxRows = 6; o.maxCols = 5;
    if (p.api == A_SQL) o.sameCols = true;
    ref::Stream s = ref::genStream(o);
    std::string bytes = ref::encode(s);
    if (bytes.empty()) return;
    ref::Stream want = expected(p, s);
    ref::logStream("in", s);
    log("%s", p.describe().c_str());
    auto once = [&] { return readAll(p, bytes); };
    Got warm = once();
    if (warm.error) return;                         // e.g. look-ahead on a source that cannot seek
    alloc::resetCount();
    Got clean = once();
    uint64_t n = alloc::counted();
    std::string x = diff(p, want, clean, false);
    SIM_CHECK(x.empty(), "wrong-data", "without failures: %s", x.c_str());
    Starve st;
    for (int rounds = 1 + int(flt(5)); rounds > 0; rounds--) {
    st = Starve(n);
    if (!st.possible) return;
    log("%s", st.describe.c_str());
    uint64_t met = 0;
    bool error = false;
    for (int i = 0; st.again(i); i++) {
        Got g;
        {
            Starve::Armed armed(st);
            g = once();
            met += alloc::failed();
        }
        st.repeated(i);
        log("%zu frames, %s", g.frames.size(), g.error ? g.what.c_str() : "no error");
        error = error || g.error;
        if (g.error) { x = diff(p, want, g, true); SIM_CHECK(x.empty(), "wrong-data", "%s; before the error \"%s\": %s", st.describe.c_str(), g.what.c_str(), x.c_str()); }
        else { x = diff(p, want, g, false); SIM_CHECK(x.empty(), "wrong-data", "%s and no error is reported, but %s", st.describe.c_str(), x.c_str()); }
    }
    st.done(met, error);
    }
    Got again = once();
    SIM_CHECK(!again.error, "does-not-recover", "%s; with memory available again: %s", st.describe.c_str(), again.what.c_str());
    x = diff(p, want, again, false);
    SIM_CHECK(x.empty(), "does-not-recover", "%s; with memory available again: %s", st.describe.c_str(), x.c_str());
    state(fnv(p.describe().data(), p.describe().size(), st.at));
}

// ------------------------------------------------------------------ a program using frames in other ways
namespace {
enum { F_INFO, F_SPAN, F_FILTER, F_ENCODED, F_COPY, F_DECODE, F_HAS, F_N };
enum { C_ATTR, C_PROPS, C_COPY, C_DEFAULTS, C_COLUMNS, C_MAJOR, C_BITS, C_N };
struct Failed { std::string what; };
void must(int rc) { if (rc != ODC_SUCCESS) { const char* m = odc_error_string(rc); throw Failed{m ? m : "?"}; } }
#define MUST(e) must(LIB(e))
uint64_t hashRows(const ref::Stream& s) { std::string t; for (auto& f : s) for (auto& r : f.rows) for (size_t i = 0; i < r.size(); i++) t += ref::show(f.cols[i], r[i]) + ";"; return fnv(t.data(), t.size()); }
struct Show : odc::api::SpanVisitor {
    std::string s;
    void operator()(const std::string& c, const std::set<long>& v) override { alloc::Pause p; s += c; for (auto x : v) s += strf(",%ld", x); }
    void operator()(const std::string& c, const std::set<double>& v) override { alloc::Pause p; s += c; for (auto x : v) s += strf(",%a", x); }
    void operator()(const std::string& c, const std::set<std::string>& v) override { alloc::Pause p; s += c; for (auto& x : v) s += "," + x; }
};
struct Script { bool c, agg; std::vector<int> ops; std::string data; bool longs; std::function<void(int)> turn = [](int) {}; };

void cxxSession(const Script& s, std::vector<std::string>& out) {
    auto st = std::make_shared<HandleState>();
    st->data = s.data;
    SimHandle h(st);
    h.openForRead();
    std::unique_ptr<odc::api::Reader> rd(LIB(new odc::api::Reader(h, s.agg)));
    std::vector<odc::api::Frame> kept;
    kept.reserve(64);
    size_t k = 0;
    while (true) {
        odc::api::Frame f = LIB(rd->next());
        if (!f) break;
        s.turn(int(k));
        int op = s.ops[k++ % s.ops.size()];
        std::string r = strf("%d %zu rows ", op, f.rowCount());
        const auto& ci = LIB(f.columnInfo());
        switch (op) {
            case F_INFO: { ref::Frame d = describeFrame(f); for (auto& c : d.cols) r += c.name + strf(":%d:%d ", c.type, c.width); for (auto& p : d.props) r += p.first + "=" + p.second; break; }
            case F_SPAN: {
                std::vector<std::string> cols;
                for (auto& c : ci) if (cols.size() < 3) cols.push_back(c.name);
                try {
                    auto sp = LIB(f.span(cols, false));
                    Show v;
                    LIB(sp.visit(v));
                    r += v.s;
                } catch (std::bad_alloc&) { throw; }
                break;
            }
            case F_FILTER: { odc::api::Frame g = LIB(f.filter("select *")); if (g) { ref::Stream t{decodeFrame(g, 1, 0, s.longs)}; r += strf("%zx", size_t(hashRows(t))); } break; }
            case F_ENCODED: { auto b = LIB(f.encodedData()); ref::Decoded d = ref::decode(std::string(static_cast<const char*>(b.data()), b.size())); r += strf("%d %zx", d.ok, size_t(hashRows(d.frames))); break; }
            case F_COPY: kept.push_back(LIB(odc::api::Frame(f))); r += "kept"; break;
            case F_DECODE: { ref::Stream t{decodeFrame(f, 1, int(k % 4), s.longs)}; r += strf("%zx", size_t(hashRows(t))); break; }
            case F_HAS: { bool a = LIB(f.hasColumn(ci[0].name)), b = LIB(f.hasColumn("no-such-column")); r += strf("%d%d", a, b); break; }
        }
        out.push_back(r);
    }
    LIB(rd.reset());
    for (auto& f : kept) { ref::Stream t{decodeFrame(f, 1, 0, s.longs)}; out.push_back(strf("kept %zx", size_t(hashRows(t)))); }
}

void cSession(const Script& s, std::vector<std::string>& out) {
    struct Objects {
        odc_reader_t* r = nullptr;
        odc_frame_t *f = nullptr, *copy = nullptr;
        odc_decoder_t* d = nullptr;
        ~Objects() { alloc::Scope lib; if (d) odc_free_decoder(d); if (copy) odc_free_frame(copy); if (f) odc_free_frame(f); if (r) odc_close(r); }
    } o;
    MUST(odc_open_buffer(&o.r, s.data.data(), long(s.data.size())));
    MUST(odc_new_frame(&o.f, o.r));
    size_t k = 0;
    while (true) {
        int rc = LIB(s.agg ? odc_next_frame_aggregated(o.f, -1) : odc_next_frame(o.f));
        if (rc == ODC_ITERATION_COMPLETE) break;
        must(rc);
        long nr = 0;
        int nc = 0, np = 0;
        MUST(odc_frame_row_count(o.f, &nr));
        MUST(odc_frame_column_count(o.f, &nc));
        s.turn(int(k));
        int op = s.ops[k++ % s.ops.size()];
        std::string r = strf("%d %ld rows %d columns ", op, nr, nc);
        odc_frame_t* f = o.f;
        switch (op) {
            case C_COPY: MUST(odc_copy_frame(o.f, &o.copy)); f = o.copy; // fall through
            case C_ATTR: case C_BITS:
                for (int i = 0; i < nc; i++) {
                    const char* name = nullptr;
                    int type = 0, size = 0, bits = 0;
                    MUST(odc_frame_column_attributes(f, i, &name, &type, &size, &bits));
                    r += strf("%s:%d:%d ", name, type, size);
                    for (int b = 0; b < bits; b++) { int off = 0, n = 0; MUST(odc_frame_bitfield_attributes(f, i, b, &name, &off, &n)); r += strf("%s:%d:%d ", name, off, n); }
                }
                break;
            case C_PROPS:
                MUST(odc_frame_properties_count(f, &np));
                for (int i = 0; i < np; i++) { const char *key = nullptr, *v = nullptr, *w = nullptr; MUST(odc_frame_property_idx(f, i, &key, &v)); MUST(odc_frame_property(f, key, &w)); r += strf("%s=%s/%s ", key, v, w ? w : "?"); }
                break;
            default: {
                MUST(odc_new_decoder(&o.d));
                std::vector<char> own;
                if (op == C_DEFAULTS) MUST(odc_decoder_defaults_from_frame(o.d, f));
                else {
                    size_t width = 0;
                    for (int i = 0; i < nc; i++) {
                        const char* name = nullptr;
                        int type = 0, size = 0, bits = 0;
                        MUST(odc_frame_column_attributes(f, i, &name, &type, &size, &bits));
                        std::string n = name;
                        MUST(odc_decoder_add_column(o.d, n.c_str()));
                        MUST(odc_decoder_column_set_data_size(o.d, i, size));
                        width += size_t(size);
                    }
                    MUST(odc_decoder_set_row_count(o.d, nr));
                    if (op == C_MAJOR) MUST(odc_decoder_set_column_major(o.d, true));
                    else if (nr) { own.resize(width * size_t(nr)); MUST(odc_decoder_set_data_array(o.d, own.data(), long(width), nr, false)); }
                }
                long rows = 0;
                MUST(odc_decode(o.d, f, &rows));
                if (rows) {
                    const void* p = nullptr;
                    long w = 0, hgt = 0;
                    bool cm = false;
                    MUST(odc_decoder_data_array(o.d, &p, &w, &hgt, &cm));
                    // narrower strings leave the rest of a cell undefined in the decoder's own array only if the frame does
                    r += strf("%ld %ld %d", w, hgt, cm);
                    for (int i = 0; i < nc; i++) {
                        const void* q = nullptr;
                        int size = 0, stride = 0;
                        MUST(odc_decoder_column_data_array(o.d, i, &size, &stride, &q));
                        for (long j = 0; j < rows && !cm; j++) r += strf(" %zx", size_t(fnv(static_cast<const char*>(q) + j * stride, size_t(size))));
                    }
                }
                LIB(odc_free_decoder(o.d));
                o.d = nullptr;
            }
        }
        if (o.copy) { LIB(odc_free_frame(o.copy)); o.copy = nullptr; }
        out.push_back(r);
    }
}
}

SCENARIO(A02, session, 6) {
    eckitInit();
    cInit();
    Script s;
    s.c = gen(2);
    s.agg = gen(2);
    s.longs = gen(4) == 3;
    settings(s.longs);
    int n = 1 + int(gen(4));
    for (int i = 0; i < n; i++) s.ops.push_back(int(gen(s.c ? C_N : F_N)));
    ref::GenOpts o;
    o.maxFrames = 3; o.maxRows = 5; o.maxCols = 4;
    o.texty = gen(2);
    if (s.c && o.texty) for (auto& k : s.ops) if (gen(2)) k = C_MAJOR;
    ref::Stream in = ref::genStream(o);
    s.data = ref::encode(in);
    if (s.data.empty()) return;
    auto once = [&](std::vector<std::string>& out) {
        std::string err;
        try { s.c ? cSession(s, out) : cxxSession(s, out); }
        catch (Failed& f) { err = "error: " + f.what; }
        catch (std::exception& e) { err = std::string("error: ") + e.what(); }
        return err;
    };
    std::string sig = strf("%d%d ", s.c, s.agg);
    for (int k : s.ops) sig += char('0' + k);
    uint64_t met = 0;
    std::vector<std::string> warm, want;
    if (!once(warm).empty()) return;
    int only = gen(2) ? int(gen(uint32_t(warm.size() + 1))) : -1;      // memory runs out during this step, or at any time
    bool inside = false;
    uint64_t total = 0;
    alloc::resetCount();
    s.turn = [&](int k) { if (only < 0) return; if (k == only) { alloc::resetCount(); inside = true; } else if (inside) { total = alloc::counted(); inside = false; } };
    once(want);
    if (only < 0 || inside) total = alloc::counted();
    Starve st;
    for (int rounds = 1 + int(flt(5)); rounds > 0; rounds--) {
    st = Starve(total);
    if (!st.possible) return;
    met = 0;
    s.turn = [&](int k) { if (only < 0) return; if (k == only) alloc::arm(st.at, st.times); else if (k == only + 1) { met += alloc::failed(); alloc::arm(~0ull, 1); } };
    log("session %s: %zu results, %s", sig.c_str(), want.size(), st.describe.c_str());
    bool error = false;
    for (int i = 0; st.again(i); i++) {
        std::vector<std::string> got;
        std::string err;
        { Starve::Armed armed(st); if (only >= 0) alloc::arm(~0ull, 1); err = once(got); met += alloc::failed(); }
        st.repeated(i);
        log("%zu results, %s", got.size(), err.c_str());
        error = error || !err.empty();
        for (size_t k = 0; k < got.size(); k++) SIM_CHECK(k < want.size() && got[k] == want[k], "wrong-data", "%s (%s): result %zu is \"%s\", want \"%s\"", st.describe.c_str(), alloc::failedText().c_str(), k, got[k].c_str(), k < want.size() ? want[k].c_str() : "nothing");
        if (err.empty()) SIM_CHECK(got.size() == want.size(), "wrong-data", "%s (%s): %zu results, want %zu, and no error", st.describe.c_str(), alloc::failedText().c_str(), got.size(), want.size());
    }
    s.turn = [](int) {};
    st.done(met, error);
    }
    std::vector<std::string> again;
    std::string err = once(again);
    SIM_CHECK(err.empty() && again == want, "does-not-recover", "%s; with memory available again: %s", st.describe.c_str(), err.c_str());
    state(fnv(sig.data(), sig.size(), st.at));
}
#endif
