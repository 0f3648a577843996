// T01 Threaded decoding equals serial decoding under every schedule.
#include "harness.h"
#include "alloc.h"
#include "sched.h"
#include <cstring>
#include <unistd.h>
#include "eckit/io/MemoryHandle.h"
using namespace sim;
using namespace hn;

namespace {
const uint8_t GUARD = 0xB6;
// Where a decoder puts the columns it was asked for; every byte that belongs to no element is a guard.
struct Target {
    std::vector<size_t> cols, off, elem, stride;
    size_t rows = 0;
    std::vector<uint64_t> store;
    std::vector<uint8_t> owned;
    std::vector<std::string> names;
    std::vector<odc::api::StridedData> sd;
    char* base() { return reinterpret_cast<char*>(store.data()); }
    Target(const ref::Frame& f, const std::vector<size_t>& which, int layout, size_t spare, bool wider) : cols(which) {
        size_t n = f.rows.size() + spare;
        rows = f.rows.size();
        size_t width = 0, o = 8;
        for (size_t c : cols) { elem.push_back(size_t(f.cols[c].width) * 8 + (wider && gen(3) == 2 ? 8 : 0)); width += elem.back(); }
        size_t pad = layout == 2 ? 8 + 8 * gen(3) : 0;
        for (size_t k = 0; k < cols.size(); k++) {
            off.push_back(o);
            if (layout == 1) { stride.push_back(elem[k]); o += elem[k] * n + 8; }
            else { stride.push_back(width + pad); o += elem[k]; }
            names.push_back(f.cols[cols[k]].name);
        }
        size_t total = (layout == 1 ? o : 8 + n * (width + pad)) + 8;
        store.assign(total / 8 + 1, 0);
        memset(base(), GUARD, store.size() * 8);
        owned.assign(store.size() * 8, 0);
        for (size_t k = 0; k < cols.size(); k++)
            for (size_t r = 0; r < rows; r++) memset(&owned[off[k] + r * stride[k]], 1, elem[k]);
        for (size_t k = 0; k < cols.size(); k++) sd.push_back(odc::api::StridedData(base() + off[k], n, elem[k], stride[k]));
    }
    void guards(const char* when) {
        for (size_t i = 0; i < owned.size(); i++)
            if (!owned[i]) SIM_CHECK(uint8_t(base()[i]) == GUARD, "outside-touched", "%s: byte %zu of the target area belongs to no element but was changed", when, i);
    }
    void values(const ref::Frame& f, bool longs, const char* when) {
        guards(when);
        for (size_t k = 0; k < cols.size(); k++) {
            auto& c = f.cols[cols[k]];
            for (size_t r = 0; r < rows; r++) {
                const char* p = base() + off[k] + r * stride[k];
                ref::Cell x;
                if (c.isStr()) x.s = std::string(p, strnlen(p, elem[k]));
                else if (longs && (c.type == ref::INTEGER || c.type == ref::BITFIELD)) { int64_t q; memcpy(&q, p, 8); x.d = double(q); }
                else memcpy(&x.d, p, 8);
                SIM_CHECK(f.rows[r][cols[k]] == x, "wrong-data", "%s: row %zu column %s: got %s, want %s", when, r, c.name.c_str(), ref::show(c, x).c_str(), ref::show(c, f.rows[r][cols[k]]).c_str());
                for (size_t b = size_t(c.width) * 8; b < elem[k]; b++) SIM_CHECK(p[b] == 0, "wrong-data", "%s: row %zu column %s: leftovers beyond the width of the column", when, r, c.name.c_str());
            }
        }
    }
};
std::vector<size_t> choose(const ref::Frame& f) {
    std::vector<size_t> o;
    bool all = gen(2) == 0;
    for (size_t c = 0; c < f.cols.size(); c++) if (all || gen(3)) o.push_back(c);
    if (gen(2)) for (size_t i = 0; i + 1 < o.size(); i++) std::swap(o[i], o[i + gen(uint32_t(o.size() - i))]);
    return o;
}
ref::GenOpts manyFrames() {
    ref::GenOpts o;
    o.minFrames = 2;
    o.maxFrames = thorough() && gen(6) == 5 ? 20 : 7;
    o.maxRows = gen(8) == 7 ? 60 : 6;
    o.compatibleBias = 88;
    return o;
}
size_t threadCount(size_t parts) {
    switch (gen(8)) {
        case 0: return 2;
        case 1: return parts;
        case 2: return parts + 1 + gen(4);
        case 3: return 1;
        case 4: return 3;
        case 5: return 0;
        default: return 2 + gen(7);
    }
}
size_t partsIn(const ref::Stream& s, const ref::Frame& w) { size_t n = 0; for (auto& f : s) if (f.off >= w.off && f.off + f.len <= w.off + w.len) n++; return n; }

struct Source {
    std::string path = "/sim/in.odb", bytes;
    State st;
    int how;
    std::unique_ptr<eckit::DataHandle> lent;
    void put(const std::string& b) {
        bytes = b;
        vfs::put(path, b);
        st = std::make_shared<HandleState>();
        st->data = b;
        st->concurrent = true;
        st->plan.estimate = gen(4) != 3;
        if (gen(3) == 2) st->plan.chunk = 1 + int(gen(60));
        how = int(gen(5));
    }
    odc::api::Reader* open(bool agg, long limit) {
        switch (how) {
            case 0: return new odc::api::Reader(path, agg, limit);
            case 1: return new odc::api::Reader(new eckit::MemoryHandle(bytes.data(), bytes.size()), agg, limit);
            case 2: lent.reset(new SimHandle(st)); lent->openForRead(); return new odc::api::Reader(*lent, agg, limit);
            default: return new odc::api::Reader(new SimHandle(st), agg, limit);
        }
    }
    bool canFail() const { return how != 1; }
    void arm(uint64_t at) {              // the at-th read from now on
        if (how == 0) {
            vfs::Fault f;
            f.ops = vfs::READ; f.at = at; f.times = 1; f.act = vfs::ERR; f.err = 5;
            vfs::addFault(f);
        } else {
            st->plan.failAtCall = long(st->calls + at);
            st->plan.failTimes = 1 + flt(2);
            static const int hows[] = {H_READERROR, H_STDEXC, H_MINUS1, H_EOF, H_INT};
            st->plan.how = hows[flt(5)];
        }
    }
    void disarm() { vfs::clearFaults(); st->plan.failAtCall = -1; st->data = bytes; }
    uint64_t hits() { return vfs::faultsFired() + st->failures; }
};
}

static void decodeRun(bool onlyStarve) {
    eckitInit();
    bool longs = gen(4) == 3;
    settings(false);
    ref::Stream s = ref::genStream(manyFrames());
    Source src;
    src.put(ref::encode(s));
    ref::logStream("in", s);
    long limit = -1;
    if (gen(4) == 3) { limit = long(gen(30)); for (auto& f : s) limit = std::max(limit, long(f.rows.size())); }
    ref::Stream want = aggregate(s, limit);
    settings(longs);
    bool faulty = !onlyStarve && src.canFail() && gen(3) == 2, starve = onlyStarve || (!faulty && gen(8) == 7), noThread = !faulty && !starve && gen(6) == 5;
    std::unique_ptr<odc::api::Reader> rd(src.open(true, limit));
    sched::begin();
    for (auto& w : want) {
        std::string what;
        odc::api::Frame f;
        bool fine = guarded([&] { f = rd->next(); }, what);
        SIM_CHECK(fine && f, "refused", "next: %s", what.c_str());
        size_t parts = partsIn(s, w), n = threadCount(parts);
        auto cols = choose(w);
        int layout = int(gen(3));
        size_t spare = gen(3) == 2 ? 1 + gen(3) : 0;
        bool wider = gen(3) == 2, reuse = gen(3) == 2;
        Target t(w, cols, layout, spare, wider);
        uint64_t hits = src.hits();
        if (faulty) src.arm(flt(uint32_t(parts * 2)));
        if (starve) { alloc::arm(flt(uint32_t(10 + parts * 20)), 1 + flt(2)); }
        if (noThread) sched::failCreate(int(flt(uint32_t(n ? n : 1))));
        log("decode %zu rows in %zu frames with %zu threads, %zu columns, layout %d", w.rows.size(), parts, n, cols.size(), layout);
        odc::api::Decoder d(t.names, t.sd);
        fine = guarded([&] { alloc::Scope sc; d.decode(f, n); }, what);
        uint64_t refusals = sched::createRefused();
        alloc::disarm();
        sched::failCreate(-1);
        sched::idle("the decoding returned");
        bool hit = src.hits() != hits;
        bool oom = starve && alloc::failed();
        src.disarm();
        if (fine) {
            // n.b. with a file, the failure may hit bytes nobody asked for
            SIM_CHECK(!hit || src.how == 0, "failure-ignored", "a read failed during the decoding, which succeeded");
            t.values(w, longs, "threads");
        }
        else {
            if (n == 0 && !hit && !oom) { count("no threads refused"); t.guards("after a refused decode"); continue; }
            SIM_CHECK(hit || oom || refusals, "refused", "decode with %zu threads: %s", n, what.c_str());
            count(hit ? "decode failed: read" : oom ? "decode failed: memory" : "decode failed: no thread");
            t.guards("after a failed decode");
            // nothing stays behind that would spoil the next attempt
            memset(t.base(), GUARD, t.store.size() * 8);
            fine = guarded([&] { d.decode(f, n ? n : 1); }, what);
            SIM_CHECK(fine, "retry", "decoding again after a failure: %s", what.c_str());
            sched::idle("the decoding returned");
            t.values(w, longs, "again after a failure");
        }
        if (reuse) {                     // the same frame again, with the same arrays
            memset(t.base(), GUARD, t.store.size() * 8);
            fine = guarded([&] { d.decode(f, 1); }, what);
            SIM_CHECK(fine, "refused", "serial decode after a threaded one: %s", what.c_str());
            t.values(w, longs, "serial");
        }
    }
    rd.reset();
    sched::end();
    state(sched::signature());
}
SCENARIO(T01, decode, 10) { decodeRun(false); }
#ifdef SIM_SCHED
// Threads that run out of memory
SCENARIO(A02, threads, 4) { decodeRun(true); }
#endif

namespace {
void ok(int rc, const char* what) { if (rc != ODC_SUCCESS) violation("refused", "%s: %s", what, odc_error_string(rc)); }
}

// The same through the C interface.
SCENARIO(T01, cdecode, 6) {
    eckitInit();
    cInit();
    bool longs = gen(4) == 3;
    settings(false);
    ref::Stream s = ref::genStream(manyFrames());
    std::string bytes = ref::encode(s);
    ref::logStream("in", s);
    const std::string path = "/sim/in.odb";
    vfs::put(path, bytes);
    long limit = -1;
    if (gen(4) == 3) { limit = long(gen(30)); for (auto& f : s) limit = std::max(limit, long(f.rows.size())); }
    ref::Stream want = aggregate(s, limit);
    ok(odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES), "odc_integer_behaviour");
    odc_reader_t* rd = nullptr;
    int how = int(gen(3));
    if (how == 0) ok(odc_open_path(&rd, path.c_str()), "odc_open_path");
    else if (how == 1) { int fd = vfs::openFd(path, 0); ok(odc_open_file_descriptor(&rd, fd), "odc_open_file_descriptor"); ::close(fd); }
    else ok(odc_open_buffer(&rd, bytes.data(), long(bytes.size())), "odc_open_buffer");
    odc_frame_t* f = nullptr;
    ok(odc_new_frame(&f, rd), "odc_new_frame");
    bool faulty = how != 2 && gen(3) == 2;
    sched::begin();
    odc_decoder_t* d = nullptr;
    for (auto& w : want) {
        ok(odc_next_frame_aggregated(f, limit), "odc_next_frame_aggregated");
        size_t parts = partsIn(s, w), n = threadCount(parts);
        auto cols = choose(w);
        if (cols.empty()) continue;
        bool cm = gen(2), own = gen(3) == 2;
        size_t spare = gen(3) == 2 ? 1 + gen(3) : 0, rows = w.rows.size() + spare;
        if (!rows) continue;
        ok(odc_new_decoder(&d), "odc_new_decoder");
        for (size_t c : cols) ok(odc_decoder_add_column(d, w.cols[c].name.c_str()), "odc_decoder_add_column");
        ok(odc_decoder_set_column_major(d, cm), "odc_decoder_set_column_major");
        ok(odc_decoder_set_row_count(d, long(rows)), "odc_decoder_set_row_count");
        size_t words = 0;
        for (size_t c : cols) words += size_t(w.cols[c].width);
        std::vector<uint64_t> mine(words * rows + 2, 0xB6B6B6B6B6B6B6B6ull);
        if (own) {
            if (cm) ok(odc_decoder_set_data_array(d, mine.data() + 1, long(words) * 8, long(rows), true), "odc_decoder_set_data_array");
            else ok(odc_decoder_set_data_array(d, mine.data() + 1, long(words) * 8, long(rows), false), "odc_decoder_set_data_array");
        }
        if (faulty) { vfs::Fault x; x.ops = vfs::READ; x.at = flt(uint32_t(parts * 2)); x.times = 1; x.act = vfs::ERR; x.err = 5; vfs::addFault(x); }
        uint64_t hits = vfs::faultsFired();
        log("decode %zu rows in %zu frames with %zu threads, %zu columns%s%s", w.rows.size(), parts, n, cols.size(), cm ? " column-major" : "", own ? " own array" : "");
        long got = -1;
        int rc = odc_decode_threaded(d, f, &got, int(n));
        sched::idle("odc_decode_threaded returned");
        vfs::clearFaults();
        bool hit = vfs::faultsFired() != hits;
        if (rc != ODC_SUCCESS) {
            if (n == 0) { count("no threads refused"); ok(odc_free_decoder(d), "odc_free_decoder"); continue; }
            SIM_CHECK(hit, "refused", "odc_decode_threaded with %zu threads: %s", n, odc_error_string(rc));
            count("decode failed: read");
            rc = odc_decode_threaded(d, f, &got, int(n));
            sched::idle("odc_decode_threaded returned");
            SIM_CHECK(rc == ODC_SUCCESS, "retry", "decoding again after a failure: %s", odc_error_string(rc));
        }
        SIM_CHECK(size_t(got) == w.rows.size(), "wrong-data", "%ld rows decoded, want %zu", got, w.rows.size());
        const void* base = nullptr; long bw = 0, bh = 0; bool bcm = !cm;
        ok(odc_decoder_data_array(d, &base, &bw, &bh, &bcm), "odc_decoder_data_array");
        SIM_CHECK((bcm == cm && (!own || base == mine.data() + 1) && size_t(bw) == words * 8 && size_t(bh) == rows), "wrong-data", "data array: %ld x %ld column-major %d", bw, bh, int(bcm));
        if (own) {
            SIM_CHECK(mine.front() == 0xB6B6B6B6B6B6B6B6ull && mine.back() == 0xB6B6B6B6B6B6B6B6ull, "outside-touched", "memory next to the data array was changed");
            for (size_t r = w.rows.size(); r < rows; r++)
                for (size_t k = 0; k < words; k++)
                    SIM_CHECK(mine[1 + (cm ? k * rows + r : r * words + k)] == 0xB6B6B6B6B6B6B6B6ull, "outside-touched", "row %zu of the array, of %zu decoded rows, was changed", r, w.rows.size());
        }
        size_t o = 0;
        for (size_t c : cols) {
            size_t width = size_t(w.cols[c].width);
            for (size_t r = 0; r < w.rows.size(); r++) {
                std::string cell(width * 8, 0);
                for (size_t k = 0; k < width; k++) memcpy(&cell[k * 8], static_cast<const char*>(base) + (cm ? o + (k * size_t(bh) + r) * 8 : r * size_t(bw) + o + k * 8), 8);
                ref::Cell x;
                if (w.cols[c].isStr()) x.s = std::string(cell.data(), strnlen(cell.data(), cell.size()));
                else if (longs && (w.cols[c].type == ref::INTEGER || w.cols[c].type == ref::BITFIELD)) { int64_t q; memcpy(&q, cell.data(), 8); x.d = double(q); }
                else memcpy(&x.d, cell.data(), 8);
                SIM_CHECK(w.rows[r][c] == x, "wrong-data", "row %zu column %s: got %s, want %s", r, w.cols[c].name.c_str(), ref::show(w.cols[c], x).c_str(), ref::show(w.cols[c], w.rows[r][c]).c_str());
            }
            o += width * 8 * (cm ? size_t(bh) : 1);
        }
        ok(odc_free_decoder(d), "odc_free_decoder");
    }
    ok(odc_free_frame(f), "odc_free_frame");
    ok(odc_close(rd), "odc_close");
    sched::end();
    state(sched::signature());
}
