// T02 Separate frames of one reader can be used from separate threads.
#include "harness.h"
#include "alloc.h"
#include "sched.h"
#include <cstring>
#include <condition_variable>
#include <deque>
#include <unistd.h>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/core/DecodeTarget.h"
#include "odc/core/Table.h"
#include "odc/core/TablesReader.h"
using namespace sim;
using namespace hn;

namespace {
// Every draw of what the threads do is made before they start, so that a schedule does not change the work.
struct Op { int kind, a, b; };
enum { DECODE, COPY_DECODE, DESCRIBE, BYTES, SPAN, COPY, NKINDS };
std::vector<Op> genOps(int n) { std::vector<Op> o; for (int i = 0; i < n; i++) o.push_back({int(gen(NKINDS)), int(gen(3)), int(gen(4))}); return o; }

struct Shared {
    ref::Stream s, want;
    std::string bytes, path = "/sim/in.odb";
    State st;
    bool file = false, longs = false, faulty = false;
    std::mutex m;                                  // of the harness: guards queue and done
    std::condition_variable cv;
    struct Item { odc::api::Frame f; const ref::Frame* want; };
    std::deque<Item> queue;
    bool done = false;
    bool hit() const { return file ? vfs::faultThread() == sched::self() : st->failThread == sched::self(); }
    void forget() { if (file) vfs::faultThread() = -1; else st->failThread = -1; }
};
void fail(Shared& x, bool fine, const std::string& what, const char* op) {
    if (fine) return;
    SIM_CHECK(x.faulty && x.hit(), "refused", "thread %d: %s: %s", sched::self(), op, what.c_str());
    count("operation hit by the read failure");
    log("thread %d: %s failed", sched::self(), op);
}
template <class F> bool tried(Shared& x, const char* op, F f) {
    if (x.hit()) x.forget();
    std::string what;
    bool fine = guarded(f, what);
    fail(x, fine, what, op);
    return fine;
}
void use(Shared& x, odc::api::Frame& f, const ref::Frame& want, const std::vector<Op>& ops) {
    for (auto& o : ops) {
        step();
        switch (o.kind) {
            case DECODE: case COPY_DECODE: {
                ref::Frame g;
                odc::api::Frame c;
                if (o.kind == COPY_DECODE) c = f;
                if (!tried(x, "decode", [&] { g = decodeFrame(o.kind == COPY_DECODE ? c : f, o.b == 3 && !x.faulty ? 2 : 1, o.a, x.longs); })) break;
                std::string d = diffFrame(want, g);
                SIM_CHECK(d.empty(), "wrong-data", "thread %d: %s", sched::self(), d.c_str());
                break;
            }
            case DESCRIBE: {
                ref::Frame g = describeFrame(f), w = want;
                SIM_CHECK(f.rowCount() == w.rows.size(), "wrong-data", "row count %zu, want %zu", f.rowCount(), w.rows.size());
                w.rows.clear();
                std::string d = diffFrame(w, g);
                SIM_CHECK(d.empty(), "wrong-data", "thread %d: %s", sched::self(), d.c_str());
                break;
            }
            case BYTES: {
                std::string got;
                if (!tried(x, "encodedData", [&] { eckit::Buffer b = f.encodedData(); got.assign(static_cast<const char*>(b.data()), b.size()); })) break;
                SIM_CHECK(got == x.bytes.substr(want.off, want.len), "wrong-data", "thread %d: encoded data differs from the stored bytes", sched::self());
                break;
            }
            case SPAN: {
                if (want.cols.empty()) break;
                size_t c = size_t(o.a) % want.cols.size();
                std::vector<std::string> names{want.cols[c].name};
                tried(x, "span", [&] {
                    odc::api::Span sp = f.span(names, false);
                    SIM_CHECK(size_t((long long)sp.offset()) == want.off && size_t((long long)sp.length()) == want.len, "wrong-span", "thread %d: span at %lld+%lld, want %zu+%zu", sched::self(), (long long)sp.offset(), (long long)sp.length(), want.off, want.len);
                });
                break;
            }
            case COPY: { odc::api::Frame c(f); odc::api::Frame e; e = c; f = e; break; }
        }
    }
}
struct Worker { Shared* x; std::vector<Op> ops; };
void worker(void* p) {
    Worker& w = *static_cast<Worker*>(p);
    Shared& x = *w.x;
    settings(x.longs);                  // the setting is one of the thread
    for (;;) {
        Shared::Item it;
        {
            std::unique_lock<std::mutex> l(x.m);
            while (x.queue.empty() && !x.done) x.cv.wait(l);
            if (x.queue.empty()) return;
            it = std::move(x.queue.front());
            x.queue.pop_front();
        }
        use(x, it.f, *it.want, w.ops);
    }
}
void armRead(Shared& x, uint64_t within) {
    x.faulty = true;
    if (x.file) {
        vfs::Fault f;
        f.ops = vfs::READ; f.at = flt(uint32_t(within)); f.times = 1; f.act = vfs::ERR; f.err = 5;
        vfs::addFault(f);
    } else {
        x.st->plan.failAtCall = long(x.st->calls + flt(uint32_t(within)));
        x.st->plan.failTimes = 1;
        static const int hows[] = {H_READERROR, H_STDEXC, H_MINUS1, H_INT};
        x.st->plan.how = hows[flt(4)];
    }
}
void source(Shared& x) {
    ref::GenOpts o;
    o.minFrames = 2; o.maxFrames = thorough() ? 9 : 6;
    o.maxRows = gen(8) == 7 ? 40 : 5;
    x.s = ref::genStream(o);
    x.bytes = ref::encode(x.s);
    ref::logStream("in", x.s);
    vfs::put(x.path, x.bytes);
    x.st = std::make_shared<HandleState>();
    x.st->data = x.bytes;
    x.st->concurrent = true;
    x.st->plan.estimate = gen(4) != 3;
    if (gen(3) == 2) x.st->plan.chunk = 1 + int(gen(60));
    x.file = gen(3) == 0;
}
}

// One thread advances the reader and hands the frames to others, which copy, decode and describe them.
SCENARIO(T02, frames, 8) {
    eckitInit();
    settings(false);
    static Shared x;
    source(x);
    bool agg = gen(2);
    x.want = agg ? aggregate(x.s, -1) : x.s;
    x.longs = gen(4) == 3;
    settings(x.longs);
    int nw = 2 + int(gen(3)), share = 1 + int(gen(2));
    static std::vector<Worker> ws;
    for (int i = 0; i < nw; i++) ws.push_back({&x, genOps(1 + int(gen(thorough() ? 6 : 3)))});
    auto mine = genOps(int(gen(3)));
    std::unique_ptr<odc::api::Reader> rd;
    if (x.file) rd.reset(new odc::api::Reader(x.path, agg));
    else rd.reset(new odc::api::Reader(new SimHandle(x.st), agg));
    if (gen(3) == 2) armRead(x, 8 * x.s.size());
    bool dropEarly = gen(2);
    sched::begin();
    for (auto& w : ws) sched::spawn(worker, &w);
    for (size_t i = 0; i <= x.want.size(); i++) {
        odc::api::Frame f;
        bool fine = tried(x, "next", [&] { f = rd->next(); });
        if (!fine) { fine = tried(x, "next", [&] { f = rd->next(); }); SIM_CHECK(fine, "retry", "advancing again after a failure fails"); }
        if (i == x.want.size()) { SIM_CHECK(!f, "extra-frame", "a frame after the end"); break; }
        SIM_CHECK(bool(f), "lost-frame", "end after %zu of %zu frames", i, x.want.size());
        {
            std::lock_guard<std::mutex> l(x.m);
            for (int k = 0; k < share; k++) x.queue.push_back({f, &x.want[i]});
            x.cv.notify_one();
            if (share > 1) x.cv.notify_all();
        }
        use(x, f, x.want[i], mine);
    }
    { std::lock_guard<std::mutex> l(x.m); x.done = true; x.cv.notify_all(); }
    if (dropEarly) rd.reset();
    sched::joinAll();
    rd.reset();
    sched::end();
    state(sched::signature());
}

namespace {
struct Walk { Shared* x; odc::core::TablesReader* t; int skip; std::vector<Op> ops; };
void walker(void* p) {
    Walk& w = *static_cast<Walk*>(p);
    Shared& x = *w.x;
    std::unique_ptr<odc::core::TablesReader::iterator> it;
    auto again = [&](const char* op, const std::function<void()>& f) {
        if (tried(x, op, f)) return;
        bool fine = tried(x, op, f);
        SIM_CHECK(fine, "retry", "thread %d: %s again after a failure fails", sched::self(), op);
    };
    again("begin", [&] { it.reset(new odc::core::TablesReader::iterator(w.t->begin())); });
    size_t i = 0;
    for (;; i++) {
        step();
        bool atEnd = *it == w.t->end();
        SIM_CHECK(atEnd == (i >= x.s.size()), "lost-frame", "thread %d at table %zu of %zu: at the end %d", sched::self(), i, x.s.size(), int(atEnd));
        if (atEnd) break;
        auto& want = x.s[i];
        auto& t = **it;
        SIM_CHECK(size_t((long long)t.startPosition()) == want.off && size_t((long long)t.nextPosition()) == want.off + want.len && t.rowCount() == want.rows.size() && t.columnCount() == want.cols.size(),
                  "wrong-table", "thread %d: table %zu describes another table", sched::self(), i);
        for (size_t c = 0; c < want.cols.size(); c++)
            SIM_CHECK(t.columns()[c]->name() == want.cols[c].name && int(t.columns()[c]->type()) == want.cols[c].type, "wrong-table", "thread %d: table %zu column %zu is %s", sched::self(), i, c, t.columns()[c]->name().c_str());
        SIM_CHECK(t.properties().size() == want.props.size(), "wrong-table", "thread %d: table %zu has %zu properties, want %zu", sched::self(), i, t.properties().size(), want.props.size());
        auto& o = w.ops[i % w.ops.size()];
        if (o.kind % 3 == 0) {
            odc::core::Table copy(t);
            std::vector<std::vector<uint64_t>> store;
            std::vector<std::string> names;
            std::vector<odc::api::StridedData> sd;
            for (auto& c : want.cols) { store.emplace_back(want.rows.size() * size_t(c.width) + 1, 0xB6B6B6B6B6B6B6B6ull); names.push_back(c.name); }
            for (size_t c = 0; c < want.cols.size(); c++) { size_t b = size_t(want.cols[c].width) * 8; sd.push_back(odc::api::StridedData(store[c].data(), want.rows.size(), b, b)); }
            odc::core::DecodeTarget tgt(names, sd);
            if (tried(x, "decode", [&] { copy.decode(tgt); }))
                for (size_t c = 0; c < want.cols.size(); c++) {
                    for (size_t r = 0; r < want.rows.size(); r++) {
                        const char* q = reinterpret_cast<const char*>(store[c].data()) + r * size_t(want.cols[c].width) * 8;
                        ref::Cell v;
                        if (want.cols[c].isStr()) v.s = std::string(q, strnlen(q, size_t(want.cols[c].width) * 8));
                        else memcpy(&v.d, q, 8);
                        SIM_CHECK(v == want.rows[r][c], "wrong-data", "thread %d: table %zu row %zu column %s: got %s, want %s", sched::self(), i, r, want.cols[c].name.c_str(), ref::show(want.cols[c], v).c_str(), ref::show(want.cols[c], want.rows[r][c]).c_str());
                    }
                    SIM_CHECK(store[c].back() == 0xB6B6B6B6B6B6B6B6ull, "outside-touched", "thread %d: column array overrun", sched::self());
                }
        } else if (o.kind % 3 == 1) {
            std::string got;
            odc::core::Table copy(t);
            if (tried(x, "encoded data", [&] { eckit::Buffer b = copy.readEncodedData(true); got.assign(static_cast<const char*>(b.data()), b.size()); }))
                SIM_CHECK(got == x.bytes.substr(want.off, want.len), "wrong-data", "thread %d: encoded data of table %zu differs", sched::self(), i);
        }
        if (o.a == 0) again("advance", [&] { (*it)++; }); else again("advance", [&] { ++*it; });
    }
}
}

// Several threads, each with its own iterators over one list of tables that is built while they walk.
SCENARIO(T02, tables, 6) {
    eckitInit();
    settings(false);
    static Shared x;
    source(x);
    std::unique_ptr<odc::core::TablesReader> t;
    if (x.file) t.reset(new odc::core::TablesReader(eckit::PathName(x.path)));
    else t.reset(new odc::core::TablesReader(new SimHandle(x.st)));
    if (gen(3) == 2) armRead(x, 8 * x.s.size());
    static std::vector<Walk> ws;
    int nw = 2 + int(gen(3));
    for (int i = 0; i < nw; i++) ws.push_back({&x, t.get(), 0, genOps(int(x.s.size()) + 1)});
    sched::begin();
    for (size_t i = 1; i < ws.size(); i++) sched::spawn(walker, &ws[i]);
    walker(&ws[0]);
    sched::joinAll();
    t.reset();
    sched::end();
    state(sched::signature());
}

namespace {
struct CWork { Shared* x; odc_reader_t* rd; size_t* next; bool agg; std::vector<Op> ops; };
bool cok(Shared& x, int rc, const char* op) {
    if (rc == ODC_SUCCESS) return true;
    const char* why = odc_error_string(rc);
    SIM_CHECK(x.faulty && x.hit(), "refused", "thread %d: %s: %s", sched::self(), op, why);
    SIM_CHECK(why && *why, "no-message", "thread %d: %s fails without a message", sched::self(), op);
    count("operation hit by the read failure");
    x.forget();
    return false;
}
void cuse(Shared& x, odc_frame_t* f, const ref::Frame& want, const std::vector<Op>& ops) {
    for (auto& o : ops) {
        step();
        odc_frame_t* v = f;
        if (o.kind == COPY_DECODE || o.kind == COPY) cok(x, odc_copy_frame(f, &v), "odc_copy_frame");
        if (o.kind == DECODE || o.kind == COPY_DECODE) {
            odc_decoder_t* d = nullptr;
            cok(x, odc_new_decoder(&d), "odc_new_decoder");
            cok(x, odc_decoder_defaults_from_frame(d, v), "odc_decoder_defaults_from_frame");
            if (!want.rows.empty() && !want.cols.empty()) {
                long n = 0;
                if (x.hit()) x.forget();
                int rc = o.b == 3 && !x.faulty ? odc_decode_threaded(d, v, &n, 2) : odc_decode(d, v, &n);
                if (cok(x, rc, "odc_decode")) {
                    const void* base = nullptr; long bw = 0, bh = 0; bool cm = true;
                    cok(x, odc_decoder_data_array(d, &base, &bw, &bh, &cm), "odc_decoder_data_array");
                    SIM_CHECK(size_t(n) == want.rows.size() && !cm, "wrong-data", "thread %d: %ld rows decoded, want %zu", sched::self(), n, want.rows.size());
                    size_t off = 0;
                    for (size_t c = 0; c < want.cols.size(); c++) {
                        size_t w = size_t(want.cols[c].width) * 8;
                        for (size_t r = 0; r < want.rows.size(); r++) {
                            const char* q = static_cast<const char*>(base) + r * size_t(bw) + off;
                            ref::Cell e;
                            if (want.cols[c].isStr()) e.s = std::string(q, strnlen(q, w)); else memcpy(&e.d, q, 8);
                            SIM_CHECK(e == want.rows[r][c], "wrong-data", "thread %d: row %zu column %s: got %s, want %s", sched::self(), r, want.cols[c].name.c_str(), ref::show(want.cols[c], e).c_str(), ref::show(want.cols[c], want.rows[r][c]).c_str());
                        }
                        off += w;
                    }
                }
            }
            cok(x, odc_free_decoder(d), "odc_free_decoder");
        } else {
            long nr = 0; int nc = 0, np = 0;
            cok(x, odc_frame_row_count(v, &nr), "odc_frame_row_count");
            cok(x, odc_frame_column_count(v, &nc), "odc_frame_column_count");
            cok(x, odc_frame_properties_count(v, &np), "odc_frame_properties_count");
            SIM_CHECK(size_t(nr) == want.rows.size() && size_t(nc) == want.cols.size() && size_t(np) == want.props.size(), "wrong-data", "thread %d: %ld rows %d columns %d properties, want %zu %zu %zu", sched::self(), nr, nc, np, want.rows.size(), want.cols.size(), want.props.size());
            for (int c = 0; c < nc; c++) {
                const char* nm = nullptr; int ty, sz, nb;
                cok(x, odc_frame_column_attributes(v, c, &nm, &ty, &sz, &nb), "odc_frame_column_attributes");
                SIM_CHECK(nm == want.cols[size_t(c)].name && ty == want.cols[size_t(c)].type, "wrong-data", "thread %d: column %d is %s", sched::self(), c, nm);
            }
            for (auto& kv : want.props) {
                const char* val = nullptr;
                cok(x, odc_frame_property(v, kv.first.c_str(), &val), "odc_frame_property");
                SIM_CHECK(val && kv.second == val, "wrong-data", "thread %d: property %s is '%s'", sched::self(), kv.first.c_str(), val ? val : "(none)");
            }
        }
        if (v != f) cok(x, odc_free_frame(v), "odc_free_frame");
    }
}
void cworker(void* p) {
    CWork& w = *static_cast<CWork*>(p);
    Shared& x = *w.x;
    odc_frame_t* f = nullptr;
    {
        std::lock_guard<std::mutex> l(x.m);
        cok(x, odc_new_frame(&f, w.rd), "odc_new_frame");
    }
    for (;;) {
        const ref::Frame* want = nullptr;
        {
            std::lock_guard<std::mutex> l(x.m);           // the views of a reader share its place in the stream
            if (x.hit()) x.forget();
            int rc = w.agg ? odc_next_frame_aggregated(f, -1) : odc_next_frame(f);
            if (rc == ODC_ITERATION_COMPLETE) { SIM_CHECK(*w.next == x.want.size(), "lost-frame", "end after %zu of %zu frames", *w.next, x.want.size()); break; }
            if (!cok(x, rc, "odc_next_frame")) continue;
            SIM_CHECK(*w.next < x.want.size(), "extra-frame", "a frame after the end");
            want = &x.want[(*w.next)++];
        }
        cuse(x, f, *want, w.ops);
    }
    cok(x, odc_free_frame(f), "odc_free_frame");
}
}

// The same through the C interface: threads share a reader, each with its own frame.
SCENARIO(T02, cframes, 6) {
    eckitInit();
    cInit();
    settings(false);
    static Shared x;
    source(x);
    x.file = true;
    bool agg = gen(2);
    x.want = agg ? aggregate(x.s, -1) : x.s;
    odc_reader_t* rd = nullptr;
    int how = int(gen(3));
    if (how == 0) cok(x, odc_open_path(&rd, x.path.c_str()), "odc_open_path");
    else if (how == 1) { int fd = vfs::openFd(x.path, 0); cok(x, odc_open_file_descriptor(&rd, fd), "odc_open_file_descriptor"); ::close(fd); }
    else cok(x, odc_open_buffer(&rd, x.bytes.data(), long(x.bytes.size())), "odc_open_buffer");
    if (how != 2 && gen(3) == 2) armRead(x, 8 * x.s.size());
    static size_t next = 0;
    static std::vector<CWork> ws;
    int nw = 2 + int(gen(3));
    for (int i = 0; i < nw; i++) ws.push_back({&x, rd, &next, agg, genOps(1 + int(gen(3)))});
    sched::begin();
    for (size_t i = 1; i < ws.size(); i++) sched::spawn(cworker, &ws[i]);
    cworker(&ws[0]);
    sched::joinAll();
    cok(x, odc_close(rd), "odc_close");
    sched::end();
    SIM_CHECK(next == x.want.size(), "lost-frame", "%zu of %zu frames", next, x.want.size());
    state(sched::signature());
}
