// R04 Views on one source are independent in any visiting order.
#include "harness.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <set>
#include <unistd.h>
#include "alloc.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "odc/Indexer.h"
#include "odc/Reader.h"
#include "odc/core/DecodeTarget.h"
#include "odc/core/Table.h"
#include "odc/core/TablesReader.h"
using namespace sim;
using namespace hn;

namespace {
// ------------------------------------------------------------------ reference answers
struct Sets { std::set<long> i; std::set<double> d; std::set<std::string> s; };
Sets valuesOf(const ref::Frame& f, size_t c) {
    Sets x;
    for (auto& r : f.rows) {
        if (f.cols[c].isStr()) x.s.insert(r[c].s);
        else if (f.cols[c].type == ref::INTEGER || f.cols[c].type == ref::BITFIELD) x.i.insert(long(r[c].d));
        else x.d.insert(r[c].d);
    }
    return x;
}
std::string shortName(const ref::Frame& f, size_t c) {        // the name without its table, where that is still unambiguous
    std::string n = f.cols[c].name.substr(0, f.cols[c].name.find('@'));
    for (size_t k = 0; k < f.cols.size(); k++) if (k != c && f.cols[k].name.substr(0, f.cols[k].name.find('@')) == n) return f.cols[c].name;
    return n;
}
std::vector<size_t> someColumns(const ref::Frame& f, Tape t) {
    std::vector<size_t> o;
    for (size_t c = 0; c < f.cols.size(); c++) if (draw(t, 3)) o.push_back(c);
    for (size_t i = 0; i + 1 < o.size(); i++) std::swap(o[i], o[i + draw(t, uint32_t(o.size() - i))]);
    return o;
}
bool uniqueNames(const ref::Frame& f) {
    std::set<std::string> s;
    for (auto& c : f.cols) if (!s.insert(c.name).second) return false;
    return true;
}
void checkSubset(const ref::Frame& want, const std::vector<size_t>& cols, const std::vector<std::vector<ref::Cell>>& got, const char* who) {
    for (size_t k = 0; k < cols.size(); k++)
        for (size_t r = 0; r < want.rows.size(); r++)
            SIM_CHECK(want.rows[r][cols[k]] == got[k][r], "wrong-data", "%s: column subset, row %zu column %s: got %s, want %s", who, r, want.cols[cols[k]].name.c_str(),
                      ref::show(want.cols[cols[k]], got[k][r]).c_str(), ref::show(want.cols[cols[k]], want.rows[r][cols[k]]).c_str());
}
struct Buf {                       // one array per column, with guard words
    std::vector<std::vector<uint64_t>> store;
    std::vector<std::string> names;
    std::vector<odc::api::StridedData> sd;
    Buf(const ref::Frame& f, const std::vector<size_t>& cols, bool shorts) {
        for (size_t c : cols) {
            size_t w = size_t(f.cols[c].width);
            store.emplace_back(f.rows.size() * w + 2, 0xB6B6B6B6B6B6B6B6ull);
            names.push_back(shorts ? shortName(f, c) : f.cols[c].name);
        }
        for (size_t k = 0; k < cols.size(); k++) { size_t w = size_t(f.cols[cols[k]].width) * 8; sd.push_back(odc::api::StridedData(store[k].data() + 1, f.rows.size(), w, w)); }
    }
    std::vector<std::vector<ref::Cell>> cells(const ref::Frame& f, const std::vector<size_t>& cols, bool longs) {
        std::vector<std::vector<ref::Cell>> o;
        for (size_t k = 0; k < cols.size(); k++) {
            SIM_CHECK(store[k].front() == 0xB6B6B6B6B6B6B6B6ull && store[k].back() == 0xB6B6B6B6B6B6B6B6ull, "outside-touched", "column array %zu overrun", k);
            auto& c = f.cols[cols[k]];
            std::vector<ref::Cell> v;
            for (size_t r = 0; r < f.rows.size(); r++) {
                const char* p = reinterpret_cast<const char*>(store[k].data() + 1) + r * size_t(c.width) * 8;
                ref::Cell x;
                if (c.isStr()) x.s = std::string(p, strnlen(p, size_t(c.width) * 8));
                else if (longs && (c.type == ref::INTEGER || c.type == ref::BITFIELD)) { int64_t q; memcpy(&q, p, 8); x.d = double(q); }
                else memcpy(&x.d, p, 8);
                v.push_back(x);
            }
            o.push_back(v);
        }
        return o;
    }
};
void checkPiece(const std::string& bytes, const std::string& path, size_t off, size_t len, const ref::Stream& parts, bool file, const char* who) {
    SIM_CHECK(off + len <= bytes.size(), "wrong-span", "%s: %zu+%zu lies outside the %zu bytes", who, off, len, bytes.size());
    ref::Stream got;
    auto drain = [&](odc::api::Reader& r) { while (odc::api::Frame f = r.next()) { step(); got.push_back(decodeFrame(f, 1, 0, false)); } };
    std::string what;
    bool fine = guarded([&] {
        settings(false);
        if (file) { odc::api::Reader r(new eckit::PartFileHandle(path, off, len), false); drain(r); }
        else { std::string piece = bytes.substr(off, len); odc::api::Reader r(new eckit::MemoryHandle(piece.data(), piece.size()), false); drain(r); }
    }, what);
    SIM_CHECK(fine, "piece-refused", "%s: the bytes %zu+%zu read alone: %s", who, off, len, what.c_str());
    std::string d = diffStream(parts, got);
    SIM_CHECK(d.empty(), "piece-differs", "%s: the bytes %zu+%zu read alone: %s", who, off, len, d.c_str());
}
ref::Stream partsOf(const ref::Stream& s, const ref::Frame& logical) {
    ref::Stream o;
    for (auto& f : s) if (f.off >= logical.off && f.off + f.len <= logical.off + logical.len) o.push_back(f);
    return o;
}
ref::GenOpts opts() {
    ref::GenOpts o;
    o.big = true;
    o.maxFrames = 5;
    if (gen(15) == 14) o.maxRows = 200;
    return o;
}
}

// Any history of operations over readers, frames, copies and table iterators on one source.
SCENARIO(R04, history, 8) {
    eckitInit();
    bool longs = gen(4) == 3;
    settings(false);
    ref::Stream s = ref::genStream(opts());
    std::string bytes = ref::encode(s);
    ref::logStream("in", s);
    const std::string path = "/sim/in.odb";
    vfs::put(path, bytes);
    settings(longs);
    State st = std::make_shared<HandleState>();
    st->data = bytes;
    st->plan.estimate = gen(4) != 3;
    if (gen(3) == 2) st->plan.chunk = 1 + int(gen(60));
    SimHandle shared(st);               // lent to readers that do not own it
    eckit::MemoryHandle lentMem(bytes.data(), bytes.size());
    lentMem.openForRead();

    struct R { std::unique_ptr<odc::api::Reader> r; ref::Stream want; size_t next = 0; bool alive = true; };
    struct F { odc::api::Frame f; ref::Frame want; int reader; };
    std::vector<R> rs;
    std::vector<F> fs;
    struct T { std::unique_ptr<odc::core::TablesReader> t; };
    struct I { odc::core::TablesReader::iterator it; int owner; long pos; };      // pos -1: at the end
    std::vector<T> ts;
    std::vector<I> its;
    uint64_t hist = 1469598103934665603ull;
    int steps = 6 + int(gen(thorough() ? 60 : 28));
    for (int n = 0; n < steps; n++) {
        step();
        int op = int(draw(SCHED, 16));
        if (rs.empty()) op = 0;
        hist = fnv(&op, sizeof op, hist);
        std::string what;
        switch (op) {
            case 0: case 1: {               // open a reader
                if (rs.size() >= 4) break;
                R r;
                bool agg = gen(2);
                long limit = -1;
                if (agg && gen(2)) { limit = long(gen(30)); for (auto& f : s) limit = std::max(limit, long(f.rows.size())); }
                int how = int(gen(4));
                bool fine = guarded([&] {
                    if (how == 0) r.r.reset(new odc::api::Reader(path, agg, limit));
                    else if (how == 1) r.r.reset(new odc::api::Reader(new SimHandle(st), agg, limit));
                    else if (how == 2) r.r.reset(new odc::api::Reader(shared, agg, limit));
                    else r.r.reset(new odc::api::Reader(lentMem, agg, limit));
                }, what);
                log("reader %zu: %s limit %ld via %d", rs.size(), agg ? "aggregated" : "plain", limit, how);
                SIM_CHECK(fine, "refused", "opening: %s", what.c_str());
                r.want = agg ? aggregate(s, limit) : s;
                rs.push_back(std::move(r));
                break;
            }
            case 2: case 3: case 4: {       // advance
                size_t i = draw(SCHED, uint32_t(rs.size()));
                if (!rs[i].alive) break;
                odc::api::Frame f;
                bool fine = guarded([&] { f = rs[i].r->next(); }, what);
                log("reader %zu next -> %s", i, fine ? f ? "frame" : "end" : what.c_str());
                SIM_CHECK(fine, "refused", "next: %s", what.c_str());
                if (rs[i].next >= rs[i].want.size()) { SIM_CHECK(!f, "extra-frame", "a frame after the end"); break; }
                SIM_CHECK(bool(f), "lost-frame", "end after %zu of %zu frames", rs[i].next, rs[i].want.size());
                fs.push_back({std::move(f), rs[i].want[rs[i].next++], int(i)});
                break;
            }
            case 5: {                       // copy
                if (fs.empty()) break;
                size_t i = draw(SCHED, uint32_t(fs.size()));
                log("copy view %zu", i);
                if (gen(2)) fs.push_back({odc::api::Frame(fs[i].f), fs[i].want, fs[i].reader});
                else { size_t j = draw(SCHED, uint32_t(fs.size())); if (i != j) { fs[j].f = fs[i].f; fs[j].want = fs[i].want; fs[j].reader = fs[i].reader; } }
                break;
            }
            case 6: case 7: {               // decode everything
                if (fs.empty()) break;
                size_t i = draw(SCHED, uint32_t(fs.size()));
                ref::Frame g;
                bool fine = guarded([&] { g = decodeFrame(fs[i].f, 1, int(gen(3)), longs); }, what);
                log("decode view %zu", i);
                SIM_CHECK(fine, "refused", "decode: %s", what.c_str());
                std::string d = diffFrame(fs[i].want, g);
                SIM_CHECK(d.empty(), "wrong-data", "view %zu: %s", i, d.c_str());
                break;
            }
            case 8: {                       // decode some columns
                if (fs.empty()) break;
                size_t i = draw(SCHED, uint32_t(fs.size()));
                auto cols = someColumns(fs[i].want, GEN);
                bool shorts = gen(3) == 2;
                Buf b(fs[i].want, cols, shorts);
                bool fine = guarded([&] { odc::api::Decoder d(b.names, b.sd); d.decode(fs[i].f, 1); }, what);
                log("decode %zu columns of view %zu", cols.size(), i);
                SIM_CHECK(fine, "refused", "decode of a column subset: %s", what.c_str());
                checkSubset(fs[i].want, cols, b.cells(fs[i].want, cols, longs), strf("view %zu", i).c_str());
                break;
            }
            case 9: {                       // describe
                if (fs.empty()) break;
                size_t i = draw(SCHED, uint32_t(fs.size()));
                ref::Frame g = describeFrame(fs[i].f), w = fs[i].want;
                SIM_CHECK(fs[i].f.rowCount() == w.rows.size(), "wrong-data", "row count %zu, want %zu", fs[i].f.rowCount(), w.rows.size());
                w.rows.clear();
                log("describe view %zu", i);
                std::string d = diffFrame(w, g);
                SIM_CHECK(d.empty(), "wrong-data", "view %zu: %s", i, d.c_str());
                for (auto& c : w.cols) SIM_CHECK(fs[i].f.hasColumn(c.name), "wrong-data", "column %s is said not to be there", c.name.c_str());
                SIM_CHECK(!fs[i].f.hasColumn("no_such_column"), "wrong-data", "a column that is not there is said to be");
                break;
            }
            case 10: {                      // span
                if (fs.empty()) break;
                size_t i = draw(SCHED, uint32_t(fs.size()));
                auto& w = fs[i].want;
                auto cols = someColumns(w, GEN);
                std::vector<std::string> names;
                for (size_t c : cols) names.push_back(w.cols[c].name);
                log("span of %zu columns of view %zu", cols.size(), i);
                bool fine = guarded([&] {
                    odc::api::Span sp = fs[i].f.span(names, false);
                    SIM_CHECK(size_t((long long)sp.offset()) == w.off && size_t((long long)sp.length()) == w.len, "wrong-span", "view %zu: span %lld+%lld, want %zu+%zu", i, (long long)sp.offset(), (long long)sp.length(), w.off, w.len);
                    bool hasEmpty = false;
                    for (auto& f : partsOf(s, w)) if (f.rows.empty()) hasEmpty = true;
                    for (size_t k = 0; k < cols.size() && !hasEmpty; k++) {
                        Sets x = valuesOf(w, cols[k]);
                        auto& c = w.cols[cols[k]];
                        if (c.isStr()) SIM_CHECK(sp.getStringValues(c.name) == x.s, "wrong-span", "view %zu: string values of %s (%s): %zu, want %zu", i, c.name.c_str(), c.codec.c_str(), sp.getStringValues(c.name).size(), x.s.size());
                        else if (c.type == ref::INTEGER || c.type == ref::BITFIELD) SIM_CHECK(sp.getIntegerValues(c.name) == x.i, "wrong-span", "view %zu: integer values of %s (%s)", i, c.name.c_str(), c.codec.c_str());
                        else SIM_CHECK(sp.getRealValues(c.name) == x.d, "wrong-span", "view %zu: real values of %s (%s)", i, c.name.c_str(), c.codec.c_str());
                    }
                }, what);
                SIM_CHECK(fine, "refused", "span: %s", what.c_str());
                break;
            }
            case 11: {                      // the stored bytes, and the place they are said to be at
                if (fs.empty()) break;
                size_t i = draw(SCHED, uint32_t(fs.size()));
                auto& w = fs[i].want;
                size_t off = size_t((long long)fs[i].f.offset()), len = size_t((long long)fs[i].f.length());
                log("bytes of view %zu", i);
                SIM_CHECK(off == w.off && len == w.len, "wrong-span", "view %zu: at %zu+%zu, want %zu+%zu", i, off, len, w.off, w.len);
                if (gen(2)) {
                    std::string got;
                    bool fine = guarded([&] { eckit::Buffer b = fs[i].f.encodedData(); got.assign(static_cast<const char*>(b.data()), b.size()); }, what);
                    SIM_CHECK(fine, "refused", "encodedData: %s", what.c_str());
                    SIM_CHECK(got == bytes.substr(off, len), "wrong-data", "view %zu: encoded data differs from the stored bytes", i);
                } else { checkPiece(bytes, path, off, len, partsOf(s, w), gen(2), strf("view %zu", i).c_str()); settings(longs); }
                break;
            }
            case 12: {                      // filter through a view
                if (fs.empty() || longs) break;
                size_t i = draw(SCHED, uint32_t(fs.size()));
                auto& w = fs[i].want;
                if (w.rows.empty() || !uniqueNames(w) || partsOf(s, w)[0].rows.empty()) break;   // a frame without rows does not set the order of 'select *'
                ref::Frame g;
                bool fine = guarded([&] { odc::api::Frame f = fs[i].f.filter("select *"); g = decodeFrame(f, 1, 0, false); }, what);
                log("filter through view %zu: %s", i, what.c_str());
                SIM_CHECK(fine, "refused", "filter: %s", what.c_str());
                CmpOpts c; c.props = false; c.width = false; c.zeroSign = false;   // a column of 0 and -0 is stored as the constant 0
                ref::Frame want = w;
                bool one = true;
                for (auto& p : partsOf(s, w)) for (auto& k : want.cols) one = one && k.missing == p.cols[size_t(p.find(k.name))].missing;
                if (!one) break;        // what is missing differs between the frames
                selected(want);
                std::string d = diffFrame(want, g, c);
                SIM_CHECK(d.empty(), "wrong-data", "view %zu filtered with 'select *': %s", i, d.c_str());
                break;
            }
            case 13: {                      // drop a view or a reader
                if (gen(4) == 3) {
                    size_t i = draw(SCHED, uint32_t(rs.size()));
                    log("drop reader %zu", i);
                    rs[i].r.reset(); rs[i].alive = false;
                }
                else if (!fs.empty()) { size_t i = draw(SCHED, uint32_t(fs.size())); log("drop view %zu", i); fs.erase(fs.begin() + long(i)); }
                break;
            }
            case 14: {                      // table iterators
                if (ts.empty() || (ts.size() < 3 && gen(4) == 0)) {
                    T t;
                    bool fine = guarded([&] { t.t.reset(gen(2) ? new odc::core::TablesReader(eckit::PathName(path)) : new odc::core::TablesReader(shared)); }, what);
                    SIM_CHECK(fine, "refused", "TablesReader: %s", what.c_str());
                    ts.push_back(std::move(t));
                }
                if (its.empty() || gen(3) == 0) {
                    size_t o = draw(SCHED, uint32_t(ts.size()));
                    bool fine = guarded([&] { its.push_back({ts[o].t->begin(), int(o), s.empty() ? -1 : 0}); }, what);
                    SIM_CHECK(fine, "refused", "begin: %s", what.c_str());
                }
                else if (gen(4) == 0) its.push_back(its[draw(SCHED, uint32_t(its.size()))]);
                else {
                    I& x = its[draw(SCHED, uint32_t(its.size()))];
                    if (x.pos < 0) break;
                    bool post = gen(2);
                    bool fine = guarded([&] { if (post) { auto old = x.it++; SIM_CHECK(size_t((long long)old->startPosition()) == s[size_t(x.pos)].off, "wrong-table", "post-increment"); } else ++x.it; }, what);
                    SIM_CHECK(fine, "refused", "advancing a table iterator: %s", what.c_str());
                    x.pos = size_t(x.pos) + 1 < s.size() ? x.pos + 1 : -1;
                }
                log("%zu table readers, %zu iterators", ts.size(), its.size());
                break;
            }
            default: {                      // look through a table iterator
                if (its.empty()) break;
                I& x = its[draw(SCHED, uint32_t(its.size()))];
                bool atEnd = x.it == ts[size_t(x.owner)].t->end();
                SIM_CHECK(atEnd == (x.pos < 0), "wrong-table", "iterator at %ld: at end %d", x.pos, int(atEnd));
                if (x.pos < 0) break;
                auto& w = s[size_t(x.pos)];
                SIM_CHECK(size_t((long long)x.it->startPosition()) == w.off && size_t((long long)x.it->nextPosition()) == w.off + w.len && x.it->rowCount() == w.rows.size() && x.it->columnCount() == w.cols.size(),
                          "wrong-table", "iterator at table %ld describes another table", x.pos);
                auto cols = someColumns(w, GEN);
                Buf b(w, cols, false);
                bool fine = guarded([&] {
                    odc::core::DecodeTarget tgt(b.names, b.sd);
                    if (gen(2)) x.it->decode(tgt); else { odc::core::Table copy(*x.it); copy.decode(tgt); }
                }, what);
                SIM_CHECK(fine, "refused", "decoding through a table iterator: %s", what.c_str());
                log("decode table %ld", x.pos);
                checkSubset(w, cols, b.cells(w, cols, longs), "table iterator");
            }
        }
        if (fs.size() > 12) fs.erase(fs.begin());
        if (its.size() > 8) its.erase(its.begin());
    }
    state(fnv(&hist, sizeof hist, s.size()));
}

namespace {
void ok(int rc, const char* what) {
    if (rc == ODC_SUCCESS) return;
    violation("refused", "%s: %s", what, odc_error_string(rc));
}
ref::Frame cDescribe(const odc_frame_t* f, bool idxFirst) {
    ref::Frame r;
    int nc = 0, np = 0; long nr = 0;
    ok(odc_frame_column_count(f, &nc), "odc_frame_column_count");
    ok(odc_frame_row_count(f, &nr), "odc_frame_row_count");
    r.rows.resize(size_t(nr));
    for (int c = 0; c < nc; c++) {
        const char* nm = nullptr; int ty = 0, sz = 0, nb = 0;
        ok(odc_frame_column_attributes(f, c, &nm, &ty, &sz, &nb), "odc_frame_column_attributes");
        ref::Col k; k.name = nm; k.type = ty; k.width = sz / 8;
        for (int b = 0; b < nb; b++) { const char* bn = nullptr; int bo, bs; ok(odc_frame_bitfield_attributes(f, c, b, &bn, &bo, &bs), "odc_frame_bitfield_attributes"); k.bits.push_back({bn, bs}); }
        r.cols.push_back(k);
    }
    ok(odc_frame_properties_count(f, &np), "odc_frame_properties_count");
    (void)idxFirst;
    for (int i = 0; i < np; i++) {
        int j = idxFirst ? i : np - 1 - i;
        const char *k = nullptr, *v = nullptr, *w = nullptr;
        ok(odc_frame_property_idx(f, j, &k, &v), "odc_frame_property_idx");
        r.props[k] = v;
        ok(odc_frame_property(f, k, &w), "odc_frame_property");
        SIM_CHECK(w && !strcmp(v, w), "wrong-data", "property %s: '%s' by index, '%s' by name", k, v, w ? w : "(none)");
    }
    return r;
}
}

// The same through the C interface: frames, their copies and decoders that outlive one another.
SCENARIO(R04, chistory, 6) {
    eckitInit();
    cInit();
    settings(false);
    ref::Stream s = ref::genStream(opts());
    std::string bytes = ref::encode(s);
    ref::logStream("in", s);
    const std::string path = "/sim/in.odb";
    vfs::put(path, bytes);
    if (bytes.empty()) return;
    bool agg = gen(2);
    long limit = -1;
    if (agg && gen(2)) { limit = long(gen(30)); for (auto& f : s) limit = std::max(limit, long(f.rows.size())); }
    ref::Stream want = agg ? aggregate(s, limit) : s;
    struct V { odc_frame_t* f; long at; };          // at: index into want, -1 nothing yet, -2 past the end
    struct D { odc_decoder_t* d; long rows; };
    odc_reader_t* rd = nullptr;
    int fd = -1;
    int how = int(gen(3));
    if (how == 0) ok(odc_open_path(&rd, path.c_str()), "odc_open_path");
    else if (how == 1) { fd = vfs::openFd(path, 0); ok(odc_open_file_descriptor(&rd, fd), "odc_open_file_descriptor"); ::close(fd); }
    else ok(odc_open_buffer(&rd, bytes.data(), long(bytes.size())), "odc_open_buffer");
    std::vector<V> vs;
    size_t next = 0;
    bool closed = false;
    uint64_t hist = 7;
    int steps = 6 + int(gen(thorough() ? 50 : 26));
    auto match = [&](size_t i, const ref::Frame& g) {
        std::string d = diffFrame(want[size_t(vs[i].at)], g);
        SIM_CHECK(d.empty(), "wrong-data", "view %zu at frame %ld: %s", i, vs[i].at, d.c_str());
    };
    for (int n = 0; n < steps; n++) {
        step();
        int op = int(draw(SCHED, 12));
        if (vs.empty()) op = 0;
        hist = fnv(&op, sizeof op, hist);
        switch (op) {
            case 0: {
                if (closed || vs.size() > 6) break;
                odc_frame_t* f = nullptr;
                ok(odc_new_frame(&f, rd), "odc_new_frame");
                vs.push_back({f, -1});
                break;
            }
            case 1: case 2: case 3: {
                if (closed) break;
                size_t i = draw(SCHED, uint32_t(vs.size()));
                int rc = agg ? odc_next_frame_aggregated(vs[i].f, limit) : odc_next_frame(vs[i].f);
                log("view %zu next -> %d", i, rc);
                if (next < want.size()) { ok(rc, "next frame"); vs[i].at = long(next++); }
                else { SIM_CHECK(rc == ODC_ITERATION_COMPLETE, "extra-frame", "after the last frame: %d", rc); vs[i].at = -2; }
                break;
            }
            case 4: case 5: {
                if (vs.size() > 8) break;
                size_t i = draw(SCHED, uint32_t(vs.size()));
                if (vs[i].at < 0) break;
                odc_frame_t* c = nullptr;
                ok(odc_copy_frame(vs[i].f, &c), "odc_copy_frame");
                log("copy view %zu", i);
                vs.push_back({c, vs[i].at});
                break;
            }
            case 6: {
                size_t i = draw(SCHED, uint32_t(vs.size()));
                log("free view %zu", i);
                ok(odc_free_frame(vs[i].f), "odc_free_frame");
                vs.erase(vs.begin() + long(i));
                break;
            }
            case 7: case 8: {
                size_t i = draw(SCHED, uint32_t(vs.size()));
                if (vs[i].at < 0) break;
                log("describe view %zu", i);
                ref::Frame g = cDescribe(vs[i].f, gen(2)), w = want[size_t(vs[i].at)];
                SIM_CHECK(g.rows.size() == w.rows.size(), "wrong-data", "%zu rows, want %zu", g.rows.size(), w.rows.size());
                w.rows.clear(); g.rows.clear();
                std::string d = diffFrame(w, g);
                SIM_CHECK(d.empty(), "wrong-data", "view %zu at frame %ld: %s", i, vs[i].at, d.c_str());
                break;
            }
            case 9: {
                if (closed || gen(3)) break;
                log("close the reader");
                ok(odc_close(rd), "odc_close");
                rd = nullptr;
                closed = true;
                n = steps;                  // frames of a closed reader may only be freed
                break;
            }
            default: {
                size_t i = draw(SCHED, uint32_t(vs.size()));
                if (vs[i].at < 0) break;
                auto& w = want[size_t(vs[i].at)];
                auto cols = someColumns(w, GEN);
                if (cols.empty() || w.rows.empty()) break;
                odc_decoder_t* d = nullptr;
                ok(odc_new_decoder(&d), "odc_new_decoder");
                for (size_t c : cols) ok(odc_decoder_add_column(d, w.cols[c].name.c_str()), "odc_decoder_add_column");
                bool cm = gen(2);
                ok(odc_decoder_set_column_major(d, cm), "odc_decoder_set_column_major");
                ok(odc_decoder_set_row_count(d, long(w.rows.size()) + long(gen(3) == 2 ? gen(4) : 0)), "odc_decoder_set_row_count");
                long got = 0;
                ok(odc_decode(d, vs[i].f, &got), "odc_decode");
                log("decode %zu columns of view %zu", cols.size(), i);
                SIM_CHECK(size_t(got) == w.rows.size(), "wrong-data", "%ld rows decoded, want %zu", got, w.rows.size());
                std::vector<std::vector<ref::Cell>> cells;
                const void* base = nullptr; long bw = 0, bh = 0; bool bcm = !cm;
                ok(odc_decoder_data_array(d, &base, &bw, &bh, &bcm), "odc_decoder_data_array");
                SIM_CHECK(bcm == cm && size_t(bh) >= w.rows.size(), "wrong-data", "data array: height %ld column-major %d", bh, int(bcm));
                size_t o = 0;
                for (size_t c : cols) {
                    size_t width = size_t(w.cols[c].width);
                    std::vector<ref::Cell> v;
                    for (size_t r = 0; r < w.rows.size(); r++) {
                        std::string cell(width * 8, 0);
                        for (size_t k = 0; k < width; k++) memcpy(&cell[k * 8], static_cast<const char*>(base) + (cm ? o + (k * size_t(bh) + r) * 8 : r * size_t(bw) + o + k * 8), 8);
                        ref::Cell x;
                        if (w.cols[c].isStr()) x.s = std::string(cell.data(), strnlen(cell.data(), cell.size()));
                        else memcpy(&x.d, cell.data(), 8);
                        v.push_back(x);
                    }
                    o += width * 8 * (cm ? size_t(bh) : 1);
                    cells.push_back(v);
                }
                checkSubset(w, cols, cells, strf("view %zu", i).c_str());
                ok(odc_free_decoder(d), "odc_free_decoder");
            }
        }
    }
    for (auto& v : vs) ok(odc_free_frame(v.f), "odc_free_frame");
    if (!closed) ok(odc_close(rd), "odc_close");
    state(fnv(&hist, sizeof hist, s.size() * 3 + size_t(how)));
}

// The index of a file names the blocks, and each block read on its own is that frame.
SCENARIO(R04, index, 2) {
    eckitInit();
    settings(false);
    ref::GenOpts o = opts();
    o.minRows = 1;
    ref::Stream s = ref::genStream(o);
    // every frame gets one integer column seqno
    for (auto& f : s) {
        for (auto& c : f.cols) if (c.name.compare(0, 5, "seqno") == 0 && c.name != "seqno") c.name[0] = 'z';
        int at = f.find("seqno");
        if (at < 0) { ref::Col c; c.name = "seqno"; c.type = ref::INTEGER; f.cols.push_back(c); at = int(f.cols.size()) - 1; for (auto& r : f.rows) r.push_back(ref::Cell()); }
        f.cols[size_t(at)].type = ref::INTEGER;
        f.cols[size_t(at)].bits.clear();
        f.cols[size_t(at)].width = 1;
        f.cols[size_t(at)].missing = ref::INT_MDI;
        int v = int(gen(4));
        for (auto& r : f.rows) { if (gen(3) == 0) v = int(gen(5)); r[size_t(at)] = ref::Cell(); r[size_t(at)].d = v; }
        ref::chooseCodecs(f, true);
    }
    std::string bytes = ref::encode(s);
    ref::logStream("in", s);
    const std::string path = "/sim/in.odb";
    vfs::put(path, bytes);
    std::string what;
    bool fine = guarded([&] { odc::Indexer::createIndex(std::vector<eckit::PathName>{eckit::PathName(path)}); }, what);
    SIM_CHECK(fine, "refused", "createIndex: %s", what.c_str());
    ref::Decoded d = ref::decode(vfs::get(path + ".idx"));
    SIM_CHECK(d.ok, "wrong-span", "the index file is not readable: %s", d.error.c_str());
    std::vector<std::vector<long>> got, want;
    for (auto& f : d.frames) for (auto& r : f.rows) { std::vector<long> x; for (auto& c : r) x.push_back(long(c.d)); got.push_back(x); }
    for (auto& f : s) {
        size_t at = size_t(f.find("seqno"));
        for (size_t r = 0; r < f.rows.size();) {
            size_t e = r;
            while (e < f.rows.size() && f.rows[e][at].d == f.rows[r][at].d) e++;
            want.push_back({long(f.off), long(f.len), long(f.rows[r][at].d), long(e - r)});
            r = e;
        }
    }
    SIM_CHECK(got == want, "wrong-span", "the index holds %zu entries, want %zu, or an entry differs", got.size(), want.size());
    for (auto& e : got) {
        size_t i = 0;
        while (i < s.size() && long(s[i].off) != e[0]) i++;
        checkPiece(bytes, path, size_t(e[0]), size_t(e[1]), {s[i]}, gen(2), "index");
    }
    state(fnv(bytes.data(), std::min<size_t>(bytes.size(), 200)));
}
