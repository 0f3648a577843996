// W02 Encoded arrays decode to the same table for any slicing and layout.
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include "odc/core/TablesReader.h"
#include "wgen.h"
using namespace sim;
using namespace hn;

namespace {
const char* viaName(int v) { static const char* n[] = {"c++", "c-stream", "c-fd", "c-buffer"}; return n[v]; }

struct Bad { std::string what; };
void ok(int rc, const char* what) {
    if (rc == ODC_SUCCESS) return;
    const char* m = odc_error_string(rc);
    throw Bad{strf("%s: %s", what, m ? m : "(null)")};
}
long sink(void* ctx, const void* b, long n) { static_cast<std::string*>(ctx)->append(static_cast<const char*>(b), size_t(n)); return n; }

void checkStored(const ref::Frame& t, size_t perFrame, const std::string& bytes, const char* via) {
    ref::Decoded d = ref::decode(bytes);
    SIM_CHECK(d.ok, "not-odb", "%s: the encoded bytes are not a valid stream: %s", via, d.error.c_str());
    SIM_CHECK(d.clean == bytes.size(), "not-odb", "%s: %zu bytes, frames end at %zu", via, bytes.size(), d.clean);
    stripEncoder(d.frames);
    size_t at = 0, want = (t.rows.size() + perFrame - 1) / perFrame;
    SIM_CHECK(d.frames.size() == want, "frame-count", "%s: %zu rows at %zu per frame gave %zu frames", via, t.rows.size(), perFrame, d.frames.size());
    for (auto& f : d.frames) {
        std::string e = wr::diffCols(t.cols, f.cols);
        SIM_CHECK(e.empty(), "columns", "%s: %s", via, e.c_str());
        SIM_CHECK(f.props == t.props, "properties", "%s: properties differ", via);
        size_t n = std::min(perFrame, t.rows.size() - at);
        SIM_CHECK(f.rows.size() == n, "frame-rows", "%s: a frame has %zu rows, want %zu", via, f.rows.size(), n);
        e = wr::diffRows(t, f, at, n);
        SIM_CHECK(e.empty(), "stored", "%s: %s", via, e.c_str());
        at += n;
    }
}
// Decodes some columns, in some order, into separate arrays of any stride; checks what lies around them.
void decodeSubset(const ref::Frame& t, const std::string& bytes, bool agg, long limit, bool longs) {
    SimHandle h([&] { auto s = std::make_shared<HandleState>(); s->data = bytes; return s; }());
    odc::api::Reader rd(h, agg, limit);
    std::vector<size_t> cols;
    for (size_t i = 0; i < t.cols.size(); i++) if (gen(3)) cols.push_back(i);
    if (cols.empty()) cols.push_back(gen(uint32_t(t.cols.size())));
    for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[gen(uint32_t(i))]);
    bool simple = gen(3) == 2;
    size_t at = 0;
    while (true) {
        step();
        odc::api::Frame f = rd.next();
        if (!f) break;
        size_t n = f.rowCount();
        SIM_CHECK(at + n <= t.rows.size(), "row-count", "more rows than were encoded");
        struct Dst { std::unique_ptr<char[]> mem; size_t stride, size, total; };
        std::vector<Dst> dst;
        std::vector<std::string> names;
        std::vector<odc::api::StridedData> sd;
        for (size_t c : cols) {
            std::string nm = t.cols[c].name;
            if (simple) nm = nm.substr(0, nm.find('@'));
            names.push_back(nm);
            size_t have = 0;
            for (auto& ci : f.columnInfo()) if (ci.name == t.cols[c].name) have = ci.decodedSize;
            SIM_CHECK(have >= 8 && have % 8 == 0 && have <= size_t(t.cols[c].width) * 8, "decoded-size", "column %s: decoded size %zu, %d words were encoded", t.cols[c].name.c_str(), have, t.cols[c].width);
            Dst x;
            x.size = have + (t.cols[c].isStr() && gen(4) == 3 ? 8 : 0);
            x.stride = x.size + 8 * (gen(2) ? gen(4) : 0);
            x.total = n ? (n - 1) * x.stride + x.size : 8;
            x.mem.reset(new char[x.total]);
            memset(x.mem.get(), 0xA5, x.total);
            sd.push_back(odc::api::StridedData(x.mem.get(), n, x.size, x.stride));
            dst.push_back(std::move(x));
        }
        odc::api::Decoder d(names, sd);
        d.decode(f, 1);
        for (size_t k = 0; k < cols.size(); k++) {
            const ref::Col& c = t.cols[cols[k]];
            for (size_t r = 0; r < n; r++) {
                const char* p = dst[k].mem.get() + r * dst[k].stride;
                ref::Cell v;
                if (c.isStr()) v.s = std::string(p, strnlen(p, dst[k].size));
                else if (longs && (c.type == ref::INTEGER || c.type == ref::BITFIELD)) { int64_t i; memcpy(&i, p, 8); v.d = double(i); }
                else memcpy(&v.d, p, 8);
                SIM_CHECK(wr::same(c, t.rows[at + r][cols[k]], v), "decoded", "row %zu column %s: decoded %s, encoded %s", at + r, c.name.c_str(), ref::show(c, v).c_str(), ref::show(c, t.rows[at + r][cols[k]]).c_str());
                for (size_t b = dst[k].size; b < dst[k].stride && r + 1 < n; b++)
                    SIM_CHECK(p[b] == char(0xA5), "outside-touched", "column %s: byte %zu after row %zu was changed", c.name.c_str(), b - dst[k].size, at + r);
            }
        }
        at += n;
    }
    SIM_CHECK(at == t.rows.size(), "row-count", "%zu rows decoded, %zu encoded", at, t.rows.size());
}
void encodeC(odc_encoder_t* e, const ref::Frame& t, const wr::Arrays& a, int via, bool perColumn, std::string& out) {
    if (!perColumn) {
        size_t width = 0;
        for (auto& c : t.cols) width += size_t(c.width) * 8;
        ok(odc_encoder_set_data_array(e, a.at[0], long(a.kind == 4 ? width : a.stride[0]), long(t.rows.size()), a.kind == 4 ? 8 : 0), "odc_encoder_set_data_array");
    }
    long n = -1;
    if (via == 1) ok(odc_encode_to_stream(e, &out, sink, &n), "odc_encode_to_stream");
    else if (via == 2) {
        vfs::quiet(true);
        vfs::put("/sim/out.odb", "");
        vfs::quiet(false);
        int fd = vfs::openFd("/sim/out.odb", O_WRONLY | O_TRUNC);
        int rc = odc_encode_to_file_descriptor(e, fd, &n);
        ::close(fd);
        ok(rc, "odc_encode_to_file_descriptor");
        out = vfs::get("/sim/out.odb");
    } else {
        std::string tmp;
        size_t cap = 1 << 17;
        std::unique_ptr<char[]> buf(new char[cap]);
        ok(odc_encode_to_buffer(e, buf.get(), long(cap), &n), "odc_encode_to_buffer");
        SIM_CHECK(n >= 0 && size_t(n) <= cap, "bytes-encoded", "%ld bytes reported for a buffer of %zu", n, cap);
        out.assign(buf.get(), size_t(n));
    }
    SIM_CHECK(n == long(out.size()), "bytes-encoded", "%ld bytes reported, %zu written", n, out.size());
}
void roundtrip(wr::Opts o) {
    eckitInit();
    cInit();
    wr::Env e = wr::genEnv(), e2 = gen(3) == 2 ? wr::genEnv() : e;
    wr::apply(e);
    o.imiss = e.imiss; o.rmiss = e.rmiss; o.longs = e.longs;
    ref::Frame t = wr::genTable(o);
    int via = int(gen(4));
    size_t perFrame = gen(t.rows.size() > 240 ? 2 : 3) ? 1 + gen(uint32_t(t.rows.size() + 3)) : 10000;
    size_t width = 0;
    for (auto& c : t.cols) width += size_t(c.width) * 8;
    if (via == 3 && (t.rows.size() * (width + 2) + 700 * ((t.rows.size() + perFrame - 1) / perFrame) * (1 + t.cols.size()) > (1 << 17))) via = 1;
    ref::logStream("in", ref::Stream{t});
    log("via %s perFrame %zu longs %d/%d missing %g %g", viaName(via), perFrame, e.longs, e2.longs, e.imiss, e.rmiss);
    std::string bytes, what;
    if (via == 0) {
        int kind = int(gen(4));
        wr::Arrays a = wr::lay(t, kind, e.longs);
        auto st = std::make_shared<HandleState>();
        SimHandle h(st);
        bool fine = guarded([&] { odc::api::encode(h, wr::infos(t), a.strided(t.rows.size()), t.props, perFrame); }, what);
        SIM_CHECK(fine, "encode-refused", "encode of a valid table failed: %s", what.c_str());
        bytes = st->data;
        checkStored(t, perFrame, bytes, viaName(via));
        state(fnv(&kind, 4, 1));
    } else {
        try {
            odc_encoder_t* enc = nullptr;
            ok(odc_new_encoder(&enc), "odc_new_encoder");
            struct G { odc_encoder_t* e; ~G() { odc_free_encoder(e); } } g{enc};
            for (size_t i = 0; i < t.cols.size(); i++) {
                auto& c = t.cols[i];
                ok(odc_encoder_add_column(enc, c.name.c_str(), c.type), "odc_encoder_add_column");
                for (auto& b : c.bits) ok(odc_encoder_column_add_bitfield(enc, int(i), b.first.c_str(), b.second), "odc_encoder_column_add_bitfield");
            }
            for (auto& kv : t.props) ok(odc_encoder_add_property(enc, kv.first.c_str(), kv.second.c_str()), "odc_encoder_add_property");
            if (perFrame != 10000 || gen(2)) ok(odc_encoder_set_rows_per_frame(enc, long(perFrame)), "odc_encoder_set_rows_per_frame");
            bool perColumn = gen(2);
            int sessions = 1 + int(gen(3) == 2 ? gen(3) : 0);
            ref::Frame cur = t;
            for (int s = 0; s < sessions; s++) {
                if (s) { wr::genRows(cur, o.minRows + int(gen(uint32_t(o.maxRows - o.minRows + 1))), o); }
                bool some = gen(5) == 4 && cur.rows.size() > 1;          // fewer rows than the arrays hold
                wr::Arrays a;
                if (perColumn) {
                    a = wr::lay(cur, gen(2) ? 3 : int(gen(3)), e.longs);
                    for (size_t i = 0; i < cur.cols.size(); i++) {
                        bool dense = a.stride[i] == a.size[i] && gen(2);
                        ok(odc_encoder_column_set_data_array(enc, int(i), int(a.size[i]), dense ? 0 : int(a.stride[i]), a.at[i]), "odc_encoder_column_set_data_array");
                    }
                } else {
                    static const int kinds[] = {0, 4, 2};
                    a = wr::lay(cur, kinds[gen(3)], e.longs);
                    for (size_t i = 0; i < cur.cols.size(); i++) if (cur.cols[i].width != 1 || gen(2)) ok(odc_encoder_column_set_data_size(enc, int(i), cur.cols[i].width * 8), "odc_encoder_column_set_data_size");
                    some = some && s == 0 && sessions == 1;              // an explicit row count stays in force
                }
                ref::Frame stored = cur;
                if (some) stored.rows.resize(1 + gen(uint32_t(cur.rows.size())));
                if (perColumn || some) ok(odc_encoder_set_row_count(enc, long(stored.rows.size())), "odc_encoder_set_row_count");
                std::string out;
                encodeC(enc, cur, a, via, perColumn, out);
                checkStored(stored, perFrame, out, viaName(via));
                if (s + 1 == sessions) { bytes = out; t = stored; }
            }
            state(fnv(&sessions, 4, uint64_t(100 + via * 2 + perColumn)));
        } catch (Bad& b) { violation("encode-refused", "encoding a valid table failed: %s", b.what.c_str()); }
    }
    count(viaName(via));
    for (auto& f : ref::decode(bytes).frames) for (auto& c : f.cols) { mix(fnv(c.codec.data(), c.codec.size())); state(fnv(c.codec.data(), c.codec.size(), uint64_t(c.type) * 16 + uint64_t(c.hasMissing))); }
    // read it back under other settings
    wr::apply(e2);
    ReadPlan p;
    drawDelivery(p);
    p.longs = e2.longs;
    ref::Decoded d = ref::decode(bytes);
    if (p.limit >= 0) { long m = 0; for (auto& f : d.frames) m = std::max(m, long(f.rows.size())); p.limit = std::max(p.limit, m); }
    bool forwardOnly = p.how == D_STREAM || (p.how == D_SIM && !p.plan.seekable);
    if ((p.api == A_ROWS || p.api == A_SQL) && p.longs) { p.api = A_CXX; p.how = D_PATH; }
    log("%s", p.describe().c_str());
    Got g = readAll(p, bytes);
    if (!(g.error && aggregated(p.api) && forwardOnly)) {
        SIM_CHECK(!g.error, "refused", "reading back failed (%s): %s", p.describe().c_str(), g.what.c_str());
        ref::Frame have = wr::join(g.frames);
        if (p.api == A_SQL && have.rows.size() == t.rows.size())        // SQL shows missing values as the missing value in force
            for (size_t r = 0; r < t.rows.size(); r++)
                for (size_t c = 0; c < t.cols.size(); c++) {
                    const ref::Col& k = t.cols[c];
                    if (!k.isStr() && (t.rows[r][c].d == k.missing || (k.type == ref::REAL && double(float(t.rows[r][c].d)) == k.missing)) && have.rows[r][c].d == (k.type == ref::REAL || k.type == ref::DOUBLE ? e2.rmiss : e2.imiss)) have.rows[r][c].d = t.rows[r][c].d;
                }
        std::string x = wr::diffRows(t, have);
        SIM_CHECK(x.empty(), "read-back", "%s: %s", p.describe().c_str(), x.c_str());
        if (p.api != A_SQL) {
            ref::Stream want = expected(p, d.frames);
            CmpOpts c;
            c.zeroSign = false;
            SIM_CHECK(want.size() == g.frames.size(), "read-frames", "%s: %zu frames, want %zu", p.describe().c_str(), g.frames.size(), want.size());
            for (size_t i = 0; i < want.size(); i++) {
                std::string y = wr::diffCols(want[i].cols, g.frames[i].cols);
                SIM_CHECK(y.empty(), "read-columns", "%s: %s", p.describe().c_str(), y.c_str());
                SIM_CHECK(want[i].props == g.frames[i].props && want[i].rows.size() == g.frames[i].rows.size(), "read-frames", "%s: frame %zu differs", p.describe().c_str(), i);
            }
        }
    }
    decodeSubset(t, bytes, gen(2), -1, e2.longs);
}
}

SCENARIO(W02, roundtrip, 10) {
    wr::Opts o;
    o.big = true;
    switch (gen(20)) {
        case 18: o.maxRows = 300; o.minRows = 256; o.maxCols = 2; break;         // around one byte's worth of distinct strings
        case 19: o.maxRows = 60; break;
        default: break;
    }
    roundtrip(o);
}

// ------------------------------------------------------------------ the C decoder with every kind of target
namespace {
struct Place {                      // where one requested column goes
    size_t col;
    bool own = false;               // the caller's own array
    size_t size = 0, stride = 0;    // bytes per element; distance
    bool sizeGiven = false;
    std::unique_ptr<char[]> mem;
    size_t total = 0;
};
ref::Cell cell(const char* p, const ref::Col& c, size_t size, bool longs) {
    ref::Cell v;
    if (c.isStr()) v.s = std::string(p, strnlen(p, size));
    else if (longs && (c.type == ref::INTEGER || c.type == ref::BITFIELD)) { int64_t i; memcpy(&i, p, 8); v.d = double(i); }
    else memcpy(&v.d, p, 8);
    return v;
}
const unsigned char FILL = 0xC3;
}
SCENARIO(W02, cdecode, 6) {
    eckitInit();
    cInit();
    bool longs = gen(2);
    settings(longs);
    ref::GenOpts o;
    o.minRows = 1;
    o.big = true;
    o.texty = gen(3) == 2;
    o.compatibleBias = 85;
    ref::Stream s = ref::genStream(o);
    std::string bytes = ref::encode(s);
    ref::logStream("in", s);
    bool agg = gen(2);
    ref::Stream want = agg ? aggregate(s, -1) : s;
    odc_reader_t* rd = nullptr;
    odc_frame_t* f = nullptr;
    odc_decoder_t* d = nullptr;
    struct G { odc_reader_t*& r; odc_frame_t*& f; odc_decoder_t*& d; ~G() { if (d) odc_free_decoder(d); if (f) odc_free_frame(f); if (r) odc_close(r); } } guard{rd, f, d};
    std::vector<Place> pl;
    std::unique_ptr<char[]> ext;
    size_t extW = 0, extH = 0, nrows = 0, needW = 0;
    bool cm = false, extUsed = false;
    std::vector<ref::Col> shape;
    std::string sig;
    try {
        ok(odc_open_buffer(&rd, bytes.data(), long(bytes.size())), "odc_open_buffer");
        ok(odc_new_frame(&f, rd), "odc_new_frame");
        for (size_t k = 0; k < want.size(); k++) {
            step();
            ok(agg ? odc_next_frame_aggregated(f, -1) : odc_next_frame(f), "odc_next_frame");
            const ref::Frame& w = want[k];
            size_t n = w.rows.size();
            bool sameShape = shape.size() == w.cols.size();
            for (size_t i = 0; sameShape && i < shape.size(); i++) sameShape = shape[i].name == w.cols[i].name && shape[i].type == w.cols[i].type && shape[i].width >= w.cols[i].width;
            bool reuse = d && sameShape && n <= nrows && gen(4) != 0;
            if (!reuse) {
                if (d) { odc_free_decoder(d); d = nullptr; }
                pl.clear(); ext.reset();
                shape = w.cols;
                ok(odc_new_decoder(&d), "odc_new_decoder");
                bool defaults = gen(4) == 0;
                std::vector<size_t> cols;
                for (size_t i = 0; i < w.cols.size(); i++) if (defaults || gen(3)) cols.push_back(i);
                if (cols.empty()) cols.push_back(gen(uint32_t(w.cols.size())));
                if (!defaults) for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[gen(uint32_t(i))]);
                if (defaults) ok(odc_decoder_defaults_from_frame(d, f), "odc_decoder_defaults_from_frame");
                else for (size_t c : cols) ok(odc_decoder_add_column(d, w.cols[c].name.c_str()), "odc_decoder_add_column");
                nrows = n + (gen(2) ? 0 : gen(6));
                extUsed = gen(3) == 2;
                cm = gen(2);
                needW = 0;
                for (size_t i = 0; i < cols.size(); i++) {
                    Place p;
                    p.col = cols[i];
                    const ref::Col& c = w.cols[p.col];
                    p.size = size_t(c.width) * 8;
                    if (gen(4) == 3) {
                        p.own = true;
                        bool deflt = c.width == 1 && gen(2);
                        if (c.isStr() && gen(3) == 2 && !deflt) p.size += 8 * (1 + gen(2));
                        p.stride = p.size + 8 * (gen(2) ? gen(4) : 0);
                        p.total = (nrows - 1) * p.stride + p.size;
                        p.mem.reset(new char[p.total]);
                        memset(p.mem.get(), FILL, p.total);
                        ok(odc_decoder_column_set_data_array(d, int(i), deflt ? 0 : int(p.size), p.stride == p.size && gen(2) ? 0 : int(p.stride), p.mem.get()), "odc_decoder_column_set_data_array");
                    } else {
                        if (gen(3) == 2) {
                            if (c.isStr() && gen(2)) p.size += 8 * (1 + gen(2));
                            p.sizeGiven = true;
                            ok(odc_decoder_column_set_data_size(d, int(i), int(p.size)), "odc_decoder_column_set_data_size");
                        }
                        needW += p.size;
                    }
                    pl.push_back(std::move(p));
                }
                if (extUsed) {
                    extH = nrows;
                    extW = needW + 8 * gen(4);
                    if (!extW) extW = 8;
                    ext.reset(new char[extW * extH]);
                    memset(ext.get(), FILL, extW * extH);
                    ok(odc_decoder_set_data_array(d, ext.get(), long(extW), long(extH), cm), "odc_decoder_set_data_array");
                } else {
                    ok(odc_decoder_set_column_major(d, cm), "odc_decoder_set_column_major");
                    ok(odc_decoder_set_row_count(d, long(nrows)), "odc_decoder_set_row_count");
                }
                int cc = -1; long rc = -1;
                ok(odc_decoder_column_count(d, &cc), "odc_decoder_column_count");
                ok(odc_decoder_row_count(d, &rc), "odc_decoder_row_count");
                SIM_CHECK(cc == int(pl.size()) && rc == long(nrows), "decoder-counts", "%d columns, %ld rows, want %zu, %zu", cc, rc, pl.size(), nrows);
                sig += strf("%c%c%c%d", defaults ? 'D' : 'c', extUsed ? 'x' : 'o', cm ? 'M' : 'm', int(pl.size()));
            } else sig += 'R';
            log("frame %zu: %zu rows, target %zu rows, %s %s %s", k, n, nrows, reuse ? "reused" : "new", extUsed ? "caller's array" : "own array", cm ? "column-major" : "row-major");
            // fill what is ours again, so that only this decode shows
            for (auto& p : pl) if (p.own) memset(p.mem.get(), FILL, p.total);
            if (extUsed) memset(ext.get(), FILL, extW * extH);
            long got = -1;
            ok(odc_decode(d, f, &got), "odc_decode");
            SIM_CHECK(got == long(n), "row-count", "decoded %ld rows, want %zu", got, n);
            const char* base = nullptr; long bw = 0, bh = 0; bool bcm = !cm;
            if (needW) {
                const void* b0 = nullptr;
                ok(odc_decoder_data_array(d, &b0, &bw, &bh, &bcm), "odc_decoder_data_array");
                base = static_cast<const char*>(b0);
                SIM_CHECK(bcm == cm, "data-array", "column-major flag %d, want %d", bcm, cm);
                SIM_CHECK(bh >= long(n) && (!extUsed || (base == ext.get() && bw == long(extW) && bh == long(extH))), "data-array", "array of %ldx%ld for %zu rows", bw, bh, n);
            }
            // where each element is, and which bytes of the caller's array belong to none
            std::vector<char> used(extUsed ? extW * extH : 0, 0);
            size_t off = 0;
            for (size_t i = 0; i < pl.size(); i++) {
                Place& p = pl[i];
                const ref::Col& c = w.cols[p.col];
                if (p.own) {
                    for (size_t r = 0; r < n; r++) {
                        ref::Cell v = cell(p.mem.get() + r * p.stride, c, p.size, longs);
                        SIM_CHECK(v == w.rows[r][p.col], "decoded", "frame %zu row %zu column %s (own array): got %s, want %s", k, r, c.name.c_str(), ref::show(c, v).c_str(), ref::show(c, w.rows[r][p.col]).c_str());
                    }
                    for (size_t b = 0; b < p.total; b++)
                        if (b / p.stride >= n || b % p.stride >= p.size) SIM_CHECK((unsigned char)p.mem[b] == FILL, "outside-touched", "column %s: byte %zu outside its %zu elements was changed", c.name.c_str(), b, n);
                    const void* dp = nullptr; int es = -1, st = -1;
                    ok(odc_decoder_column_data_array(d, int(i), &es, &st, &dp), "odc_decoder_column_data_array");
                    SIM_CHECK(dp == p.mem.get() && es == int(p.size) && st == int(p.stride), "column-data-array", "column %s: size %d stride %d, want %zu %zu", c.name.c_str(), es, st, p.size, p.stride);
                    continue;
                }
                const void* dp = nullptr; int es = -1, st = -1;
                ok(odc_decoder_column_data_array(d, int(i), &es, &st, &dp), "odc_decoder_column_data_array");
                SIM_CHECK(dp == base + off && es >= int(c.width) * 8 && (!p.sizeGiven || es == int(p.size)), "column-data-array", "column %s: at %ld size %d, want at %zu size %zu", c.name.c_str(), long(static_cast<const char*>(dp) - base), es, off, p.size);
                size_t size = size_t(es);
                for (size_t r = 0; r < n; r++) {
                    std::string t(size, 0);
                    for (size_t x = 0; x < size / 8; x++) {
                        size_t at = cm ? off + (x * size_t(bh) + r) * 8 : r * size_t(bw) + off + x * 8;
                        memcpy(&t[x * 8], base + at, 8);
                        if (extUsed) memset(&used[at], 1, 8);
                    }
                    ref::Cell v = cell(t.data(), c, size, longs);
                    SIM_CHECK(v == w.rows[r][p.col], "decoded", "frame %zu row %zu column %s (%s array): got %s, want %s", k, r, c.name.c_str(), extUsed ? "caller's" : "decoder's", ref::show(c, v).c_str(), ref::show(c, w.rows[r][p.col]).c_str());
                }
                off += cm ? size * size_t(bh) : size;
            }
            for (size_t b = 0; b < used.size(); b++) SIM_CHECK(used[b] || (unsigned char)ext[b] == FILL, "outside-touched", "byte %zu of the caller's array holds no element but was changed", b);
        }
        SIM_CHECK((agg ? odc_next_frame_aggregated(f, -1) : odc_next_frame(f)) == ODC_ITERATION_COMPLETE, "frames", "more frames than encoded");
    } catch (Bad& b) { violation("decode-refused", "%s", b.what.c_str()); }
    state(fnv(sig.data(), sig.size()));
}

// ------------------------------------------------------------------ integers wider than the widest packing
SCENARIO(W02, limits, 1) {
    eckitInit();
    cInit();
    wr::Env e;
    e.longs = gen(2);
    wr::apply(e);
    ref::Frame t;
    ref::Col c;
    c.name = "wide";
    c.type = gen(2) ? ref::BITFIELD : ref::INTEGER;
    c.missing = ref::INT_MDI;
    t.cols.push_back(c);
    static const double spans[] = {0, 5, 255, 65535, 65536, 4294967295.0, 1e15};
    double span = spans[gen(7)], base = ldexp(1.0, 32 + int(gen(15)));
    if (c.type == ref::BITFIELD) { base = 2147483648.0; span = std::min(span, 2147483647.0); }
    else if (gen(2)) base = -base;
    int n = 1 + int(gen(6));
    for (int r = 0; r < n; r++) { ref::Cell v; v.d = base + (gen(2) ? span : floor(span / 3)); t.rows.push_back({v}); }
    ref::logStream("in", ref::Stream{t});
    wr::Arrays a = wr::lay(t, 0, e.longs);
    auto st = std::make_shared<HandleState>();
    SimHandle h(st);
    std::string what;
    bool fine = guarded([&] { odc::api::encode(h, wr::infos(t), a.strided(t.rows.size()), t.props, 10000); }, what);
    if (!fine) { count("wide integers refused"); return; }         // an error is fine: nothing is lost silently
    ref::Decoded d = ref::decode(st->data);
    SIM_CHECK(d.ok && d.frames.size() == 1 && d.frames[0].rows.size() == t.rows.size(), "not-odb", "%s", d.error.c_str());
    const std::string& codec = d.frames[0].cols[0].codec;
    state(fnv(codec.data(), codec.size(), uint64_t(c.type)));
    for (size_t r = 0; r < t.rows.size(); r++) {
        double in = t.rows[r][0].d, got = d.frames[0].rows[r][0].d;
        SIM_CHECK(in == got, c.type == ref::BITFIELD ? "beyond-int32-bitfield" : "beyond-int32-integer", "%s value outside 32 bits packed as %s is stored as another value: %.17g became %.17g", c.type == ref::BITFIELD ? "BITFIELD" : "INTEGER", codec.c_str(), in, got);
    }
}
