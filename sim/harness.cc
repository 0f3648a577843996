#include "harness.h"
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
#include <algorithm>
#include "sched.h"
#include "alloc.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/core/Column.h"
#include "odc/core/DecodeTarget.h"
#include "odc/core/MetaData.h"
#include "odc/core/TablesReader.h"

namespace hn {
using namespace sim;

const char* howName(int h) { static const char* n[] = {"ReadError", "std::exception", "-1", "end", "int", "short"}; return n[h]; }
const char* apiName(int a) { static const char* n[] = {"c", "c-agg", "c++", "c++-agg", "tables", "rows", "sql"}; return n[a]; }
const char* deliveryName(int d) { static const char* n[] = {"path", "handle", "sim", "fd", "buffer", "stream"}; return n[d]; }
bool usable(Api a, Delivery d) {
    switch (a) {
        case A_C: case A_CAGG: return d == D_PATH || d == D_FD || d == D_BUFFER || d == D_STREAM;
        case A_ROWS: case A_SQL: return d == D_PATH || d == D_SIM || d == D_BUFFER;
        default: return d == D_PATH || d == D_HANDLE || d == D_SIM || d == D_BUFFER;
    }
}

// ------------------------------------------------------------------ SimHandle
void SimHandle::touch(bool w) { alloc::Pause pause;
    if (!s_->concurrent) return;
    sched::touch(s_.get(), w, "data handle");
    sched::point();
}
eckit::Length SimHandle::openForRead() { alloc::Pause pause; pos_ = 0; s_->opens++; return s_->plan.estimate ? s_->data.size() : 0; }
void SimHandle::openForWrite(const eckit::Length&) { alloc::Pause pause; s_->data.clear(); pos_ = 0; s_->opens++; }
void SimHandle::openForAppend(const eckit::Length&) { alloc::Pause pause; pos_ = s_->data.size(); s_->opens++; }
void SimHandle::close() { alloc::Pause pause;
    touch(true);
    s_->closes++;
    if (s_->plan.failClose) { s_->failures++; count("close-fails"); throw eckit::WriteError("simulated failure in close"); }
}
void SimHandle::flush() { alloc::Pause pause;
    touch(true);
    s_->flushes++;
    if (s_->plan.failFlush) { s_->failures++; count("flush-fails"); throw eckit::WriteError("simulated failure in flush"); }
}
eckit::Length SimHandle::estimate() { touch(true); return s_->plan.estimate ? s_->data.size() : 0; }
eckit::Offset SimHandle::position() { touch(true); if (!s_->plan.seekable && s_->plan.how >= 0) return pos_; return pos_; }
eckit::Offset SimHandle::seek(const eckit::Offset& o) { alloc::Pause pause;
    touch(true);
    if (!s_->plan.seekable) throw eckit::NotImplemented("seek on a source that cannot", Here());
    pos_ = (long long)o;
    return o;
}
// Does this call fail?  allowed: bytes that go through before it does.
bool SimHandle::failing(size_t len, size_t& allowed) {
    const HandlePlan& p = s_->plan;
    uint64_t call = s_->calls++;
    allowed = len;
    if (p.failAtCall >= 0 && call >= uint64_t(p.failAtCall) && call < uint64_t(p.failAtCall) + uint64_t(p.failTimes)) { allowed = 0; return true; }
    if (p.failAtByte >= 0 && pos_ + len > size_t(p.failAtByte) && s_->failures < uint64_t(p.failTimes)) {
        allowed = pos_ < size_t(p.failAtByte) ? size_t(p.failAtByte) - pos_ : 0;
        return allowed == 0 || p.how == H_SHORT || p.how == H_EOF;
    }
    return false;
}
long SimHandle::read(void* b, long n) { alloc::Pause pause;
    touch(true);
    step();
    advance(1000);
    s_->maxCall = std::max<uint64_t>(s_->maxCall, uint64_t(std::max(0L, n)));
    if (n < 0) return -1;
    size_t left = pos_ < s_->data.size() ? s_->data.size() - pos_ : 0;
    size_t len = std::min<size_t>(size_t(n), left);
    int ch = s_->plan.chunk;
    if (len && ch > 0) len = std::min<size_t>(len, size_t(ch));
    if (len > 1 && ch < 0 && flt(3)) len = 1 + flt(uint32_t(std::min<size_t>(len, 200)));
    size_t ok;
    bool bad = failing(size_t(n), ok);
    if (bad) {
        s_->failures++;
        s_->failThread = sched::self();
        if (s_->failPos < 0) s_->failPos = long(pos_ + (s_->plan.how == H_SHORT || s_->plan.how == H_EOF ? std::min(len, ok) : 0));
        count((std::string("read-") + howName(s_->plan.how)).c_str());
        note("source: read of %ld at %zu fails: %s", n, pos_, howName(s_->plan.how));
        switch (s_->plan.how) {
            case H_READERROR: throw eckit::ReadError("simulated read error");
            case H_STDEXC: throw std::runtime_error("simulated source exception");
            case H_MINUS1: return -1;
            case H_INT: throw 42;
            case H_SHORT: case H_EOF:
                len = std::min(len, ok);
                if (s_->plan.how == H_EOF) { s_->data.resize(std::min(s_->data.size(), pos_ + len)); }
                break;
        }
    }
    else len = std::min(len, ok);
    memcpy(b, s_->data.data() + pos_, len);
    pos_ += len;
    note("source: read %ld at %zu -> %zu", n, pos_ - len, len);
    return long(len);
}
long SimHandle::write(const void* b, long n) { alloc::Pause pause;
    touch(true);
    step();
    advance(1000);
    size_t ok;
    if (failing(size_t(n), ok)) {
        s_->failures++;
        count((std::string("write-") + howName(s_->plan.how)).c_str());
        note("sink: write of %ld at %zu fails: %s (%zu go through)", n, pos_, howName(s_->plan.how), ok);
        if (s_->plan.failAtByte >= 0 && ok && ok <= size_t(n)) { s_->data.resize(pos_); s_->data.append((const char*)b, ok); pos_ += ok; }
        switch (s_->plan.how) {
            case H_READERROR: throw eckit::WriteError("simulated write error");
            case H_STDEXC: throw std::runtime_error("simulated sink exception");
            case H_INT: throw 42;
            case H_MINUS1: return -1;
            default: return s_->plan.failAtByte >= 0 ? long(ok) : 0;
        }
    }
    size_t go = size_t(n);
    if (s_->plan.failAtByte >= 0 && ok < go) {     // the bytes before the fault, then the fault
        s_->failures++;
        count((std::string("write-") + howName(s_->plan.how)).c_str());
        s_->data.resize(pos_);
        s_->data.append((const char*)b, ok);
        pos_ += ok;
        note("sink: write of %ld torn after %zu: %s", n, ok, howName(s_->plan.how));
        switch (s_->plan.how) {
            case H_STDEXC: throw std::runtime_error("simulated sink exception");
            case H_INT: throw 42;
            case H_MINUS1: return -1;
            case H_READERROR: throw eckit::WriteError("simulated write error");
            default: return long(ok);
        }
    }
    s_->data.resize(pos_);
    s_->data.append((const char*)b, go);
    pos_ += go;
    note("sink: write %ld at %zu", n, pos_ - go);
    return n;
}

// ------------------------------------------------------------------ settings
void settings(bool longs) { odc::api::Settings::treatIntegersAsDoubles(!longs); }
void cInit() {
    static bool done;
    if (done) return;
    done = true;
    int rc = odc_initialise_api();
    if (rc != ODC_SUCCESS) harnessError("odc_initialise_api: %d", rc);
}

// ------------------------------------------------------------------ decoding one frame through the C++ interface
static ref::Col colOf(const odc::api::ColumnInfo& ci) {
    ref::Col c;
    c.name = ci.name;
    c.type = int(ci.type);
    c.width = int(ci.decodedSize / 8);
    int off = 0;
    for (auto& b : ci.bitfield) {
        c.bits.push_back({b.name, b.size});
        SIM_CHECK(b.offset == off, "bitfield-offset", "column %s field %s: offset %d, want %d", ci.name.c_str(), b.name.c_str(), b.offset, off);
        off += b.size;
    }
    return c;
}
static ref::Cell cellAt(const char* p, int type, int width, bool longs) {
    ref::Cell v;
    if (type == ref::STRING) v.s = std::string(p, strnlen(p, size_t(width) * 8));
    else if (longs && (type == ref::INTEGER || type == ref::BITFIELD)) { int64_t x; memcpy(&x, p, 8); v.d = double(x); }
    else memcpy(&v.d, p, 8);
    return v;
}
ref::Frame describeFrame(const odc::api::Frame& f) {
    ref::Frame r;
    for (auto& ci : LIB(f.columnInfo())) r.cols.push_back(colOf(ci));
    for (auto& kv : LIB(f.properties())) r.props[kv.first] = kv.second;
    SIM_CHECK(f.columnCount() == r.cols.size(), "column-count", "columnCount %zu, columnInfo %zu", f.columnCount(), r.cols.size());
    return r;
}
ref::Frame decodeFrame(const odc::api::Frame& f, int threads, int layout, bool longs) {
    ref::Frame r = describeFrame(f);
    size_t n = f.rowCount(), width = 0;
    for (auto& c : r.cols) width += size_t(c.width) * 8;
    std::vector<std::string> names;
    std::vector<size_t> off, stride;
    size_t o = 0, total;
    for (auto& c : r.cols) {
        names.push_back(c.name);
        off.push_back(o);
        if (layout == 1) { stride.push_back(size_t(c.width) * 8); o += size_t(c.width) * 8 * n; }
        else { stride.push_back(layout == 2 ? width + 16 : width); o += size_t(c.width) * 8; }
    }
    if (n > (1u << 20) || width > (1u << 20) || n * width > (1u << 26)) throw std::bad_alloc();      // no caller has arrays that big
    total = layout == 1 ? o : n * (layout == 2 ? width + 16 : width);
    std::vector<uint64_t> store(total / 8 + 2, 0xA5A5A5A5A5A5A5A5ull);
    char* base = reinterpret_cast<char*>(store.data()) + 8;
    std::vector<odc::api::StridedData> sd;
    for (size_t i = 0; i < r.cols.size(); i++) sd.push_back(odc::api::StridedData(base + off[i], n, size_t(r.cols[i].width) * 8, stride[i]));
    if (n) sched::touch(base, true, "decode target");
    {
        std::unique_ptr<odc::api::Decoder> d(LIB(new odc::api::Decoder(names, sd)));
        LIB(d->decode(f, threads));
    }
    for (size_t i = 0; i < n; i++) {
        ref::Row row;
        for (size_t c = 0; c < r.cols.size(); c++) row.push_back(cellAt(base + off[c] + i * stride[c], r.cols[c].type, r.cols[c].width, longs));
        r.rows.push_back(row);
    }
    uint64_t pat = 0xA5A5A5A5A5A5A5A5ull;
    SIM_CHECK(store.front() == pat && store.back() == pat, "outside-touched", "bytes next to the decode target were changed");
    if (layout == 2)
        for (size_t i = 0; i < n; i++)
            for (int k = 0; k < 2; k++)
                SIM_CHECK(memcmp(base + i * (width + 16) + width + k * 8, &pat, 8) == 0, "outside-touched", "padding of row %zu was changed", i);
    return r;
}

// ------------------------------------------------------------------ C interface
namespace {
struct CErr { std::string what; };
#define OK(e) ok(LIB(e))
void ok(int rc) { if (rc != ODC_SUCCESS) { const char* m = LIB(odc_error_string(rc)); throw CErr{m ? m : "(null)"}; } }

ref::Frame cFrame(odc_frame_t* f, const ReadPlan& p) {
    ref::Frame r;
    int nc = 0;
    long nr = 0;
    OK(odc_frame_column_count(f, &nc));
    OK(odc_frame_row_count(f, &nr));
    SIM_CHECK(p.damaged || (nc >= 0 && nr >= 0), "negative-count", "%d columns, %ld rows", nc, nr);
    for (int c = 0; c < nc; c++) {
        ref::Col k;
        const char* nm = nullptr;
        int ty = -1, sz = -1, nb = -1;
        OK(odc_frame_column_attributes(f, c, &nm, &ty, &sz, &nb));
        k.name = nm; k.type = ty; k.width = sz / 8;
        int off = 0;
        for (int b = 0; b < nb; b++) {
            const char* bn = nullptr; int bo = -1, bs = -1;
            OK(odc_frame_bitfield_attributes(f, c, b, &bn, &bo, &bs));
            SIM_CHECK(p.damaged || bo == off, "bitfield-offset", "column %d field %d: offset %d, want %d", c, b, bo, off);
            off += bs;
            k.bits.push_back({bn, bs});
        }
        r.cols.push_back(k);
    }
    int np = 0;
    OK(odc_frame_properties_count(f, &np));
    for (int i = 0; i < np; i++) {
        const char *k = nullptr, *v = nullptr, *w = nullptr;
        OK(odc_frame_property_idx(f, i, &k, &v));
        OK(odc_frame_property(f, k, &w));
        SIM_CHECK(p.damaged || (w && !strcmp(v, w)), "property-lookup", "property %s: '%s' by index, '%s' by name", k, v, w ? w : "(none)");
        r.props[k] = v;
    }
    if (p.headersOnly) return r;
    if (nr == 0) {                  // nothing to decode, but the frame must still decode
        odc_decoder_t* d = nullptr;
        OK(odc_new_decoder(&d));
        struct G { odc_decoder_t* d; ~G() { LIB(odc_free_decoder(d)); } } g{d};
        OK(odc_decoder_defaults_from_frame(d, f));
        long got = -1;
        OK(odc_decode(d, f, &got));
        SIM_CHECK(got == 0, "row-count", "decoded %ld rows of an empty frame", got);
        return r;
    }
    odc_decoder_t* d = nullptr;
    OK(odc_new_decoder(&d));
    struct G { odc_decoder_t* d; ~G() { LIB(odc_free_decoder(d)); } } g{d};
    OK(odc_decoder_defaults_from_frame(d, f));
    bool colMajor = p.layout == 1;
    OK(odc_decoder_set_column_major(d, colMajor));
    long got = -1;
    if (p.threads > 1) OK(odc_decode_threaded(d, f, &got, p.threads));
    else OK(odc_decode(d, f, &got));
    SIM_CHECK(got == nr, "row-count", "decoded %ld rows of %ld", got, nr);
    const void* data = nullptr; long w = 0, h = 0; bool cm = !colMajor;
    OK(odc_decoder_data_array(d, &data, &w, &h, &cm));
    SIM_CHECK(cm == colMajor && h >= nr, "data-array", "height %ld for %ld rows, column-major %d", h, nr, cm);
    size_t o = 0;
    r.rows.assign(size_t(nr), ref::Row(size_t(nc)));
    for (int c = 0; c < nc; c++) {
        int width = r.cols[c].width;
        for (long i = 0; i < nr; i++) {
            char cell[8 * 64];
            for (int k = 0; k < width && k < 64; k++) {
                size_t at = colMajor ? o + (size_t(k) * size_t(h) + size_t(i)) * 8 : size_t(i) * size_t(w) + o + size_t(k) * 8;
                memcpy(cell + k * 8, static_cast<const char*>(data) + at, 8);
            }
            r.rows[size_t(i)][size_t(c)] = cellAt(cell, r.cols[c].type, width, p.longs);
        }
        o += size_t(width) * 8 * (colMajor ? size_t(h) : 1);
    }
    return r;
}
long streamRead(void* ctx, void* b, long n) {
    SimHandle* h = static_cast<SimHandle*>(ctx);
    return h->read(b, n);
}
void readC(const ReadPlan& p, const std::string& bytes, Got& g, State st) {
    odc_reader_t* r = nullptr;
    odc_frame_t* f = nullptr;
    int fd = -1;
    SimHandle src(st);
    std::unique_ptr<char[]> exact;      // a buffer of exactly the right size, so that overreads show
    try {
        switch (p.how) {
            case D_PATH: OK(odc_open_path(&r, p.path.c_str())); break;
            case D_FD:
                fd = vfs::openFd(p.path, O_RDONLY);
                OK(odc_open_file_descriptor(&r, fd));
                ::close(fd);
                break;
            case D_BUFFER:
                exact.reset(new char[bytes.size() ? bytes.size() : 1]);
                memcpy(exact.get(), bytes.data(), bytes.size());
                OK(odc_open_buffer(&r, exact.get(), long(bytes.size())));
                break;
            case D_STREAM: OK(odc_open_stream(&r, &src, streamRead)); break;
            default: harnessError("delivery");
        }
        OK(odc_new_frame(&f, r));
        while (true) {
            step();
            int rc = LIB(aggregated(p.api) ? odc_next_frame_aggregated(f, p.limit) : odc_next_frame(f));
            if (rc == ODC_ITERATION_COMPLETE) {
                rc = LIB(aggregated(p.api) ? odc_next_frame_aggregated(f, p.limit) : odc_next_frame(f));
                g.moreAfterEnd = rc != ODC_ITERATION_COMPLETE;
                break;
            }
            ok(rc);
            g.frames.push_back(cFrame(f, p));
        }
    } catch (CErr& e) { g.error = true; g.what = e.what; }
    if (f) { int rc = LIB(odc_free_frame(f)); SIM_CHECK(rc == ODC_SUCCESS, "free-failed", "odc_free_frame: %d", rc); }
    if (r) {
        int rc = LIB(odc_close(r));
        if (rc != ODC_SUCCESS && !g.error) { g.error = true; const char* m = LIB(odc_error_string(rc)); g.what = m ? m : ""; }
    }
}
template <class RD> void readCxx(const ReadPlan& p, RD&& rd, Got& g) {
    while (true) {
        step();
        odc::api::Frame f = LIB(rd.next());
        if (!f) { g.moreAfterEnd = bool(LIB(rd.next())); break; }
        if (p.headersOnly) { ref::Frame r = describeFrame(f); g.frames.push_back(r); continue; }
        ref::Frame r = decodeFrame(f, p.threads, p.layout, p.longs);
        SIM_CHECK(r.rows.size() == f.rowCount(), "row-count", "rowCount changed");
        r.off = size_t((long long)f.offset());
        r.len = size_t((long long)f.length());
        g.frames.push_back(r);
    }
}
ref::Col colOf(const odc::core::Column& c) {
    ref::Col k;
    k.name = c.name();
    k.type = int(c.type());
    k.width = int(c.dataSizeDoubles());
    auto& bf = c.bitfieldDef();
    for (size_t i = 0; i < bf.first.size() && i < bf.second.size(); i++) k.bits.push_back({bf.first[i], bf.second[i]});
    return k;
}
void readTables(const ReadPlan& p, odc::core::TablesReader& tr, Got& g) {
    auto end = LIB(tr.end());
    for (auto it = LIB(tr.begin()); LIB(it != end); LIB((void)++it)) {
        step();
        odc::core::Table& t = *it;
        ref::Frame r;
        for (auto* c : t.columns()) r.cols.push_back(colOf(*c));
        for (auto& kv : t.properties()) r.props[kv.first] = kv.second;
        r.off = size_t((long long)t.startPosition());
        r.len = size_t((long long)t.nextPosition()) - r.off;
        r.swap = t.otherByteOrder();
        if (!p.headersOnly) {
            size_t n = t.rowCount(), width = 0;
            std::vector<std::string> names;
            for (auto& c : r.cols) { names.push_back(c.name); width += size_t(c.width) * 8; }
            if (n > (1u << 20) || width > (1u << 20) || n * width > (1u << 26)) throw std::bad_alloc();
            std::vector<uint64_t> store(n * width / 8 + 2, 0xA5A5A5A5A5A5A5A5ull);
            char* base = reinterpret_cast<char*>(store.data()) + 8;
            std::vector<odc::api::StridedData> sd;
            size_t o = 0;
            for (auto& c : r.cols) { sd.push_back(odc::api::StridedData(base + o, n, size_t(c.width) * 8, width)); o += size_t(c.width) * 8; }
            std::unique_ptr<odc::core::DecodeTarget> tgt(LIB(new odc::core::DecodeTarget(names, sd)));
            LIB(t.decode(*tgt));
            for (size_t i = 0; i < n; i++) {
                ref::Row row;
                size_t q = 0;
                for (auto& c : r.cols) { row.push_back(cellAt(base + i * width + q, c.type, c.width, p.longs)); q += size_t(c.width) * 8; }
                r.rows.push_back(row);
            }
            SIM_CHECK(store.front() == store.back() && store.back() == 0xA5A5A5A5A5A5A5A5ull, "outside-touched", "bytes next to the decode target were changed");
        }
        g.frames.push_back(r);
    }
}
template <class IT> void readRows(const ReadPlan& p, IT it, IT end, Got& g, bool props) {
    for (; LIB(it != end); LIB((void)++it)) {
        step();
        if (it->isNewDataset() || g.frames.empty()) {
            ref::Frame r;
            for (auto* c : it->columns()) r.cols.push_back(colOf(*c));
            if (props) for (auto& kv : it->properties()) r.props[kv.first] = kv.second;
            g.frames.push_back(r);
        }
        ref::Frame& r = g.frames.back();
        SIM_CHECK(it->columns().size() == r.cols.size(), "column-count", "columns changed within a frame");
        ref::Row row;
        for (size_t c = 0; c < r.cols.size(); c++) row.push_back(cellAt(reinterpret_cast<const char*>(&it->data(c)), r.cols[c].type, r.cols[c].width, p.longs));
        r.rows.push_back(row);
    }
}
}

Got readAll(const ReadPlan& p, const std::string& bytes) {
    Got g;
    if (p.how == D_PATH || p.how == D_HANDLE || p.how == D_FD) {
        if (!vfs::exists(p.path) || vfs::get(p.path) != bytes) vfs::put(p.path, bytes);
    }
    State st = std::make_shared<HandleState>();
    st->data = bytes;
    st->plan = p.plan;
    std::unique_ptr<char[]> exact(new char[bytes.size() ? bytes.size() : 1]);
    memcpy(exact.get(), bytes.data(), bytes.size());
    auto finish = [&] { g.calls = st->calls; g.failures = st->failures; g.failPos = st->failPos; };
    if (p.api == A_C || p.api == A_CAGG) { readC(p, bytes, g, st); finish(); return g; }
    auto handle = [&]() -> eckit::DataHandle* {
        switch (p.how) {
            case D_PATH: case D_HANDLE: return LIB(eckit::PathName(p.path).fileHandle());
            case D_BUFFER: return new eckit::MemoryHandle((const void*)exact.get(), bytes.size());
            default: return new SimHandle(st);
        }
    };
    std::string what;
    bool fine = guarded([&] {
        switch (p.api) {
            case A_CXX: case A_CXXAGG: {
                if (p.how == D_PATH) readCxx(p, LIB(odc::api::Reader(p.path, p.api == A_CXXAGG, p.limit)), g);
                else if (p.how == D_HANDLE || p.how == D_BUFFER) {      // handle opened and kept by the caller
                    std::unique_ptr<eckit::DataHandle> h(handle());
                    h->openForRead();
                    struct C { eckit::DataHandle& h; ~C() { try { h.close(); } catch (...) {} } } c{*h};
                    readCxx(p, LIB(odc::api::Reader(*h, p.api == A_CXXAGG, p.limit)), g);
                }
                else readCxx(p, LIB(odc::api::Reader(handle(), p.api == A_CXXAGG, p.limit)), g);
                break;
            }
            case A_TABLES: {
                if (p.how == D_PATH) { std::unique_ptr<odc::core::TablesReader> tr(LIB(new odc::core::TablesReader(eckit::PathName(p.path)))); readTables(p, *tr, g); }
                else { std::unique_ptr<odc::core::TablesReader> tr(LIB(new odc::core::TablesReader(handle()))); readTables(p, *tr, g); }
                break;
            }
            case A_ROWS: {
                if (p.how == D_PATH) {
                    std::unique_ptr<odc::Reader> r(LIB(new odc::Reader(eckit::PathName(p.path))));
                    auto b = LIB(r->begin());
                    readRows(p, b, odc::Reader::iterator(LIB(r->end())), g, true);
                } else {
                    std::unique_ptr<eckit::DataHandle> h(handle());
                    std::unique_ptr<odc::Reader> r(LIB(new odc::Reader(*h)));
                    auto b = LIB(r->begin());
                    readRows(p, b, odc::Reader::iterator(LIB(r->end())), g, true);
                }
                break;
            }
            case A_SQL: {
                if (p.how == D_PATH) {
                    std::unique_ptr<odc::Select> s(LIB(new odc::Select("select *", eckit::PathName(p.path))));
                    auto b = LIB(s->begin());
                    readRows(p, b, LIB(s->end()), g, false);
                } else {
                    std::unique_ptr<eckit::DataHandle> h(handle());
                    std::unique_ptr<odc::Select> s(LIB(new odc::Select("select *", *h)));
                    auto b = LIB(s->begin());
                    readRows(p, b, LIB(s->end()), g, false);
                }
                break;
            }
            default: harnessError("api");
        }
    }, what);
    if (!fine) { g.error = true; g.what = what; }
    finish();
    return g;
}

// ------------------------------------------------------------------ expectations
// Frames are aggregated when they have the same set of columns by name, type and width, in any order.
bool compatible(const ref::Frame& a, const ref::Frame& b) {
    if (a.cols.size() != b.cols.size()) return false;
    for (auto& c : b.cols) {
        int i = a.find(c.name);
        if (i < 0) return false;
        auto& k = a.cols[size_t(i)]; if (k.type != c.type || k.width != c.width) return false;
    }
    return true;
}
ref::Stream aggregate(const ref::Stream& s, long limit) {
    ref::Stream out;
    for (size_t i = 0; i < s.size();) {
        ref::Frame f = s[i];
        size_t j = i + 1;
        for (; j < s.size(); j++) {
            if (limit >= 0 && long(f.rows.size() + s[j].rows.size()) > limit) break;
            if (!compatible(s[i], s[j])) break;
            std::vector<size_t> at;
            for (auto& c : f.cols) at.push_back(size_t(s[j].find(c.name)));
            for (auto& r : s[j].rows) {
                ref::Row n;
                for (size_t k : at) n.push_back(r[k]);
                f.rows.push_back(n);
            }
            for (auto& kv : s[j].props) f.props.insert(kv);
            f.len = s[j].off + s[j].len - f.off;
        }
        out.push_back(f);
        i = j;
    }
    return out;
}
ref::Stream dropEmpty(const ref::Stream& s) {
    ref::Stream o;
    for (auto& f : s) if (!f.rows.empty()) o.push_back(f);
    return o;
}
void selected(ref::Frame& f) {
    for (size_t c = 0; c < f.cols.size(); c++) {
        auto& k = f.cols[c];
        if (k.isStr()) continue;
        double plain = k.type == ref::REAL || k.type == ref::DOUBLE ? ref::REAL_MDI : ref::INT_MDI;
        for (auto& r : f.rows) if (r[c].d == k.missing) r[c].d = plain;
        k.missing = plain;
    }
}
ref::Stream expected(const ReadPlan& p, const ref::Stream& s) {
    if (aggregated(p.api)) return aggregate(s, p.limit);
    if (p.api == A_ROWS) return dropEmpty(s);
    if (p.api == A_SQL) { ref::Stream t = dropEmpty(s); for (auto& f : t) selected(f); return t; }
    return s;
}
std::string diffFrame(const ref::Frame& w, const ref::Frame& g, const CmpOpts& o) {
    if (w.cols.size() != g.cols.size()) return strf("%zu columns, want %zu", g.cols.size(), w.cols.size());
    for (size_t i = 0; i < w.cols.size(); i++) {
        auto &a = w.cols[i], &b = g.cols[i];
        if (a.name != b.name) return strf("column %zu is '%s', want '%s'", i, b.name.c_str(), a.name.c_str());
        if (a.type != b.type) return strf("column %s has type %d, want %d", a.name.c_str(), b.type, a.type);
        if (o.width && a.width != b.width) return strf("column %s is %d words wide, want %d", a.name.c_str(), b.width, a.width);
        if (o.bits && a.bits != b.bits) return strf("column %s: bitfield differs", a.name.c_str());
    }
    if (o.props && w.props != g.props) {
        std::string t;
        for (auto& kv : w.props) { auto it = g.props.find(kv.first); if (it == g.props.end()) t += " -" + kv.first; else if (it->second != kv.second) t += " " + kv.first + "='" + it->second + "' want '" + kv.second + "'"; }
        for (auto& kv : g.props) if (!w.props.count(kv.first)) t += " +" + kv.first;
        return "properties differ:" + t;
    }
    if (w.rows.size() != g.rows.size()) return strf("%zu rows, want %zu", g.rows.size(), w.rows.size());
    for (size_t r = 0; r < w.rows.size(); r++)
        for (size_t c = 0; c < w.cols.size(); c++)
            if (w.rows[r][c] != g.rows[r][c] && !(!o.zeroSign && !w.cols[c].isStr() && w.rows[r][c].d == g.rows[r][c].d))
                return strf("row %zu column %s (%s): got %s, want %s", r, w.cols[c].name.c_str(), w.cols[c].codec.c_str(), ref::show(w.cols[c], g.rows[r][c]).c_str(), ref::show(w.cols[c], w.rows[r][c]).c_str());
    return "";
}
std::string diffStream(const ref::Stream& w, const ref::Stream& g, bool prefix, const CmpOpts& o) {
    if (prefix ? g.size() > w.size() : g.size() != w.size()) return strf("%zu frames, want %s%zu", g.size(), prefix ? "at most " : "", w.size());
    for (size_t i = 0; i < g.size(); i++) {
        std::string d = diffFrame(w[i], g[i], o);
        if (!d.empty()) return strf("frame %zu: ", i) + d;
    }
    return "";
}
std::string diffRows(const ref::Stream& w, const ref::Stream& g, bool prefix, const CmpOpts& o) {
    struct It { const ref::Stream& s; size_t f = 0, r = 0; bool norm() { while (f < s.size() && r >= s[f].rows.size()) { f++; r = 0; } return f < s.size(); } };
    It a{w}, b{g};
    size_t n = 0;
    while (true) {
        bool x = a.norm(), y = b.norm();
        if (!y) { if (!x || prefix) return ""; size_t t = n; while (a.norm()) { a.r++; t++; } return strf("%zu rows, want %zu", n, t); }
        if (!x) { size_t t = n; while (b.norm()) { b.r++; t++; } return strf("%zu rows, want %zu", t, n); }
        ref::Frame p, q;
        p.cols = w[a.f].cols; q.cols = g[b.f].cols;
        p.rows = {w[a.f].rows[a.r]}; q.rows = {g[b.f].rows[b.r]};
        if (o.props) { p.props = w[a.f].props; q.props = g[b.f].props; }
        if (o.anyOrder && p.cols.size() == q.cols.size()) {
            ref::Frame t = q;
            bool all = true;
            for (size_t c = 0; c < p.cols.size(); c++) {
                int k = t.find(p.cols[c].name);
                if (k < 0) { all = false; break; }
                q.cols[c] = t.cols[size_t(k)]; q.rows[0][c] = t.rows[0][size_t(k)];
            }
            if (!all) q = t;
        }
        std::string d = diffFrame(p, q, o);
        if (!d.empty()) return strf("at row %zu of the stream: ", n) + d;
        a.r++; b.r++; n++;
    }
}
std::string ReadPlan::describe() const {
    return strf("%s via %s limit=%ld threads=%d layout=%d longs=%d chunk=%d seek=%d est=%d", apiName(api), deliveryName(how), limit, threads, layout, longs, plan.chunk, plan.seekable, plan.estimate);
}
void drawDelivery(ReadPlan& p) {
    p.api = Api(gen(A_NAPIS));
    std::vector<int> d;
    for (int i = 0; i < D_NDELIVERIES; i++) if (usable(p.api, Delivery(i))) d.push_back(i);
    p.how = Delivery(d[gen(uint32_t(d.size()))]);
    p.layout = int(gen(3));
    p.limit = aggregated(p.api) && gen(2) ? long(gen(40)) : -1;
    p.plan.chunk = gen(2) ? (gen(3) ? -1 : 1 + int(gen(40))) : 0;
    p.plan.estimate = gen(3) != 2;
    p.plan.seekable = gen(4) != 3;
}
std::string stripEncoder(ref::Stream& s) {
    std::string v;
    for (auto& f : s) { auto it = f.props.find("encoder"); if (it != f.props.end()) { v = it->second; f.props.erase(it); } }
    return v;
}
}
