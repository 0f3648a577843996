// W03 A write failure is always reported and never damages the process.
// W04 A crash while writing or appending leaves a readable prefix.
// W05 Concatenating and appending streams only adds frames.
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <sstream>
#include "eckit/io/FileHandle.h"
#include "odc/ODBAPISettings.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
#include "odc/odccapi.h"
#include "alloc.h"
#include "starve.h"
#include "wgen.h"
using namespace sim;
using namespace hn;

namespace {
using WI = odc::WriterBufferingIterator;
std::string encoded(const ref::GenOpts& go) { ref::Stream s = ref::genStream(go); return ref::encode(s); }

// ------------------------------------------------------------------ what goes wrong
struct Trouble {
    bool any = false;
    std::vector<vfs::Fault> disk;
    uint64_t room = ~0ull, minutes = 0;       // full disk; freed after so many minutes (0: never)
    HandlePlan handle;
    std::string describe;
};
// Draws one failure among the operations a fault-free run has made.
Trouble drawDisk(const std::string& path, uint64_t bytes, bool waits) {
    Trouble t;
    t.any = true;
    uint64_t nw = vfs::ops(vfs::WRITE, path), no = vfs::ops(vfs::OPEN, path), nc = vfs::ops(vfs::CLOSE, path), ns = vfs::ops(vfs::SYNC, "");
    static const int errs[] = {EIO, EDQUOT, EPERM, EBADF, EFBIG};
    int k = int(flt(8));
    vfs::Fault f{vfs::WRITE, path, 0, 1, vfs::ERR, errs[flt(5)], 0};
    if (k >= 6 && bytes > 1) {
        t.room = vfs::used() + flt(uint32_t(bytes));
        t.minutes = waits ? 1 + flt(4) : 0;
        t.describe = strf("room for %llu bytes, freed after %llu minutes", (unsigned long long)t.room, (unsigned long long)t.minutes);
        return t;
    }
    if (k == 5 && no) { f.ops = vfs::OPEN; f.at = flt(uint32_t(no)); }
    else if (k == 4 && nc) { f.ops = vfs::CLOSE; f.at = flt(uint32_t(nc)); }
    else if (k == 3 && ns) { f.ops = vfs::SYNC; f.path = ""; f.at = flt(uint32_t(ns)); f.err = EIO; }
    else if (nw) { f.at = flt(uint32_t(nw)); if (flt(4) == 3) { f.act = vfs::SHORT; f.arg = flt(1000); } }
    static const uint64_t times[] = {1, 2, ~0ull};
    f.times = times[flt(3)];
    t.disk.push_back(f);
    if (flt(4) == 3) { vfs::Fault g = f; g.ops = flt(2) ? vfs::CLOSE : vfs::SYNC; g.path = g.ops == vfs::SYNC ? "" : path; g.act = vfs::ERR; g.at = 0; g.times = ~0ull; g.err = EIO; t.disk.push_back(g); }
    for (auto& x : t.disk) t.describe += strf("%s %s at %llu x%llu; ", vfs::opName(x.ops), x.act == vfs::ERR ? strerror(x.err) : "short", (unsigned long long)x.at, (unsigned long long)x.times);
    return t;
}
Trouble drawHandle(uint64_t calls, uint64_t bytes, bool flushes, bool ints) {
    Trouble t;
    t.any = true;
    static const int hows[] = {H_READERROR, H_STDEXC, H_MINUS1, H_SHORT, H_EOF, H_INT};
    if (flushes && flt(5) == 4) { t.handle.failFlush = true; t.describe = "flush fails"; return t; }
    t.handle.how = hows[flt(ints ? 6 : 5)];
    if (flt(2)) t.handle.failAtCall = long(flt(uint32_t(std::max<uint64_t>(1, calls))));
    else t.handle.failAtByte = long(flt(uint32_t(std::max<uint64_t>(1, bytes))));
    static const long times[] = {1, 2, 1000000};
    t.handle.failTimes = times[flt(3)];
    t.describe = strf("%s at call %ld byte %ld x%ld", howName(t.handle.how), t.handle.failAtCall, t.handle.failAtByte, t.handle.failTimes);
    return t;
}
void arm(const Trouble& t) {
    for (auto& f : t.disk) vfs::addFault(f);
    if (t.room != ~0ull) vfs::capacity(t.room, t.minutes ? now() + t.minutes * 60000000000ull : ~0ull);
}
void disarm() { vfs::clearFaults(); vfs::capacity(~0ull); }

// ------------------------------------------------------------------ row writer
struct Op { char kind; std::vector<ref::Col> cols; std::vector<ref::Row> rows; bool whole = false; size_t n = 0; };
struct Offer { size_t seg; const ref::Row* row; bool accepted; };
std::function<void(size_t)> onDurable;       // called with the rows accepted whenever an operation that makes them durable has succeeded
struct Outcome {
    bool failed = false;
    std::string what;
    std::vector<std::vector<ref::Col>> segs;
    std::vector<Offer> offers;
    bool closedFine = false;
    std::string bytes;
};
// Does the output hold the rows offered, in order?  Rows whose operation failed may be missing.
std::string matchRows(const Outcome& o, const std::string& bytes, bool complete) {
    ref::Decoded d = ref::decode(bytes);
    if (complete && !d.ok) return "not a valid stream: " + d.error;
    // at every row: how many of the offers may be accounted for (rows that were refused may be equal to rows that were not)
    std::vector<size_t> may{0};
    auto skips = [&] { std::vector<size_t> v; for (size_t k : may) for (;; k++) { if (v.empty() || v.back() < k) v.push_back(k); if (k == o.offers.size() || o.offers[k].accepted) break; } may.swap(v); };
    size_t at = 0;
    skips();
    for (auto& f : d.frames) {
        for (auto& r : f.rows) {
            std::vector<size_t> next;
            for (size_t k : may) {
                if (k == o.offers.size()) continue;
                const Offer& w = o.offers[k];
                const std::vector<ref::Col>& cols = o.segs[w.seg];
                bool same = cols.size() == f.cols.size() && wr::diffCols(cols, f.cols).empty();
                for (size_t i = 0; same && i < cols.size(); i++) same = wr::same(cols[i], (*w.row)[i], r[i]);
                if (same) next.push_back(k + 1);
            }
            if (next.empty()) return may.back() == o.offers.size() ? strf("row %zu of the output was never given to the writer", at) : strf("row %zu of the output is not the row accepted next", at);
            may.swap(next);
            skips();
            at++;
        }
    }
    if (complete && may.back() != o.offers.size()) return strf("the output ends after %zu rows, accepted row %zu is not in it", at, may.back());
    return "";
}
const char* sinkName(int s) { static const char* n[] = {"path", "handle&", "handle*", "createWriteIterator", "legacy", "legacy append", "append"}; return n[s]; }

// Runs the operations on a sink. Checks along the way that no success is reported for rows that are not there.
Outcome runOps(const std::vector<Op>& ops, int sink, unsigned long buffer, const HandlePlan& hp, const std::string& path, int ending, int afterwards, const std::string& before, uint64_t* calls, uint64_t* bytes) {
    Outcome o;
    bool onPath = sink == 0 || sink >= 3, legacy = sink == 4 || sink == 5;
    auto st = std::make_shared<HandleState>();
    st->plan = hp;
    SimHandle sh(st);
    auto content = [&] { std::string c = onPath ? vfs::get(path) : st->data; return sink >= 5 ? c.substr(std::min(c.size(), before.size())) : c; };
    auto complete = [&](const char* after) {
        std::string x = matchRows(o, content(), true);
        SIM_CHECK(x.empty(), "false-success", "%s reported success%s, but %s", after, o.failed ? strf(" after the failure \"%s\"", o.what.c_str()).c_str() : "", x.c_str());
        if (onDurable) onDurable(o.offers.size());
    };
    std::string what;
    std::unique_ptr<odc::Writer<>> w;
    bool fine = guarded([&] {
        if (legacy) { int err = -1; w.reset(reinterpret_cast<odc::Writer<>*>(LIB(odb_writer_create("", &err)))); }
        else if (onPath) w.reset(LIB(new odc::Writer<>(eckit::PathName(path))));
        else if (sink == 1) w.reset(LIB(new odc::Writer<>(sh)));
        else w.reset(LIB(new odc::Writer<>(new SimHandle(st), true, true)));
        w->rowsBufferSize(buffer);
        int err = 0;
        WI* raw = nullptr;
        struct Leave { ~Leave() { alloc::on--; } } leave;      // the iterator is destroyed by the library
        odc::Writer<>::iterator it(nullptr);
        struct Enter { ~Enter() { alloc::on++; } } enter;
        if (sink == 4) raw = reinterpret_cast<WI*>(LIB(odb_create_write_iterator(w.get(), path.c_str(), &err)));
        else if (sink == 5) raw = reinterpret_cast<WI*>(LIB(odb_create_append_iterator(w.get(), path.c_str(), &err)));
        else if (sink == 3) it = LIB(odc::Writer<>::iterator(w->createWriteIterator(eckit::PathName(path))));
        else if (sink == 6) it = LIB(odc::Writer<>::iterator(w->createWriteIterator(eckit::PathName(path), true)));
        else it = LIB(w->begin());
        if (!raw) raw = &**it;
        std::string first;
        bool dropped = false;
        for (size_t k = 0; k < ops.size() && !dropped; k++) {
            step();
            const Op& op = ops[k];
            std::string err;
            bool good = guarded([&] {
                switch (op.kind) {
                    case 'h': {
                        if (!op.n) LIB(raw->setNumberOfColumns(0));
                        if (!op.n) LIB(raw->setNumberOfColumns(op.cols.size()));
                        for (size_t i = 0; i < op.cols.size(); i++) {
                            if (op.n && i != op.n - 1) continue;
                            auto& c = op.cols[i];
                            eckit::sql::BitfieldDef b;
                            for (auto& x : c.bits) { b.first.push_back(x.first); b.second.push_back(x.second); }
                            if (c.type == ref::BITFIELD) LIB(raw->setBitfieldColumn(i, c.name, odc::api::BITFIELD, b));
                            else LIB(raw->setColumn(i, c.name, odc::api::ColumnType(c.type)));
                            if (c.isStr()) raw->columns()[i]->dataSizeDoubles(size_t(c.width)); else raw->missingValue(i, c.missing);
                        }
                        LIB(raw->writeHeader());
                        break;
                    }
                    case 'r': {
                        size_t width = 0;
                        auto& cols = o.segs.back();
                        for (auto& c : cols) width += size_t(c.width);
                        std::unique_ptr<double[]> row(new double[width]);
                        for (auto& v : op.rows) {
                            size_t at = 0;
                            for (size_t i = 0; i < cols.size(); i++) { wr::put(reinterpret_cast<char*>(&row[at]), cols[i], v[i], false, false); at += size_t(cols[i].width); }
                            o.offers.push_back({o.segs.size() - 1, &v, false});
                            int rc = 0;
                            if (legacy) rc = LIB(odb_write_iterator_set_next_row(raw, row.get(), int(cols.size())));
                            else if (op.whole) rc = LIB(raw->writeRow(row.get(), cols.size()));
                            else { memcpy(it->data(), row.get(), width * 8); LIB(++it); }
                            if (rc) throw std::runtime_error(strf("code %d", rc));
                            o.offers.back().accepted = true;
                        }
                        break;
                    }
                    case 'f': LIB(raw->flush()); break;
                    case 'p': LIB(raw->property("key", strf("value%zu", op.n))); break;
                    case 'b': LIB(raw->rowsBufferSize(op.n)); break;
                }
            }, err);
            if (good && op.kind == 'h') o.segs.push_back(op.cols);
            if (!good) {
                log("op %zu '%c' failed: reported", k, op.kind);
                if (!o.failed) { o.failed = true; o.what = err; }
                if (op.kind == 'h') dropped = true;                        // the columns are not known now
                if (afterwards == 0) dropped = true;
            }
            else if (op.kind == 'f') complete("flush");
        }
        // the end
        if (!(o.failed && afterwards == 0)) {
            std::string err;
            bool good = true;
            if (ending & 1) { good = guarded([&] { LIB(raw->flush()); }, err); if (good && !dropped) complete("flush"); }
            if (legacy) {
                int rc = LIB(odb_write_iterator_destroy(raw));
                raw = nullptr;
                if (rc) err = "odb_write_iterator_destroy";
                good = good && !rc;
                if (!rc && !dropped) { o.closedFine = true; complete("odb_write_iterator_destroy"); }
            } else if (ending & 2) {
                bool c = guarded([&] { LIB(raw->close()); }, err);
                if (c && !dropped) { o.closedFine = true; complete("close"); }
                if (!c && afterwards == 2) { std::string again; if (guarded([&] { LIB(raw->close()); }, again) && !dropped) complete("the second close"); }
                good = good && c;
            }
            if (!good && !o.failed) { o.failed = true; o.what = err; log("the end failed: reported"); }
        } else if (legacy) { LIB(odb_write_iterator_destroy(raw)); raw = nullptr; }
    }, what);
    if (!fine && !o.failed) { o.failed = true; o.what = what; log("opening failed: reported"); }
    LIB(w.reset());
    o.bytes = content();
    if (calls) *calls = st->calls;
    if (bytes) *bytes = o.bytes.size();
    return o;
}
std::vector<Op> genOps(int n, unsigned long& buffer) {
    std::vector<Op> v;
    wr::Opts o;
    o.maxCols = 4;
    buffer = gen(5) == 4 ? 10000 : 1 + gen(8);
    std::vector<ref::Col> cols;
    for (int k = 0; k < n; k++) {
        Op op;
        int d = k == 0 ? 9 : int(gen(10));
        if (d < 6) {
            op.kind = 'r';
            op.whole = gen(2);
            ref::Frame f;
            f.cols = cols;
            wr::genRows(f, 1 + int(gen(7)), o);
            op.rows = f.rows;
        } else if (d == 6) op.kind = 'f';
        else if (d == 7) { op.kind = 'p'; op.n = size_t(k); }
        else if (d == 8) { op.kind = 'b'; op.n = 1 + gen(6); }
        else if (k && gen(3) == 2) {               // one column described anew
            op.kind = 'h';
            op.n = 1 + gen(uint32_t(cols.size()));
            cols[op.n - 1] = wr::other(cols[op.n - 1], cols, o, wr::Env());
            op.cols = cols;
        }
        else { op.kind = 'h'; cols = wr::genCols(o); op.cols = cols; }
        v.push_back(op);
    }
    return v;
}
}

SCENARIO(W03, rows, 6) {
    eckitInit();
    wr::apply(wr::Env());
    unsigned long buffer;
    std::vector<Op> ops = genOps(3 + int(gen(thorough() ? 18 : 10)), buffer);
    if (gen(4) == 3) { static const size_t hb[] = {1, 60, 64, 128}; odc::ODBAPISettings::instance().headerBufferSize(hb[gen(4)]); }
    int sink = int(gen(7)), ending = int(gen(4));
    bool onPath = sink == 0 || sink >= 3, legacy = sink == 4 || sink == 5;
    if (legacy) for (auto& op : ops) op.whole = true;
    std::string before, sig;
    if (sink >= 5) {
        ref::GenOpts go;
        go.maxFrames = 2;
        go.maxRows = 3;
        before = encoded(go);
    }
    for (auto& op : ops) sig += op.kind;
    log("sink %s buffer %lu ending %d ops %s", sinkName(sink), buffer, ending, sig.c_str());
    uint64_t calls = 0, bytes = 0;
    vfs::put("/sim/a.odb", before);
    vfs::countOps();
    Outcome clean = runOps(ops, sink, buffer, HandlePlan(), "/sim/a.odb", ending, 0, before, &calls, &bytes);
    SIM_CHECK(!clean.failed, "refused", "a valid history was refused: %s", clean.what.c_str());
    std::string x = matchRows(clean, clean.bytes, true);
    SIM_CHECK(x.empty(), "rows", "without failures: %s", x.c_str());
    Trouble t = onPath ? drawDisk("/sim/a.odb", bytes, true) : drawHandle(calls, bytes, sink == 2 || true, false);
    int afterwards = int(flt(3));
    log("trouble: %s, afterwards %d", t.describe.c_str(), afterwards);
    // the same under that failure
    vfs::put("/sim/a.odb", before);
    arm(t);
    uint64_t fired0 = vfs::faultsFired(), t0 = now();
    Outcome bad = runOps(ops, sink, buffer, t.handle, "/sim/a.odb", ending, afterwards, before, nullptr, nullptr);
    bool hit = vfs::faultsFired() != fired0;
    disarm();
    SIM_CHECK(now() - t0 < 3600000000000ull, "stuck", "%llu minutes went by", (unsigned long long)((now() - t0) / 60000000000ull));
    if (sink >= 5) SIM_CHECK(vfs::get("/sim/a.odb").compare(0, before.size(), before) == 0, "earlier-damaged", "what was in the file before the append has changed");
    x = matchRows(bad, bad.bytes, false);
    SIM_CHECK(x.empty(), "not-a-prefix", "after \"%s\": %s", bad.what.c_str(), x.c_str());
    bool told = legacy || (ending & 2);
    if (!bad.failed && (told || (ending & 1))) {
        x = matchRows(bad, bad.bytes, true);
        SIM_CHECK(x.empty(), "unreported", "no operation reported a failure (%s), but %s", t.describe.c_str(), x.c_str());
    }
    if (t.minutes) SIM_CHECK(!bad.failed, "waiting-failed", "the disk was full for a while only: %s", bad.what.c_str());
    state(fnv(sig.data(), std::min<size_t>(sig.size(), 8), uint64_t(sink * 100 + ending * 10 + bad.failed)));
    state(fnv(t.describe.data(), t.describe.size(), uint64_t(sink)));
    log("%s, hit %d, %zu bytes", bad.failed ? "reported" : "not reported", hit, bad.bytes.size());
    // and again on a working disk
    vfs::put("/sim/a.odb", before);
    Outcome again = runOps(ops, sink, buffer, HandlePlan(), "/sim/a.odb", ending, 0, before, nullptr, nullptr);
    SIM_CHECK(!again.failed, "retry-refused", "after a failure the same rows cannot be written: %s", again.what.c_str());
    SIM_CHECK(again.bytes == clean.bytes, "retry-differs", "after a failure the same rows are written differently");
}

// ------------------------------------------------------------------ whole tables, filters, text: one call
namespace {
struct Callback { std::string* data; HandlePlan plan; uint64_t calls, failures; };
long sinkCb(void* ctx, const void* b, long n) {
    alloc::Pause pause;
    Callback& c = *static_cast<Callback*>(ctx);
    uint64_t k = c.calls++;
    step();
    if (c.plan.failAtCall >= 0 && k >= uint64_t(c.plan.failAtCall) && k < uint64_t(c.plan.failAtCall) + uint64_t(c.plan.failTimes)) {
        c.failures++;
        count((std::string("callback-") + howName(c.plan.how)).c_str());
        switch (c.plan.how) {
            case H_SHORT: { long m = n ? long(flt(uint32_t(n))) : 0; c.data->append(static_cast<const char*>(b), size_t(m)); return m; }
            case H_EOF: return 0;
            default: return -1;
        }
    }
    c.data->append(static_cast<const char*>(b), size_t(n));
    return n;
}
enum { J_ENC_SIM, J_ENC_FILE, J_ENC_CB, J_ENC_FD, J_ENC_BUF, J_FILTER_SIM, J_FILTER_FILE, J_CSV_SIM, J_CSV_FILE, J_PASS_SIM, J_PASS_FILE, J_N };
const char* jobName(int j) { static const char* n[] = {"encode to handle", "encode to file", "encode to callback", "encode to descriptor", "encode to buffer", "filter to handle", "filter to file", "text to handle", "text to file", "copy to handle", "copy to file"}; return n[j]; }
struct Job {
    int kind = 0;
    ref::Frame table;
    size_t perFrame = 10000;
    int layout = 0;
    std::string in, sql, csv;
    unsigned long buffer = 3;
    bool append = false;
    std::string path = "/sim/o.odb";
};
struct Res { bool failed = false; std::string what, bytes; uint64_t calls = 0; };

struct FileOut {           // a file a caller opens and closes
    eckit::FileHandle h;
    bool closed = false;
    FileOut(const char* p, bool append) : h(p) { if (append) h.openForAppend(0); else h.openForWrite(0); }
    void close() { closed = true; h.close(); }
};
Res runJob(const Job& j, const HandlePlan& hp, odc_encoder_t* enc, size_t room) {
    Res r;
    auto st = std::make_shared<HandleState>();
    st->plan = hp;
    SimHandle sh(st);
    wr::Arrays a;
    if (j.kind <= J_ENC_BUF) a = wr::lay(j.table, j.layout, false);
    auto filtered = [&](eckit::DataHandle& out) {
        auto is = std::make_shared<HandleState>();
        is->data = j.in;
        SimHandle in(is);
        in.openForRead();
        LIB(odc::api::filter(j.sql, in, out));
    };
    auto copied = [&](odc::Writer<>& w, bool open = true) {
        auto is = std::make_shared<HandleState>();
        is->data = j.in;
        SimHandle in(is);
        in.openForRead();
        alloc::Scope lib;
        odc::Reader rd(in);
        w.rowsBufferSize(j.buffer);
        odc::Writer<>::iterator it = w.begin(open);
        it->pass1(rd.begin(), rd.end());
        it->close();
    };
    bool c = j.kind >= J_ENC_CB && j.kind <= J_ENC_BUF;
    Callback cb{&st->data, hp, 0, 0};
    size_t at0 = j.append ? size_t(vfs::size(j.path.c_str())) : 0;
    bool good = guarded([&] {
        switch (j.kind) {
            case J_ENC_SIM: { auto infos = wr::infos(j.table); auto sd = a.strided(j.table.rows.size()); LIB(odc::api::encode(sh, infos, sd, j.table.props, j.perFrame)); break; }
            case J_ENC_FILE: { FileOut f(j.path.c_str(), j.append); auto infos = wr::infos(j.table); auto sd = a.strided(j.table.rows.size()); LIB(odc::api::encode(f.h, infos, sd, j.table.props, j.perFrame)); f.close(); break; }
            case J_FILTER_SIM: filtered(sh); break;
            case J_FILTER_FILE: { FileOut f(j.path.c_str(), j.append); filtered(f.h); f.close(); break; }
            case J_CSV_SIM: LIB(odc::api::odbFromCSV(j.csv, sh)); break;
            case J_CSV_FILE: { FileOut f(j.path.c_str(), j.append); LIB(odc::api::odbFromCSV(j.csv, f.h)); f.close(); break; }
            case J_PASS_SIM: { odc::Writer<> w(sh); copied(w); break; }
            case J_PASS_FILE: {
                if (j.append) { FileOut f(j.path.c_str(), true); odc::Writer<> w(f.h, false); copied(w, false); f.close(); }
                else { odc::Writer<> w(eckit::PathName(j.path.c_str())); copied(w); }
                break;
            }
            default: {
                size_t width = 0;
                for (auto& col : j.table.cols) width += size_t(col.width) * 8;
                int rc = LIB(odc_encoder_set_data_array(enc, a.at[0], long(width), long(j.table.rows.size()), 0));
                long n = -7;
                if (rc == 0 && j.kind == J_ENC_CB) rc = LIB(odc_encode_to_stream(enc, &cb, sinkCb, &n));
                else if (rc == 0 && j.kind == J_ENC_FD) {
                    int fd = vfs::openFd(j.path.c_str(), O_WRONLY | O_CREAT | (j.append ? O_APPEND : O_TRUNC));
                    if (fd < 0) throw std::runtime_error("open");
                    rc = LIB(odc_encode_to_file_descriptor(enc, fd, &n));
                    if (::close(fd) != 0 && rc == 0) throw std::runtime_error("close");
                } else if (rc == 0) {
                    std::unique_ptr<char[]> buf(new char[std::max<size_t>(room, 1)]);
                    rc = LIB(odc_encode_to_buffer(enc, buf.get(), long(room), &n));
                    if (rc == 0) { SIM_CHECK(n >= 0 && size_t(n) <= room, "bytes-encoded", "%ld bytes reported for a buffer of %zu", n, room); st->data.assign(buf.get(), size_t(n)); }
                }
                if (rc) {
                    const char* m = odc_error_string(rc);
                    SIM_CHECK(m && *m, "no-message", "%s: code %d without a message", jobName(j.kind), rc);
                    throw std::runtime_error(m);
                }
                size_t have = j.kind == J_ENC_FD ? size_t(vfs::size(j.path.c_str())) - at0 : st->data.size();
                SIM_CHECK(n == long(have), "bytes-encoded", "%s: %ld bytes reported, %zu stored", jobName(j.kind), n, have);
            }
        }
    }, r.what);
    r.failed = !good;
    bool file = j.kind == J_ENC_FILE || j.kind == J_ENC_FD || j.kind == J_FILTER_FILE || j.kind == J_CSV_FILE || j.kind == J_PASS_FILE;
    r.bytes = file ? vfs::get(j.path.c_str()) : st->data;
    r.calls = c ? cb.calls : st->calls;
    return r;
}
}

namespace {
Job genJob(int kind, odc_encoder_t*& enc) {
    Job j;
    j.kind = kind;
    j.buffer = 1 + gen(6);
    if (j.kind <= J_ENC_BUF) {
        wr::Opts o;
        o.maxRows = 14;
        j.table = wr::genTable(o);
        j.perFrame = 1 + gen(8);
        if (j.kind >= J_ENC_CB) {
            if (odc_new_encoder(&enc)) harnessError("encoder");
            for (size_t i = 0; i < j.table.cols.size(); i++) {
                auto& c = j.table.cols[i];
                odc_encoder_add_column(enc, c.name.c_str(), c.type);
                for (auto& b : c.bits) odc_encoder_column_add_bitfield(enc, int(i), b.first.c_str(), b.second);
                odc_encoder_column_set_data_size(enc, int(i), c.width * 8);
            }
            for (auto& kv : j.table.props) odc_encoder_add_property(enc, kv.first.c_str(), kv.second.c_str());
            odc_encoder_set_rows_per_frame(enc, long(j.perFrame));
        } else j.layout = int(gen(4));
    } else if (j.kind == J_CSV_SIM || j.kind == J_CSV_FILE) {
        int cols = 1 + int(gen(3)), rows = 1 + int(gen(30));
        for (int i = 0; i < cols; i++) j.csv += strf("%sc%d:%s", i ? "," : "", i, i == 1 ? "STRING" : i == 2 ? "REAL" : "INTEGER");
        j.csv += "\n";
        for (int r = 0; r < rows; r++) for (int i = 0; i < cols; i++) j.csv += (i == 1 ? strf("'s%d'", r % 7) : strf("%d", r * 3 + i)) + (i + 1 < cols ? "," : "\n");
    } else {
        ref::GenOpts go;
        go.maxFrames = 4;
        go.maxRows = 9;
        j.in = encoded(go);
        j.sql = "select *";
    }
    return j;
}
}

SCENARIO(W03, calls, 4) {
    eckitInit();
    cInit();
    wr::apply(wr::Env());
    odc_encoder_t* enc = nullptr;
    Job j = genJob(int(gen(J_N)), enc);
    log("%s", jobName(j.kind));
    count(jobName(j.kind));
    vfs::countOps();
    Res clean = runJob(j, HandlePlan(), enc, 1 << 17);
    if (clean.failed) {
        // e.g. SQL over frames whose columns have nothing in common; the write side is what counts here
        if (j.kind == J_FILTER_SIM || j.kind == J_FILTER_FILE || j.kind == J_PASS_SIM || j.kind == J_PASS_FILE) { log("not applicable"); if (enc) odc_free_encoder(enc); return; }
        violation("refused", "%s of valid data: %s", jobName(j.kind), clean.what.c_str());
    }
    bool onSim = j.kind == J_ENC_SIM || j.kind == J_FILTER_SIM || j.kind == J_CSV_SIM || j.kind == J_PASS_SIM;
    bool onFile = !onSim && j.kind != J_ENC_CB && j.kind != J_ENC_BUF;
    Trouble t;
    size_t room = 1 << 17;
    if (j.kind == J_ENC_BUF) { room = flt(uint32_t(clean.bytes.size() + 4)); t.any = room < clean.bytes.size(); t.describe = strf("buffer of %zu", room); }
    else if (onFile) t = drawDisk("/sim/o.odb", clean.bytes.size(), j.kind != J_ENC_FD);
    else { t = drawHandle(clean.calls, clean.bytes.size(), false, j.kind == J_ENC_SIM); if (j.kind == J_ENC_CB && t.handle.failAtCall < 0) t.handle.failAtCall = long(flt(uint32_t(std::max<uint64_t>(1, clean.calls)))); }
    log("trouble: %s", t.describe.c_str());
    vfs::put("/sim/o.odb", "");
    arm(t);
    Res bad = runJob(j, t.handle, enc, room);
    disarm();
    SIM_CHECK(bad.failed || bad.bytes == clean.bytes, "unreported", "%s reported success (%s), but %zu of %zu bytes are there", jobName(j.kind), t.describe.c_str(), bad.bytes.size(), clean.bytes.size());
    if (j.kind == J_ENC_BUF && room < clean.bytes.size()) SIM_CHECK(bad.failed, "unreported", "%zu bytes fit into a buffer of %zu", clean.bytes.size(), room);
    if (j.kind != J_ENC_BUF) {
        // what is stored is the beginning of the right output, up to the failure
        size_t same = 0;
        while (same < bad.bytes.size() && same < clean.bytes.size() && bad.bytes[same] == clean.bytes[same]) same++;
        ref::Decoded d = ref::decode(bad.bytes), c = ref::decode(clean.bytes);
        std::string x = diffStream(c.frames, d.frames, true);
        SIM_CHECK(x.empty(), "not-a-prefix", "%s: %s", jobName(j.kind), x.c_str());
        SIM_CHECK(same == bad.bytes.size() || t.handle.failTimes > 0, "not-a-prefix", "%s: byte %zu differs", jobName(j.kind), same);
    }
    if (t.minutes) SIM_CHECK(!bad.failed, "waiting-failed", "the disk was full for a while only: %s", bad.what.c_str());
    log("%s", bad.failed ? "reported" : "unaffected");
    state(fnv(t.describe.data(), t.describe.size(), uint64_t(j.kind) * 2 + bad.failed));
    vfs::put("/sim/o.odb", "");
    Res again = runJob(j, HandlePlan(), enc, clean.bytes.size() + (j.kind == J_ENC_BUF ? 0 : 100));
    SIM_CHECK(!again.failed, "retry-refused", "%s: after a failure: %s", jobName(j.kind), again.what.c_str());
    SIM_CHECK(again.bytes == clean.bytes, "retry-differs", "%s: after a failure the output differs", jobName(j.kind));
    if (enc) odc_free_encoder(enc);
}

// ------------------------------------------------------------------ A02: out of memory
#ifdef SIM_ASAN
// Rows given to a writer one by one while allocations fail
SCENARIO(A02, rows, 3) {
    eckitInit();
    wr::apply(wr::Env());
    unsigned long buffer;
    std::vector<Op> ops = genOps(3 + int(gen(thorough() ? 14 : 8)), buffer);
    int sink = int(gen(7)), ending = int(gen(4));
    if (sink == 4 || sink == 5) for (auto& op : ops) op.whole = true;
    std::string before, sig;
    if (sink >= 5) {
        ref::GenOpts go;
        go.maxFrames = 2;
        go.maxRows = 3;
        before = encoded(go);
    }
    for (auto& op : ops) sig += op.kind;
    log("sink %s buffer %lu ending %d ops %s", sinkName(sink), buffer, ending, sig.c_str());
    int afterwards = 0;
    auto once = [&] { vfs::put("/sim/a.odb", before); return runOps(ops, sink, buffer, HandlePlan(), "/sim/a.odb", ending, afterwards, before, nullptr, nullptr); };
    once();
    alloc::resetCount();
    Outcome clean = once();
    uint64_t n = alloc::counted();
    SIM_CHECK(!clean.failed, "refused", "a valid history was refused: %s", clean.what.c_str());
    std::string x = matchRows(clean, clean.bytes, true);
    SIM_CHECK(x.empty(), "rows", "without failures: %s", x.c_str());
    Starve st;
    for (int rounds = 1 + int(flt(5)); rounds > 0; rounds--) {
    st = Starve(n);
    if (!st.possible) return;
    afterwards = int(flt(3));
    log("%s, afterwards %d", st.describe.c_str(), afterwards);
    uint64_t met = 0;
    bool error = false;
    for (int i = 0; st.again(i); i++) {
        Outcome o;
        { Starve::Armed armed(st); o = once(); met += alloc::failed(); }
        st.repeated(i);
        log("%s", o.failed ? o.what.c_str() : "no error");
        error = error || o.failed;
        if (sink >= 5) SIM_CHECK(vfs::get("/sim/a.odb").compare(0, before.size(), before) == 0, "earlier-damaged", "what was in the file before the append has changed");
        bool told = sink == 4 || sink == 5 || (ending & 3);
        x = matchRows(o, o.bytes, told && !o.failed);
        SIM_CHECK(x.empty(), "wrong-data", "%s (%s), %s: %s", st.describe.c_str(), alloc::failedText().c_str(), o.failed ? o.what.c_str() : "no error is reported", x.c_str());
    }
    st.done(met, error);
    }
    afterwards = 0;
    Outcome again = once();
    SIM_CHECK(!again.failed, "does-not-recover", "%s; with memory available again: %s", st.describe.c_str(), again.what.c_str());
    SIM_CHECK(again.bytes == clean.bytes, "does-not-recover", "%s; with memory available again the same rows are written differently", st.describe.c_str());
    state(fnv(sig.data(), std::min<size_t>(sig.size(), 6), uint64_t(sink) * 10000 + st.at));
}
// Whole tables, filters, text, copies
SCENARIO(A02, calls, 3) {
    eckitInit();
    cInit();
    wr::apply(wr::Env());
    odc_encoder_t* enc = nullptr;
    Job j = genJob(int(gen(J_N)), enc);
    log("%s", jobName(j.kind));
    auto once = [&] { vfs::put(j.path.c_str(), ""); return runJob(j, HandlePlan(), enc, 1 << 17); };
    Res warm = once();
    if (warm.failed) { if (enc) odc_free_encoder(enc); return; }
    alloc::resetCount();
    Res clean = once();
    uint64_t n = alloc::counted();
    Starve st;
    for (int rounds = 1 + int(flt(5)); rounds > 0; rounds--) {
    st = Starve(n);
    if (!st.possible) return;
    count(jobName(j.kind));
    log("%s", st.describe.c_str());
    uint64_t met = 0;
    bool error = false;
    for (int i = 0; st.again(i); i++) {
        Res r;
        { Starve::Armed armed(st); r = once(); met += alloc::failed(); }
        st.repeated(i);
        log("%s", r.failed ? r.what.c_str() : "no error");
        error = error || r.failed;
        if (!r.failed) SIM_CHECK(r.bytes == clean.bytes, "wrong-data", "%s: %s (%s) and success is reported, but the output differs", jobName(j.kind), st.describe.c_str(), alloc::failedText().c_str());
        if (j.kind == J_ENC_BUF) continue;
        ref::Decoded d = ref::decode(r.bytes), c = ref::decode(clean.bytes);
        std::string x = diffRows(c.frames, d.frames, true);                 // rows copied before the error are kept
        SIM_CHECK(x.empty(), "wrong-data", "%s: %s (%s): %s", jobName(j.kind), st.describe.c_str(), alloc::failedText().c_str(), x.c_str());
    }
    st.done(met, error);
    }
    Res again = once();
    SIM_CHECK(!again.failed, "does-not-recover", "%s: with memory available again: %s", jobName(j.kind), again.what.c_str());
    SIM_CHECK(again.bytes == clean.bytes, "does-not-recover", "%s: with memory available again the output differs", jobName(j.kind));
    if (enc) odc_free_encoder(enc);
    state(uint64_t(j.kind) * 100000 + st.at);
}

#endif

// ------------------------------------------------------------------ W04
namespace {
vfs::Fault drawCrash(const char* path) {
    static const int kinds[] = {vfs::WRITE, vfs::WRITE, vfs::WRITE, vfs::CLOSE, vfs::SYNC, vfs::OPEN};
    vfs::Fault f{kinds[flt(6)], path, 0, 1, vfs::CRASH, 0, 0};
    if (f.ops == vfs::SYNC) f.path = "";
    uint64_t n = vfs::ops(f.ops, f.path);
    if (!n) { f.ops = vfs::WRITE; f.path = path; n = vfs::ops(vfs::WRITE, path); }
    f.at = flt(uint32_t(std::max<uint64_t>(n, 1)));
    int how = int(flt(3));
    if (f.ops == vfs::WRITE && how == 2) { f.act = vfs::CRASH_TORN; f.arg = flt(1001); }
    else if (how == 1) f.act = vfs::CRASH_AFTER;
    return f;
}
// What a reader gets from a file left by a crash.
void readLeft(const std::string& bytes, const ref::Decoded& d) {
    ReadPlan p;
    drawDelivery(p);
    p.limit = -1;
    if (p.api == A_SQL || p.api == A_ROWS) p.api = gen(2) ? A_CXX : A_C, p.how = D_PATH;
    p.longs = false;
    bool forwardOnly = p.how == D_STREAM || (p.how == D_SIM && !p.plan.seekable);
    Got g = readAll(p, bytes);
    ref::Stream want = expected(p, d.frames);
    CmpOpts o;
    o.zeroSign = false;
    if (d.clean == bytes.size()) {
        if (g.error && aggregated(p.api) && forwardOnly) return;
        SIM_CHECK(!g.error, "complete-refused", "%s: only complete frames were left, but reading them fails: %s", p.describe().c_str(), g.what.c_str());
        std::string x = diffStream(want, g.frames, false, o);
        SIM_CHECK(x.empty(), "read-back", "%s: %s", p.describe().c_str(), x.c_str());
        return;
    }
    SIM_CHECK(g.error, "tail-accepted", "%s: the file ends inside a frame (%zu of %zu bytes are complete frames), but reading it succeeds", p.describe().c_str(), d.clean, bytes.size());
    if (aggregated(p.api)) { o.props = false; std::string x = diffRows(want, g.frames, true, o); SIM_CHECK(x.empty(), "read-back", "%s: %s", p.describe().c_str(), x.c_str()); return; }
    std::string x = diffStream(want, g.frames, false, o);
    SIM_CHECK(x.empty(), "read-back", "%s: %s", p.describe().c_str(), x.c_str());
}
std::string earlier() {
    ref::GenOpts go;
    go.maxFrames = 2;
    go.maxRows = 4;
    return encoded(go);
}
}

SCENARIO(W04, rows, 5) {
    eckitInit();
    cInit();
    wr::apply(wr::Env());
    std::string content = gen(2) ? earlier() : "";
    vfs::put("/sim/a.odb", content);
    int sessions = 1 + int(gen(3));
    for (int k = 0; k < sessions; k++) {
        unsigned long buffer;
        std::vector<Op> ops = genOps(3 + int(gen(thorough() ? 18 : 10)), buffer);
        static const int sinks[] = {6, 5, 6, 5, 0, 3, 4};
        int sink = sinks[gen(7)], ending = 2 + int(gen(2));
        if (sink < 5) content.clear();
        if (sink == 5 || sink == 4) for (auto& op : ops) op.whole = true;
        // without a crash
        vfs::countOps();
        Outcome clean = runOps(ops, sink, buffer, HandlePlan(), "/sim/a.odb", ending, 0, content, nullptr, nullptr);
        SIM_CHECK(!clean.failed, "refused", "a valid history was refused: %s", clean.what.c_str());
        bool crash = flt(6) != 0;
        vfs::Fault f = drawCrash("/sim/a.odb");
        vfs::quiet(true);
        vfs::put("/sim/a.odb", content);
        vfs::put("/sim/progress", "0");
        vfs::quiet(false);
        if (crash) vfs::addFault(f);
        log("session %d: %s buffer %lu, %s", k, sinkName(sink), buffer, crash ? strf("%s at %s %llu (%llu)", f.act == vfs::CRASH ? "crash" : f.act == vfs::CRASH_AFTER ? "crash after" : "torn", vfs::opName(f.ops), (unsigned long long)f.at, (unsigned long long)f.arg).c_str() : "no crash");
        int rc = subprocess([&] {
            onDurable = [](size_t n) { vfs::quiet(true); vfs::put("/sim/progress", strf("%zu", n)); vfs::quiet(false); };
            Outcome o = runOps(ops, sink, buffer, HandlePlan(), "/sim/a.odb", ending, 0, content, nullptr, nullptr);
            return o.failed ? 9 : 0;
        });
        vfs::clearFaults();
        SIM_CHECK(rc == 0 || (crash && rc == CRASH_EXIT), "ended-badly", "the writing process ended with %d", rc);
        size_t durable = size_t(atol(vfs::get("/sim/progress").c_str()));
        std::string bytes = vfs::get("/sim/a.odb");
        bool truncating = sink < 5 && rc == CRASH_EXIT && f.ops == vfs::OPEN && f.at == 0 && f.act == vfs::CRASH;   // died before it was opened
        if (truncating) { SIM_CHECK(bytes == content, "earlier-damaged", "nothing was opened, but the file has changed"); content = bytes; continue; }
        SIM_CHECK(bytes.compare(0, content.size(), content) == 0, "earlier-damaged", "what was in the file before the append (%zu bytes) is not intact", content.size());
        std::string added = bytes.substr(content.size());
        ref::Decoded d = ref::decode(added);
        size_t n = 0;
        for (auto& x : d.frames) n += x.rows.size();
        Outcome upTo = clean;                        // every row was accepted in that one
        std::string x = matchRows(upTo, added, false);
        SIM_CHECK(x.empty(), "not-a-prefix", "after the crash: %s", x.c_str());
        SIM_CHECK(n >= durable, "rows-lost", "flush or close had succeeded with %zu rows accepted, %zu are in the file", durable, n);
        if (rc == 0) { x = matchRows(clean, added, true); SIM_CHECK(x.empty(), "rows-lost", "closed in order: %s", x.c_str()); }
        log("%s, %zu rows durable, %zu there, %zu bytes, %zu of them complete", rc ? "crashed" : "finished", durable, n, added.size(), d.clean);
        state(uint64_t(f.ops) * 100000 + uint64_t(f.act) * 10000 + uint64_t(sink) * 1000 + std::min<size_t>(n, 20) * 10 + (d.clean == added.size()));
        ref::Decoded all = ref::decode(bytes);
        readLeft(bytes, all);
        // the tail is cut off before somebody appends again
        content = bytes.substr(0, all.clean);
        vfs::put("/sim/a.odb", content);
    }
}

SCENARIO(W04, calls, 3) {
    eckitInit();
    cInit();
    wr::apply(wr::Env());
    static const int kinds[] = {J_ENC_FILE, J_ENC_FD, J_FILTER_FILE, J_CSV_FILE, J_PASS_FILE};
    odc_encoder_t* enc = nullptr;
    Job j = genJob(kinds[gen(5)], enc);
    j.append = (j.kind == J_ENC_FILE || j.kind == J_ENC_FD || j.kind == J_PASS_FILE) && gen(2);   // the others open what they write to themselves
    std::string before = j.append ? earlier() : "";
    log("%s%s", jobName(j.kind), j.append ? " (append)" : "");
    count(jobName(j.kind));
    vfs::put("/sim/o.odb", before);
    vfs::countOps();
    Res clean = runJob(j, HandlePlan(), enc, 0);
    if (clean.failed) { if (enc) odc_free_encoder(enc); return; }
    SIM_CHECK(clean.bytes.compare(0, before.size(), before) == 0, "earlier-damaged", "%s: what was in the file is not intact", jobName(j.kind));
    vfs::Fault f = drawCrash("/sim/o.odb");
    vfs::put("/sim/o.odb", before);
    vfs::addFault(f);
    int rc = subprocess([&] { return runJob(j, HandlePlan(), enc, 0).failed ? 9 : 0; });
    vfs::clearFaults();
    SIM_CHECK(rc == 0 || rc == CRASH_EXIT, "ended-badly", "the writing process ended with %d", rc);
    std::string bytes = vfs::get("/sim/o.odb");
    SIM_CHECK(bytes.compare(0, before.size(), before) == 0, "earlier-damaged", "%s: what was in the file is not intact after the crash", jobName(j.kind));
    if (rc == 0) SIM_CHECK(bytes == clean.bytes, "rows-lost", "%s finished, but with %zu of %zu bytes", jobName(j.kind), bytes.size(), clean.bytes.size());
    ref::Decoded d = ref::decode(bytes), c = ref::decode(clean.bytes);
    std::string x = diffStream(c.frames, d.frames, true);
    SIM_CHECK(x.empty(), "not-a-prefix", "%s: %s", jobName(j.kind), x.c_str());
    log("%d, %zu bytes, %zu complete", rc, bytes.size(), d.clean);
    state(uint64_t(j.kind) * 1000 + uint64_t(f.ops) * 10 + uint64_t(f.act) * 2 + (d.clean == bytes.size()));
    readLeft(bytes, d);
    vfs::put("/sim/o.odb", before);
    Res again = runJob(j, HandlePlan(), enc, 0);
    SIM_CHECK(!again.failed && again.bytes == clean.bytes, "retry-differs", "%s: after the crash: %s", jobName(j.kind), again.what.c_str());
    if (enc) odc_free_encoder(enc);
}

// ------------------------------------------------------------------ W05
namespace {
// Columns close to the previous ones: same, permuted, or differing in one respect.
std::vector<ref::Col> nextCols(const std::vector<ref::Col>& prev, const wr::Opts& o) {
    std::vector<ref::Col> c = prev;
    switch (gen(10)) {
        case 0: case 1: case 2: case 3: return c;
        case 4: std::reverse(c.begin(), c.end()); return c;
        case 5: { auto& x = c[gen(uint32_t(c.size()))]; if (x.type == ref::INTEGER) x.type = ref::REAL; else if (x.type == ref::REAL) x.type = ref::DOUBLE; else if (x.isStr()) x.width = x.width % 3 + 1; x.missing = x.isStr() ? 0 : x.type == ref::INTEGER || x.type == ref::BITFIELD ? o.imiss : o.rmiss; return c; }
        case 6: { auto& x = c[gen(uint32_t(c.size()))]; x.name += "2"; return c; }
        case 7: if (c.size() > 1) c.pop_back(); return c;
        case 8: for (auto& x : c) if (x.type == ref::BITFIELD) x.bits = {{"p", 2}, {"q", 3}}; return c;
        default: return wr::genCols(o);
    }
}
const char* producer(int k) { static const char* n[] = {"bytes", "row writer", "legacy writer", "encode to file", "encode to descriptor", "copy", "several frames of bytes", "nothing"}; return n[k]; }
}

SCENARIO(W05, sessions, 5) {
    eckitInit();
    cInit();
    wr::apply(wr::Env());
    wr::Opts o;
    o.maxCols = 3;
    o.maxRows = 6;
    o.special = false;
    int n = 1 + int(gen(thorough() ? 7 : 5));
    std::vector<ref::Frame> parts;                     // what every session contributes
    std::vector<std::string> pieces;
    std::vector<ref::Col> cols = wr::genCols(o);
    std::string sig;
    vfs::put("/sim/c.odb", "");
    for (int k = 0; k < n; k++) {
        step();
        if (k) cols = nextCols(cols, o);
        ref::Frame f;
        f.cols = cols;
        int how = int(gen(8));
        if (how != 2) f.props = wr::genProps();
        wr::genRows(f, 1 + int(gen(7)), o);
        size_t had = vfs::size("/sim/c.odb");
        unsigned long buffer = 1 + gen(5);
        bool whole = gen(2);
        sig += char('0' + how);
        log("session %d: %zu rows of %zu columns by %s", k, f.rows.size(), f.cols.size(), producer(how));
        count(producer(how));
        std::string what;
        bool fine = guarded([&] {
            switch (how) {
                case 0: case 6: {
                    ref::Stream s;
                    int frames = how == 6 ? 1 + int(gen(3)) : 1;
                    size_t at = 0;
                    for (int q = 0; q < frames; q++) {
                        ref::Frame x = f;
                        size_t m = q + 1 == frames ? f.rows.size() - at : gen(uint32_t(f.rows.size() - at + 1));
                        x.rows.assign(f.rows.begin() + long(at), f.rows.begin() + long(at + m));
                        at += m;
                        x.swap = gen(3) == 2;
                        ref::chooseCodecs(x, false);
                        s.push_back(x);
                    }
                    std::string b = ref::encode(s);
                    ref::Decoded d = ref::decode(b);              // packings may round what they store
                    f.rows.clear();
                    for (auto& x : d.frames) f.rows.insert(f.rows.end(), x.rows.begin(), x.rows.end());
                    std::string old = vfs::get("/sim/c.odb");
                    vfs::put("/sim/c.odb", old + b);
                    break;
                }
                case 1: case 2: {
                    std::vector<Op> ops;
                    Op h; h.kind = 'h'; h.cols = f.cols; ops.push_back(h);
                    size_t at = 0;
                    while (at < f.rows.size()) {
                        Op r; r.kind = 'r'; r.whole = whole || how == 2;
                        size_t m = 1 + gen(uint32_t(f.rows.size() - at));
                        r.rows.assign(f.rows.begin() + long(at), f.rows.begin() + long(at + m));
                        at += m;
                        ops.push_back(r);
                        if (gen(3) == 2) { Op x; x.kind = 'f'; ops.push_back(x); }
                    }
                    f.props.clear();
                    Outcome r = runOps(ops, how == 2 ? 5 : 6, buffer, HandlePlan(), "/sim/c.odb", 2, 0, vfs::get("/sim/c.odb"), nullptr, nullptr);
                    if (r.failed) throw std::runtime_error(r.what);
                    break;
                }
                case 3: {
                    wr::Arrays a = wr::lay(f, int(gen(4)), false);
                    eckit::FileHandle fh("/sim/c.odb");
                    fh.openForAppend(0);
                    odc::api::encode(fh, wr::infos(f), a.strided(f.rows.size()), f.props, buffer);
                    fh.close();
                    break;
                }
                case 4: {
                    Job j;
                    j.kind = J_ENC_FD;
                    j.append = true;
                    j.path = "/sim/c.odb";
                    j.table = f;
                    odc_encoder_t* enc = nullptr;
                    odc_new_encoder(&enc);
                    for (size_t i = 0; i < f.cols.size(); i++) {
                        odc_encoder_add_column(enc, f.cols[i].name.c_str(), f.cols[i].type);
                        for (auto& b : f.cols[i].bits) odc_encoder_column_add_bitfield(enc, int(i), b.first.c_str(), b.second);
                        odc_encoder_column_set_data_size(enc, int(i), f.cols[i].width * 8);
                    }
                    for (auto& kv : f.props) odc_encoder_add_property(enc, kv.first.c_str(), kv.second.c_str());
                    odc_encoder_set_rows_per_frame(enc, long(buffer));
                    Res r = runJob(j, HandlePlan(), enc, 0);
                    odc_free_encoder(enc);
                    if (r.failed) throw std::runtime_error(r.what);
                    break;
                }
                case 5: {
                    Job j;
                    j.kind = J_PASS_FILE;
                    j.append = true;
                    j.path = "/sim/c.odb";
                    j.buffer = buffer;
                    ref::Frame x = f;
                    ref::chooseCodecs(x, false);
                    x.props.clear();
                    f.props.clear();
                    ref::Stream s{x};
                    j.in = ref::encode(s);
                    f.rows = ref::decode(j.in).frames[0].rows;
                    Res r = runJob(j, HandlePlan(), nullptr, 0);
                    if (r.failed) throw std::runtime_error(r.what);
                    break;
                }
                case 7: {                                     // opened and closed without a row
                    std::vector<Op> ops;
                    Op h; h.kind = 'h'; h.cols = f.cols; ops.push_back(h);
                    f.rows.clear();
                    Outcome r = runOps(ops, gen(2) ? 5 : 6, buffer, HandlePlan(), "/sim/c.odb", 2, 0, vfs::get("/sim/c.odb"), nullptr, nullptr);
                    if (r.failed) throw std::runtime_error(r.what);
                    break;
                }
            }
        }, what);
        SIM_CHECK(fine, "refused", "session %d (%s): %s", k, producer(how), what.c_str());
        std::string now = vfs::get("/sim/c.odb");
        pieces.push_back(now.substr(std::min(now.size(), had)));
        if (!f.rows.empty()) parts.push_back(f);
    }
    // every part is there, in order
    std::string bytes = vfs::get("/sim/c.odb");
    ref::Decoded d = ref::decode(bytes);
    SIM_CHECK(d.ok, "not-odb", "the concatenation is not a valid stream: %s", d.error.c_str());
    stripEncoder(d.frames);
    size_t part = 0, row = 0;
    for (auto& f : d.frames) {
        if (f.rows.empty()) continue;
        SIM_CHECK(part < parts.size(), "extra-rows", "there are more rows than were written");
        std::string x = wr::diffCols(parts[part].cols, f.cols);
        SIM_CHECK(x.empty(), "columns", "part %zu: %s", part, x.c_str());
        SIM_CHECK(f.props == parts[part].props, "properties", "part %zu has not its own properties", part);
        SIM_CHECK(row + f.rows.size() <= parts[part].rows.size(), "rows", "a frame crosses the end of part %zu", part);
        x = wr::diffRows(parts[part], f, row, f.rows.size());
        SIM_CHECK(x.empty(), "values", "part %zu: %s", part, x.c_str());
        row += f.rows.size();
        if (row == parts[part].rows.size()) { part++; row = 0; }
    }
    SIM_CHECK(part == parts.size(), "rows-lost", "%zu of %zu parts are there", part, parts.size());
    if (d.frames.empty()) return;
    state(fnv(sig.data(), sig.size()));
    // and as the library reads it
    d = ref::decode(bytes);
    int times = 1 + int(gen(3));
    for (int k = 0; k < times; k++) {
        ReadPlan p;
        drawDelivery(p);
        p.longs = false;
        if (p.limit >= 0) { long m = 0; for (auto& f : d.frames) m = std::max(m, long(f.rows.size())); p.limit = std::max(p.limit, m); }
        bool forwardOnly = p.how == D_STREAM || (p.how == D_SIM && !p.plan.seekable);
        log("%s", p.describe().c_str());
        Got g = readAll(p, bytes);
        if (g.error && aggregated(p.api) && forwardOnly) continue;
        CmpOpts c;
        c.zeroSign = false;
        if (p.api == A_SQL) {                              // the columns of the first frame; others may be refused
            if (g.error) { count("sql refused"); continue; }
            bool all = true;
            for (auto& f : d.frames) for (auto& c0 : d.frames[0].cols) { bool has = false; for (auto& c1 : f.cols) has = has || (c1.name == c0.name && c1.type == c0.type && c1.width == c0.width && c1.missing == c0.missing); all = all && has; }
            if (!all) continue;
        }
        SIM_CHECK(!g.error, "read-refused", "%s: %s", p.describe().c_str(), g.what.c_str());
        if (p.api == A_SQL) {
            bool alike = true;
            for (auto& f : d.frames) { alike = alike && f.cols.size() == d.frames[0].cols.size(); for (size_t i = 0; alike && i < f.cols.size(); i++) alike = f.cols[i].name == d.frames[0].cols[i].name; }
            size_t rows = 0, got = 0;
            for (auto& f : d.frames) rows += f.rows.size();
            for (auto& f : g.frames) got += f.rows.size();
            SIM_CHECK(rows == got, "rows-lost", "%s: %zu rows, %zu are stored", p.describe().c_str(), got, rows);
            c.props = c.bits = false;
            std::string x = alike ? diffRows(d.frames, g.frames, false, c) : "";
            SIM_CHECK(x.empty(), "read-back", "%s: %s", p.describe().c_str(), x.c_str());
            continue;
        }
        ref::Stream want = expected(p, d.frames);
        std::string x = diffStream(want, g.frames, false, c);
        SIM_CHECK(x.empty(), "read-back", "%s: %s", p.describe().c_str(), x.c_str());
    }
}

// ------------------------------------------------------------------ T03
#include "sched.h"
namespace {
struct Session {
    int kind = 0;                  // 0..J_N-1 a job; 100 row writer; 200 reading
    Job j;
    odc_encoder_t* enc = nullptr;
    std::vector<Op> ops;
    int sink = 0;
    unsigned long buffer = 1;
    ReadPlan p;
    std::string bytes, result;
    int times = 1;
};
std::string once(Session& s) {
    std::string r;
    if (s.kind < J_N) {
        vfs::remove(s.j.path);
        Res x = runJob(s.j, HandlePlan(), s.enc, 1 << 16);
        r = x.failed ? "failed: " + x.what : "bytes: " + x.bytes;
    } else if (s.kind == 100) {
        vfs::remove(s.j.path);
        Outcome o = runOps(s.ops, s.sink, s.buffer, HandlePlan(), s.j.path, 2, 0, "", nullptr, nullptr);
        r = o.failed ? "failed: " + o.what : "bytes: " + vfs::get(s.j.path);
    } else {
        settings(s.p.longs);
        Got g = readAll(s.p, s.bytes);
        settings(false);
        r = g.error ? "failed: " + g.what : "read";
        for (auto& f : g.frames) {
            r += "\n";
            for (auto& c : f.cols) { r += strf(" %s/%d/%d", c.name.c_str(), c.type, c.width); for (auto& b : c.bits) r += strf("[%s:%d]", b.first.c_str(), b.second); }
            for (auto& kv : f.props) r += " " + kv.first + "=" + kv.second;
            for (auto& row : f.rows) { r += "\n"; for (size_t c = 0; c < row.size(); c++) r += ref::show(f.cols[c], row[c]) + ","; }
        }
    }
    return r;
}
void session(void* p) {
    Session& s = *static_cast<Session*>(p);
    s.result.clear();
    for (int i = 0; i < s.times; i++) {
        std::string r = once(s);
        if (r.compare(0, 7, "failed:") == 0) {                       // messages name addresses, and errno whatever it is
            std::string m = r.substr(0, r.find('\n')), rest = r.substr(m.size());
            r = m;
            size_t par = r.rfind(" (");
            for (int e : {0, ENOENT, EINVAL, ENOTTY, EAGAIN, ESPIPE, ENOMEM}) if (par != std::string::npos && r.compare(par, std::string::npos, strf(" (%s)", strerror(e))) == 0) { r.erase(par); break; }
            for (size_t at = 0; (at = r.find("fd=", at)) != std::string::npos; at += 3)
                while (at + 3 < r.size() && isdigit(static_cast<unsigned char>(r[at + 3]))) r.erase(at + 3, 1);
            for (size_t at = 0; (at = r.find("0x", at)) != std::string::npos; at += 2)
                while (at + 2 < r.size() && isxdigit(static_cast<unsigned char>(r[at + 2]))) r.erase(at + 2, 1);
            r += rest;
        }
        s.result += r + "\n";
    }
}
std::string name(const Session& s) { return s.kind < J_N ? jobName(s.kind) : s.kind == 100 ? strf("row writer to %s", sinkName(s.sink)) : s.p.describe(); }
Session genSession(int i) {
    Session s;
    int what = int(gen(10));
    if (what < 4) {
        s.kind = int(gen(J_N));
        s.j = genJob(s.kind, s.enc);
    } else if (what < 6) {
        s.kind = 100;
        s.ops = genOps(3 + int(gen(6)), s.buffer);
        static const int sinks[] = {0, 3, 4, 5, 6};
        s.sink = sinks[gen(5)];
        if (s.sink == 5 || s.sink == 4) for (auto& op : s.ops) op.whole = true;
    } else {
        s.kind = 200;
        drawDelivery(s.p);
        s.p.longs = gen(3) == 2 && s.p.api != A_SQL && s.p.api != A_ROWS;
        ref::GenOpts go;
        go.maxFrames = 3; go.maxRows = 6;
        s.bytes = encoded(go);
        if (gen(3) == 2 && s.bytes.size() > 2) { s.bytes.resize(1 + gen(uint32_t(s.bytes.size() - 1))); s.p.damaged = true; }
        s.p.path = strf("/sim/in%d.odb", i);
        s.p.limit = -1;
    }
    s.j.path = strf("/sim/out%d.odb", i);
    s.times = 1 + (gen(4) == 3);
    return s;
}
}

// Threads that have nothing to do with one another, from a cold start of the library.
SCENARIO(T03, sessions, 10) {
    eckitInit();
    cInit();
    onDurable = nullptr;
    static std::vector<Session> ss;
    int n = 2 + int(gen(3));
    for (int i = 0; i < n; i++) ss.push_back(genSession(i));
    if (gen(4) == 3) for (int i = 1; i < n; i++) if (gen(2)) {           // all of one kind
        Session s = ss[0];
        if (s.kind >= J_ENC_CB && s.kind <= J_ENC_BUF) continue;
        s.j.path = strf("/sim/out%d.odb", i);
        s.p.path = strf("/sim/in%d.odb", i);
        ss[size_t(i)] = s;
    }
    std::vector<std::string> alone;
    for (int i = 0; i < n; i++) {
        int rc = subprocess([&] { wr::apply(wr::Env()); session(&ss[size_t(i)]); vfs::quiet(true); vfs::put(strf("/sim/alone%d", i), ss[size_t(i)].result); vfs::quiet(false); return 0; });
        if (rc) violation("refused", "%s alone ends with %d", name(ss[size_t(i)]).c_str(), rc);
        alone.push_back(vfs::get(strf("/sim/alone%d", i)));
        log("session %d: %s, %d times -> %.60s", i, name(ss[size_t(i)]).c_str(), ss[size_t(i)].times, alone.back().substr(0, alone.back().find('\n')).c_str());
    }
    wr::apply(wr::Env());
    sched::begin();
    for (int i = 1; i < n; i++) sched::spawn(session, &ss[size_t(i)]);
    session(&ss[0]);
    sched::joinAll();
    sched::end();
    for (int i = 0; i < n; i++)
        SIM_CHECK(ss[size_t(i)].result == alone[size_t(i)], "disturbed", "%s gives something else than alone: '%.150s', alone '%.150s'", name(ss[size_t(i)]).c_str(), ss[size_t(i)].result.c_str(), alone[size_t(i)].c_str());
    for (auto& s : ss) if (s.enc) odc_free_encoder(s.enc);
    state(sched::signature());
}

// The C interface may be initialised by whoever comes first, and again.
SCENARIO(T03, initialise, 1) {
    onDurable = nullptr;
    static int rcs[4];
    int n = 2 + int(gen(3));
    sched::begin();
    for (int i = 1; i < n; i++) sched::spawn([](void* p) { *static_cast<int*>(p) = odc_initialise_api(); }, &rcs[i]);
    rcs[0] = odc_initialise_api();
    sched::joinAll();
    sched::end();
    for (int i = 0; i < n; i++) SIM_CHECK(rcs[i] == ODC_SUCCESS, "refused", "initialising the C interface from %d threads: %s", n, odc_error_string(rcs[i]));
    state(sched::signature());
}
